From a8d15e0ff9cbace919b081fb91878fd512c683d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 001/100] fix: order numbers by exact value and distinguish all
 distinct numbers

Canonical ordering compared rationals and large integers through 53-bit
floats and ignored the imaginary part of complex numbers, so distinct
numbers could compare as equal or in the wrong order and sorting depended
on the input order.
---
 expreduce/atoms/order.go | 130 ++++++++++++++++++++++++++-------------
 1 file changed, 86 insertions(+), 44 deletions(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index ba6e804..12a1e42 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -1,6 +1,8 @@
 package atoms
 
 import (
+	"math/big"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -28,18 +30,82 @@ func compareStrings(a string, b string) int64 {
 	return 0
 }
 
-func exprToN(e expreduceapi.Ex) expreduceapi.Ex {
-	asInt, isInt := e.(*Integer)
-	if isInt {
-		toReturn, _ := IntegerToFlt(asInt)
-		return toReturn
+// realValue returns the exact value of a real number. It reports false for
+// infinite floats and for anything that is not a real number.
+func realValue(e expreduceapi.Ex) (*big.Rat, bool) {
+	switch n := e.(type) {
+	case *Integer:
+		return new(big.Rat).SetInt(n.Val), true
+	case *Rational:
+		if n.Den.Sign() == 0 {
+			return nil, false
+		}
+		return n.asBigRat(), true
+	case *Flt:
+		if n.Val.IsInf() {
+			return nil, false
+		}
+		val, _ := n.Val.Rat(nil)
+		return val, true
+	}
+	return nil, false
+}
+
+// numberKind ranks the number types. It orders numbers of different types that
+// have the same value.
+func numberKind(e expreduceapi.Ex) int {
+	switch e.(type) {
+	case *Integer:
+		return 0
+	case *Rational:
+		return 1
+	case *Flt:
+		return 2
+	}
+	return 3
+}
+
+// numberOrder orders two numbers by their real part, then by their imaginary
+// part, and then by their type. It returns zero for identical numbers only.
+func numberOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
+	aRe, aIm := a, expreduceapi.Ex(NewInt(0))
+	if aAsComplex, isComplex := a.(*Complex); isComplex {
+		aRe, aIm = aAsComplex.Re, aAsComplex.Im
+	}
+	bRe, bIm := b, expreduceapi.Ex(NewInt(0))
+	if bAsComplex, isComplex := b.(*Complex); isComplex {
+		bRe, bIm = bAsComplex.Re, bAsComplex.Im
+	}
+	for _, pair := range [][2]expreduceapi.Ex{{aRe, bRe}, {aIm, bIm}} {
+		aVal, aOk := realValue(pair[0])
+		bVal, bOk := realValue(pair[1])
+		if aOk && bOk {
+			if cmp := bVal.Cmp(aVal); cmp != 0 {
+				return int64(cmp)
+			}
+			continue
+		}
+		aFlt, aIsFlt := pair[0].(*Flt)
+		bFlt, bIsFlt := pair[1].(*Flt)
+		if aIsFlt && bIsFlt {
+			if cmp := bFlt.Val.Cmp(aFlt.Val); cmp != 0 {
+				return int64(cmp)
+			}
+		} else if aIsFlt && bOk {
+			return int64(-aFlt.Val.Sign())
+		} else if bIsFlt && aOk {
+			return int64(bFlt.Val.Sign())
+		}
 	}
-	asRat, isRat := e.(*Rational)
-	if isRat {
-		toReturn, _ := RationalToFlt(asRat)
-		return toReturn
+	for _, pair := range [][2]expreduceapi.Ex{{a, b}, {aRe, bRe}, {aIm, bIm}} {
+		aKind, bKind := numberKind(pair[0]), numberKind(pair[1])
+		if aKind < bKind {
+			return 1
+		} else if aKind > bKind {
+			return -1
+		}
 	}
-	return e
+	return 0
 }
 
 func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
@@ -52,49 +118,25 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 	aAsExp, aIsExp := a.(expreduceapi.ExpressionInterface)
 	bAsExp, bIsExp := b.(expreduceapi.ExpressionInterface)
 
-	aAsFlt, aIsFlt := a.(*Flt)
-	bAsFlt, bIsFlt := b.(*Flt)
+	_, aIsFlt := a.(*Flt)
+	_, bIsFlt := b.(*Flt)
 	aAsInteger, aIsInteger := a.(*Integer)
 	bAsInteger, bIsInteger := b.(*Integer)
-	aAsRational, aIsRational := a.(*Rational)
-	bAsRational, bIsRational := b.(*Rational)
-	aAsComplex, aIsComplex := a.(*Complex)
-	bAsComplex, bIsComplex := b.(*Complex)
+	_, aIsRational := a.(*Rational)
+	_, bIsRational := b.(*Rational)
+	_, aIsComplex := a.(*Complex)
+	_, bIsComplex := b.(*Complex)
 
 	// Handle number comparisons
 	if aIsInteger && bIsInteger {
 		return int64(bAsInteger.Val.Cmp(aAsInteger.Val))
 	}
-	// Merge Integer and Rational into Flt
-	// TODO: possible precision, round off issue here.
-	if aIsInteger {
-		aAsFlt, aIsFlt = IntegerToFlt(aAsInteger)
-	}
-	if bIsInteger {
-		bAsFlt, bIsFlt = IntegerToFlt(bAsInteger)
-	}
-	if aIsRational {
-		aAsFlt, aIsFlt = RationalToFlt(aAsRational)
-	}
-	if bIsRational {
-		bAsFlt, bIsFlt = RationalToFlt(bAsRational)
-	}
-	if aIsComplex {
-		aAsFlt, aIsFlt = exprToN(aAsComplex.Re).(*Flt)
-	}
-	if bIsComplex {
-		bAsFlt, bIsFlt = exprToN(bAsComplex.Re).(*Flt)
-	}
+	// Integer, Rational and Complex all sort together with Flt.
+	aIsFlt = aIsFlt || aIsInteger || aIsRational || aIsComplex
+	bIsFlt = bIsFlt || bIsInteger || bIsRational || bIsComplex
 
 	if aIsFlt && bIsFlt {
-		initCmp := int64(bAsFlt.Val.Cmp(aAsFlt.Val))
-		if initCmp == 0 && (aIsInteger && !bIsInteger) {
-			return 1
-		}
-		if initCmp == 0 && (!aIsInteger && bIsInteger) {
-			return -1
-		}
-		return initCmp
+		return numberOrder(a, b)
 	}
 
 	// Handle expression comparisons
-- 
2.43.0


From 19d57f39f8043f38cc3e4a18ba5c13a7a6a17279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 002/100] fix: a pattern without arguments does not match calls
 with arguments

---
 expreduce/matcher/allocations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expreduce/matcher/allocations.go b/expreduce/matcher/allocations.go
index 113bc6c..accf9df 100644
--- a/expreduce/matcher/allocations.go
+++ b/expreduce/matcher/allocations.go
@@ -29,6 +29,10 @@ func (ai *allocIter) next() bool {
 			ai.alloc[p.currForm-1] = p.currFormI
 		}
 		if p.currForm >= len(ai.forms) {
+			// Without any forms there is nothing to hold the components.
+			if p.remaining > 0 {
+				continue
+			}
 			return true
 		}
 		// If we are on the last form, we can check directly if the last form
-- 
2.43.0


From 9e39649053936eb2bb9a681ac13f5d9eedfd8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 003/100] fix: hash real numbers by value only

---
 expreduce/atoms/ex_real.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expreduce/atoms/ex_real.go b/expreduce/atoms/ex_real.go
index f502e4e..76caf1b 100644
--- a/expreduce/atoms/ex_real.go
+++ b/expreduce/atoms/ex_real.go
@@ -92,8 +92,10 @@ func (flt *Flt) NeedsEval() bool {
 func (flt *Flt) Hash() uint64 {
 	h := fnv.New64a()
 	h.Write([]byte{195, 244, 76, 249, 227, 115, 88, 251})
-	bytes, _ := flt.Val.GobEncode()
-	h.Write(bytes)
+	// Only the value counts, not how it was rounded (which GobEncode includes).
+	if flt.Val.Sign() != 0 {
+		h.Write(flt.Val.Append(nil, 'p', 0))
+	}
 	return h.Sum64()
 }
 
-- 
2.43.0


From 2b141b0d7de921bc9a98c0ce4b67a22efeebad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 004/100] fix: evaluation builds new expressions instead of
 changing shared ones

---
 expreduce/eval.go | 48 +++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index c7276d3..cdb3fd9 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -35,10 +35,13 @@ func (es *EvalState) Eval(expr expreduceapi.Ex) expreduceapi.Ex {
 }
 
 func (es *EvalState) evalComplex(this *atoms.Complex) expreduceapi.Ex {
-	this.Re = es.Eval(this.Re)
-	this.Im = es.Eval(this.Im)
-	if atoms.IsSameQ(this.Im, atoms.NewInt(0)) {
-		return this.Re
+	re := es.Eval(this.Re)
+	im := es.Eval(this.Im)
+	if atoms.IsSameQ(im, atoms.NewInt(0)) {
+		return re
+	}
+	if re != this.Re || im != this.Im {
+		this = atoms.NewComplex(re, im)
 	}
 	this.SetNeedsEval(false)
 	return this
@@ -120,6 +123,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				return es.Eval(propagated)
 			}
 		}
+		owned := false
 		for i := range curr.GetParts() {
 			if headIsSym && i == 1 && attrs.HoldFirst {
 				continue
@@ -140,14 +144,24 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 					),
 				)
 			}
-			oldHash := curr.GetParts()[i].Hash()
+			oldPart := curr.GetParts()[i]
+			oldHash := oldPart.Hash()
 			//fmt.Println(curr, i)
-			curr.GetParts()[i] = es.Eval(curr.GetParts()[i])
+			newPart := es.Eval(oldPart)
 			if es.HasThrown() {
 				return es.Thrown()
 			}
-			if oldHash != curr.GetParts()[i].Hash() {
-				curr.CachedHash = 0
+			if newPart != oldPart {
+				// Others may hold this expression, so it must not change.
+				if !owned {
+					curr = atoms.ShallowCopy(curr)
+					currEx = curr
+					owned = true
+				}
+				curr.GetParts()[i] = newPart
+				if oldHash != newPart.Hash() {
+					curr.CachedHash = 0
+				}
 			}
 			if es.GetTrace() != nil && !es.IsFrozen() {
 				if len(es.GetTrace().GetParts()) > 2 {
@@ -199,9 +213,11 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
 			}
-			if attrs.Orderless {
+			if attrs.Orderless && !sort.IsSorted(curr) {
+				curr = atoms.ShallowCopy(curr)
 				sort.Sort(curr)
 				curr.CachedHash = 0
+				currEx = curr
 			}
 			if attrs.Listable {
 				var changed bool
@@ -297,16 +313,16 @@ func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 		return atoms.NewInteger(absNum.Neg(absNum))
 	}
 
-	if !negateRes {
-		this.Num.Set(absNum)
-		this.Den.Set(absDen)
+	if negateRes {
+		absNum.Neg(absNum)
+	}
+	if absNum.Cmp(this.Num) == 0 && absDen.Cmp(this.Den) == 0 {
 		this.SetNeedsEval(false)
 		return this
 	}
-	this.Num.Set(absNum.Neg(absNum))
-	this.Den.Set(absDen)
-	this.SetNeedsEval(false)
-	return this
+	res := atoms.NewRational(absNum, absDen)
+	res.SetNeedsEval(false)
+	return res
 }
 
 func (es *EvalState) evalSymbol(this *atoms.Symbol) expreduceapi.Ex {
-- 
2.43.0


From 7068c10fd912e5886c5a729a755afc7f7ee11ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 005/100] fix: calls of Flat symbols without definitions are
 flattened

---
 expreduce/eval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index cdb3fd9..32568e8 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -212,6 +212,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		if headIsSym {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
+				currEx = curr
 			}
 			if attrs.Orderless && !sort.IsSorted(curr) {
 				curr = atoms.ShallowCopy(curr)
-- 
2.43.0


From c74ab2d8a92efba9d362286495da813d8605fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 006/100] fix: Max and Min of non-numbers terminate and leave
 their arguments alone

---
 expreduce/builtin_comparison.go | 61 +++++++++++++++++----------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index c08b0c7..18d8307 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -20,20 +20,13 @@ func extremaFunction(
 	es expreduceapi.EvalStateInterface,
 ) expreduceapi.Ex {
 	// Flatten nested lists into arguments.
-	origHead := this.GetParts()[0]
-	this.GetParts()[0] = atoms.S("List")
-	dst := atoms.E(atoms.S("List"))
-	flattenExpr(this, dst, 999999999, es.GetLogger())
-	// Previously I always set the pointer but it led to an endless
-	// eval loop. I think evaluation might use the pointer to make a
-	// "same" comparison.
-	if !atoms.IsSameQ(this, dst) {
-		this = dst
-		sort.Sort(this)
-	}
-	this.GetParts()[0] = origHead
+	args := atoms.E(atoms.S("List"))
+	args.AppendExArray(this.GetParts()[1:])
+	flat := atoms.E(atoms.S("List"))
+	flattenExpr(args, flat, 999999999, es.GetLogger())
+	sort.Sort(flat)
 
-	if len(this.GetParts()) == 1 {
+	if flat.Len() == 0 {
 		if fnType == maxFn {
 			return atoms.E(
 				atoms.S("Times"),
@@ -43,29 +36,37 @@ func extremaFunction(
 		}
 		return atoms.S("Infinity")
 	}
-	if len(this.GetParts()) == 2 {
-		return this.GetParts()[1]
+	if flat.Len() == 1 {
+		return flat.GetPart(1)
 	}
-	var i int
-	for i = 1; i < len(this.GetParts()); i++ {
-		if !atoms.NumberQ(this.GetParts()[i]) {
-			break
+	// Real numbers are in ascending order. Keep only the extreme one.
+	var extreme expreduceapi.Ex
+	res := atoms.E(this.GetPart(0))
+	for _, part := range flat.GetParts()[1:] {
+		_, isComplex := part.(*atoms.Complex)
+		if isComplex || !atoms.NumberQ(part) {
+			continue
+		}
+		if extreme == nil || fnType == maxFn {
+			extreme = part
 		}
 	}
-	if fnType == maxFn {
-		i--
-		return atoms.NewExpression(
-			append(
-				[]expreduceapi.Ex{this.GetParts()[0]},
-				this.GetParts()[i:]...),
-		)
+	if extreme != nil {
+		res.AppendEx(extreme)
+	}
+	for _, part := range flat.GetParts()[1:] {
+		_, isComplex := part.(*atoms.Complex)
+		if isComplex || !atoms.NumberQ(part) {
+			res.AppendEx(part)
+		}
+	}
+	if res.Len() == 1 {
+		return res.GetPart(1)
 	}
-	if i == 1 {
+	if atoms.IsSameQ(res, this) {
 		return this
 	}
-	return atoms.NewExpression(
-		append(this.GetParts()[:2], this.GetParts()[i:]...),
-	)
+	return res
 }
 
 func getCompSign(e expreduceapi.Ex) int {
-- 
2.43.0


From d076fd59fc09f650f69fcc6c2877d898c70b69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 007/100] fix: Factorial does not change its argument

---
 expreduce/builtin_combinatorics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index 3e3747e..dd230d1 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -97,7 +97,7 @@ func factorial(n *big.Int) (result *big.Int) {
 		result.Set(n)
 		var one big.Int
 		one.SetInt64(1)
-		result.Mul(result, factorial(n.Sub(n, &one)))
+		result.Mul(result, factorial(new(big.Int).Sub(n, &one)))
 	}
 	return
 }
-- 
2.43.0


From 064fed056e5b255e0ad65818eb8aceddebe57421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 008/100] fix: And and Or leave their arguments unchanged and
 stop at a Throw

---
 expreduce/builtin_boolean.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/expreduce/builtin_boolean.go b/expreduce/builtin_boolean.go
index 67ada29..95148b7 100644
--- a/expreduce/builtin_boolean.go
+++ b/expreduce/builtin_boolean.go
@@ -16,13 +16,16 @@ func getBooleanDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`And")},
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
-				this.GetParts()[i] = es.Eval(this.GetParts()[i])
-				if booleanQ(this.GetParts()[i], es.GetLogger()) {
-					if falseQ(this.GetParts()[i], es.GetLogger()) {
+				part := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
+				if booleanQ(part, es.GetLogger()) {
+					if falseQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`False")
 					}
 				} else {
-					res.AppendEx(this.GetParts()[i])
+					res.AppendEx(part)
 				}
 			}
 			if len(res.GetParts()) == 1 {
@@ -44,13 +47,16 @@ func getBooleanDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`Or")},
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
-				this.GetParts()[i] = es.Eval(this.GetParts()[i])
-				if booleanQ(this.GetParts()[i], es.GetLogger()) {
-					if trueQ(this.GetParts()[i], es.GetLogger()) {
+				part := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
+				if booleanQ(part, es.GetLogger()) {
+					if trueQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`True")
 					}
 				} else {
-					res.AppendEx(this.GetParts()[i])
+					res.AppendEx(part)
 				}
 			}
 			if len(res.GetParts()) == 1 {
-- 
2.43.0


From d697b203e02dbb585d36e3969fc8ae332fae8443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 009/100] fix: Set evaluates the arguments of its left-hand
 side, without changing it

---
 expreduce/builtin_system.go | 50 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index c1a1173..29cfd4b 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -296,6 +296,34 @@ func parseOutputStream(outputStreamDef expreduceapi.Ex) (string, int64, bool) {
 	return streamName.GetValue(), streamIndex.Val.Int64(), true
 }
 
+// evalAssignedLHS evaluates the parts of the left-hand side of an assignment
+// that are not held, without changing the original expression.
+func evalAssignedLHS(
+	lhs expreduceapi.Ex,
+	es expreduceapi.EvalStateInterface,
+) expreduceapi.Ex {
+	expr, isExpr := lhs.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return lhs
+	}
+	attrs := expreduceapi.Attributes{}
+	if headSym, headIsSym := expr.GetPart(0).(*atoms.Symbol); headIsSym {
+		attrs = headSym.Attrs(es.GetDefinedMap())
+	}
+	if attrs.HoldAll || attrs.HoldAllComplete {
+		return lhs
+	}
+	res := atoms.NewEmptyExpression()
+	for i, part := range expr.GetParts() {
+		held := i == 1 && attrs.HoldFirst || i > 1 && attrs.HoldRest
+		if !held {
+			part = es.Eval(part)
+		}
+		res.AppendEx(part)
+	}
+	return res
+}
+
 func getSystemDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name:              "ExpreduceSetLogging",
@@ -496,7 +524,7 @@ func getSystemDefinitions() (defs []Definition) {
 				return this
 			}
 
-			es.Define(this.GetParts()[1], this.GetParts()[2])
+			es.Define(evalAssignedLHS(this.GetPart(1), es), this.GetPart(2))
 			return this.GetParts()[2]
 		},
 		SimpleExamples: []TestInstruction{
@@ -562,25 +590,7 @@ func getSystemDefinitions() (defs []Definition) {
 				return this
 			}
 
-			lhs, lhsIsExpr := this.GetParts()[1].(expreduceapi.ExpressionInterface)
-			if lhsIsExpr {
-				headSym, headIsSym := &atoms.Symbol{}, false
-				if len(lhs.GetParts()) > 0 {
-					headSym, headIsSym = lhs.GetParts()[0].(*atoms.Symbol)
-				}
-				attrs := expreduceapi.Attributes{}
-				if headIsSym {
-					attrs = headSym.Attrs(es.GetDefinedMap())
-				}
-
-				if !(attrs.HoldAll || attrs.HoldAllComplete) {
-					for i := range lhs.GetParts() {
-						lhs.GetParts()[i] = es.Eval(lhs.GetParts()[i])
-					}
-				}
-				es.Define(lhs, this.GetParts()[2])
-			}
-			es.Define(this.GetParts()[1], this.GetParts()[2])
+			es.Define(evalAssignedLHS(this.GetPart(1), es), this.GetPart(2))
 			return atoms.NewSymbol("System`Null")
 		},
 		SimpleExamples: []TestInstruction{
-- 
2.43.0


From 2ee327bcb414133ead5cb10cc5a08ad380a15ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 010/100] fix: redefinitions do not change rules shared with
 snapshots

---
 expreduce/evalstate.go | 62 ++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4d7c7f8..057b72f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -537,63 +537,55 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		return
 	}
 
+	// The list of rules may be shared with a snapshot, so changes go to a copy.
+	var tmp = es.defined.GetDef(name)
+	downvalues := append([]expreduceapi.DownValue{}, tmp.Downvalues...)
+	newRule := atoms.NewExpression(
+		[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
+	)
+
 	// Overwrite identical rules.
-	for _, dv := range es.defined.GetDef(name).Downvalues {
-		existingRule := dv.Rule
-		existingLHS := existingRule.GetParts()[1]
+	for i, dv := range downvalues {
+		existingLHS := dv.Rule.GetParts()[1]
 		if atoms.IsSameQ(existingLHS, heldLHS) {
-			es.defined.LockKey(name)
-			existingRHSCond := maskNonConditional(existingRule.GetParts()[2])
+			existingRHSCond := maskNonConditional(dv.Rule.GetParts()[2])
 			newRHSCond := maskNonConditional(rhs)
 			if atoms.IsSameQ(existingRHSCond, newRHSCond) {
-				dv.Rule.GetParts()[2] = rhs
-				es.defined.UnlockKey(name)
+				downvalues[i].Rule = newRule
+				tmp.Downvalues = downvalues
+				es.defined.Set(name, tmp)
 				return
 			}
-			es.defined.UnlockKey(name)
 		}
 	}
 
 	// Insert into definitions for name. Maintain order of decreasing
 	// complexity.
-	var tmp = es.defined.GetDef(name)
 	newSpecificity := ruleSpecificity(heldLHS, rhs, name, es)
-	for i, dv := range es.defined.GetDef(name).Downvalues {
+	position := len(downvalues)
+	for i, dv := range downvalues {
 		if dv.Specificity == 0 {
-			es.defined.LockKey(name)
-			dv.Specificity = ruleSpecificity(
+			downvalues[i].Specificity = ruleSpecificity(
 				dv.Rule.GetParts()[1],
 				dv.Rule.GetParts()[2],
 				name,
 				es,
 			)
-			es.defined.UnlockKey(name)
 		}
-		if dv.Specificity < newSpecificity {
-			newRule := atoms.NewExpression(
-				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
-			)
-			tmp.Downvalues = append(
-				tmp.Downvalues[:i],
-				append(
-					[]expreduceapi.DownValue{expreduceapi.DownValue{
-						Rule:        newRule,
-						Specificity: newSpecificity,
-					}},
-					es.defined.GetDef(name).Downvalues[i:]...,
-				)...,
-			)
-			es.defined.Set(name, tmp)
-			return
+		if downvalues[i].Specificity < newSpecificity {
+			position = i
+			break
 		}
 	}
 	tmp.Downvalues = append(
-		tmp.Downvalues,
-		expreduceapi.DownValue{
-			Rule: atoms.NewExpression(
-				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
-			),
-		},
+		append(
+			append([]expreduceapi.DownValue{}, downvalues[:position]...),
+			expreduceapi.DownValue{
+				Rule:        newRule,
+				Specificity: newSpecificity,
+			},
+		),
+		downvalues[position:]...,
 	)
 	es.defined.Set(name, tmp)
 }
-- 
2.43.0


From 22845d9973be130b2be5b89938d9317c6d51d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 011/100] fix: ClearAll clears the symbols it is given, not
 their values, and Clear keeps attributes

---
 expreduce/evalstate.go       |     7 +-
 expreduce/resources.go       | 97582 +++++++++++++++++----------------
 expreduce/resources/system.m |    16 +-
 3 files changed, 48805 insertions(+), 48800 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 057b72f..4a2843f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -595,10 +595,11 @@ func (es *EvalState) ClearAll() {
 }
 
 func (es *EvalState) Clear(name string) {
-	_, ok := es.defined.Get(name)
+	def, ok := es.defined.Get(name)
 	if ok {
-		es.defined.Set(name, expreduceapi.Def{})
-		//delete(es.defined, name)
+		// The rules go. Attributes and built-in behaviour stay.
+		def.Downvalues = nil
+		es.defined.Set(name, def)
 	}
 }
 
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 14e799f..fb47566 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -5049,48018 +5049,48018 @@ func resourcesReplacementM() (*asset, error) {
 	return a, nil
 }
 
-var _resourcesRubi111LinearBinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.1.1 Linear Binomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.1.1 (a+b x)^m*)
-
-
-Int[1/x_,x_Symbol] :=
-  Log[x]
-
-
-Int[x_^m_.,x_Symbol] :=
-  x^(m+1)/(m+1) /;
-FreeQ[m,x] && NeQ[m,-1]
-
-
-Int[1/(a_+b_.*x_),x_Symbol] :=
-  Log[RemoveContent[a+b*x,x]]/b /;
-FreeQ[{a,b},x]
-
-
-Int[(a_.+b_.*x_)^m_,x_Symbol] :=
-  (a+b*x)^(m+1)/(b*(m+1)) /;
-FreeQ[{a,b,m},x] && NeQ[m,-1]
-
-
-Int[(a_.+b_.*u_)^m_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m,x],x,u] /;
-FreeQ[{a,b,m},x] && LinearQ[u,x] && NeQ[u-x,0]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.1.2 (a+b x)^m (c+d x)^n*)
-
-
-Int[1/((a_+b_.*x_)*(c_+d_.*x_)),x_Symbol] :=
-  Int[1/(a*c+b*d*x^2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(a+b*x),x] - d/(b*c-a*d)*Int[1/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && EqQ[m+n+2,0] && NeQ[m,-1]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
-  x*(a+b*x)^m*(c+d*x)^m/(2*m+1) + 2*a*c*m/(2*m+1)*Int[(a+b*x)^(m-1)*(c+d*x)^(m-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && PositiveIntegerQ[m+1/2]
-
-
-Int[1/((a_+b_.*x_)^(3/2)*(c_+d_.*x_)^(3/2)),x_Symbol] :=
-  x/(a*c*Sqrt[a+b*x]*Sqrt[c+d*x]) /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
-  -x*(a+b*x)^(m+1)*(c+d*x)^(m+1)/(2*a*c*(m+1)) + 
-  (2*m+3)/(2*a*c*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(m+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegativeIntegerQ[m+3/2]
-
-
-Int[(a_+b_.*x_)^m_.*(c_+d_.*x_)^m_.,x_Symbol] :=
-  Int[(a*c+b*d*x^2)^m,x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d,0] && (IntegerQ[m] || PositiveQ[a] && PositiveQ[c])
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  ArcCosh[b*x/a]/b /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && PositiveQ[a] && EqQ[a+c,0]
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  2*Subst[Int[1/(b-d*x^2),x],x,Sqrt[a+b*x]/Sqrt[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
-  (a+b*x)^FracPart[m]*(c+d*x)^FracPart[m]/(a*c+b*d*x^2)^FracPart[m]*Int[(a*c+b*d*x^2)^m,x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d,0] && Not[IntegerQ[2*m]]
-
-
-Int[1/((a_+b_.*x_)^(5/4)*(c_+d_.*x_)^(1/4)),x_Symbol] :=
-  -2/(b*(a+b*x)^(1/4)*(c+d*x)^(1/4)) + c*Int[1/((a+b*x)^(5/4)*(c+d*x)^(5/4)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegQ[a^2*b^2]
-
-
-Int[1/((a_+b_.*x_)^(9/4)*(c_+d_.*x_)^(1/4)),x_Symbol] :=
-  -4/(5*b*(a+b*x)^(5/4)*(c+d*x)^(1/4)) - d/(5*b)*Int[1/((a+b*x)^(5/4)*(c+d*x)^(5/4)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegQ[a^2*b^2]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+n+1)) + 
-  2*c*n/(m+n+1)*Int[(a+b*x)^m*(c+d*x)^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && 0<m<n
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  -(a+b*x)^(m+1)*(c+d*x)^(n+1)/(2*a*d*(m+1)) + 
-  (m+n+2)/(2*a*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && m<n<0
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && IGtQ[m,0] && 
-  (Not[IntegerQ[n]] || EqQ[c,0] && 7*m+4*n+4<=0 || 9*m+5*(n+1)<0 || m+n+2>0)
-
-
-Int[(a_+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && ILtQ[m,0] && IntegerQ[n] && Not[IGtQ[n,0] && m+n+2<0]
-
-
-Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
-  (c+d*x)^n/(b*n) + 
-  (b*c-a*d)/b*Int[(c+d*x)^(n-1)/(a+b*x),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n>0
-
-
-Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
-  -(c+d*x)^(n+1)/((n+1)*(b*c-a*d)) + 
-  b*(n+1)/((n+1)*(b*c-a*d))*Int[(c+d*x)^(n+1)/(a+b*x),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n<-1
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)),x_Symbol] :=
-  With[{q=Rt[(b*c-a*d)/b,3]},
-  -Log[RemoveContent[a+b*x,x]]/(2*b*q) - 
-  3/(2*b*q)*Subst[Int[1/(q-x),x],x,(c+d*x)^(1/3)] + 
-  3/(2*b)*Subst[Int[1/(q^2+q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
-FreeQ[{a,b,c,d},x] && PosQ[(b*c-a*d)/b]
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)),x_Symbol] :=
-  With[{q=Rt[-(b*c-a*d)/b,3]},
-  Log[RemoveContent[a+b*x,x]]/(2*b*q) - 
-  3/(2*b*q)*Subst[Int[1/(q+x),x],x,(c+d*x)^(1/3)] + 
-  3/(2*b)*Subst[Int[1/(q^2-q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
-FreeQ[{a,b,c,d},x] && NegQ[(b*c-a*d)/b]
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
-  With[{q=Rt[(b*c-a*d)/b,3]},
-  -Log[RemoveContent[a+b*x,x]]/(2*b*q^2) - 
-  3/(2*b*q^2)*Subst[Int[1/(q-x),x],x,(c+d*x)^(1/3)] - 
-  3/(2*b*q)*Subst[Int[1/(q^2+q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
-FreeQ[{a,b,c,d},x] && PosQ[(b*c-a*d)/b]
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
-  With[{q=Rt[-(b*c-a*d)/b,3]},
-  -Log[RemoveContent[a+b*x,x]]/(2*b*q^2) + 
-  3/(2*b*q^2)*Subst[Int[1/(q+x),x],x,(c+d*x)^(1/3)] + 
-  3/(2*b*q)*Subst[Int[1/(q^2-q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
-FreeQ[{a,b,c,d},x] && NegQ[(b*c-a*d)/b]
-
-
-Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
-  With[{p=Denominator[n]},
-  p*Subst[Int[x^(p*(n+1)-1)/(a*d-b*c+b*x^p),x],x,(c+d*x)^(1/p)]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && -1<n<0
-
-
-Int[(c_+d_.*x_)^n_/x_,x_Symbol] :=
-  -(c+d*x)^(n+1)/(c*(n+1))*Hypergeometric2F1[1,n+1,n+2,1+d*x/c] /;
-FreeQ[{c,d,n},x] && Not[IntegerQ[n]]
-
-
-Int[(c_.+d_.*x_)^n_/(a_+b_.*x_),x_Symbol] :=
-  -(c+d*x)^(n+1)/((n+1)*(b*c-a*d))*Hypergeometric2F1[1,n+1,n+2,TogetherSimplify[b*(c+d*x)/(b*c-a*d)]] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[n]]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+1)) - 
-  d*n/(b*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && m<-1 && n>0 && Not[IntegerQ[n] && Not[IntegerQ[m]]] && 
-  Not[IntegerQ[m+n] && m+n+2<=0 && (FractionQ[m] || 2*n+m+1>=0)] && IntLinearcQ[a,b,c,d,m,n,x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) - 
-  d*(m+n+2)/((b*c-a*d)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && m<-1 && 
-  Not[n<-1 && (EqQ[a,0] || NeQ[c,0] && m<n && IntegerQ[n])] && IntLinearcQ[a,b,c,d,m,n,x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+n+1)) + 
-  n*(b*c-a*d)/(b*(m+n+1))*Int[(a+b*x)^m*(c+d*x)^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && n>0 && m+n+1!=0 && 
-  Not[PositiveIntegerQ[m] && (Not[IntegerQ[n]] || 0<m<n)] && 
-  Not[IntegerQ[m+n] && m+n+2<0] && IntLinearcQ[a,b,c,d,m,n,x]
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  Int[1/Sqrt[a*c-b*(a-c)*x-b^2*x^2],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b+d,0] && PositiveQ[a+c]
-
-
-Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  2/Sqrt[b]*Subst[Int[1/Sqrt[b*c-a*d+d*x^2],x],x,Sqrt[a+b*x]] /;
-FreeQ[{a,b,c,d},x] && PositiveQ[b*c-a*d] && PositiveQ[b]
-
-
-Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  2/b*Subst[Int[1/Sqrt[c-a+x^2],x],x,Sqrt[a+b*x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b-d,0]
-
-
-Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  2*Subst[Int[1/(b-d*x^2),x],x,Sqrt[a+b*x]/Sqrt[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[(a_.+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
-  (a+b*x)^m*(c+d*x)^m/(a*c+(b*c+a*d)*x+b*d*x^2)^m*Int[(a*c+(b*c+a*d)*x+b*d*x^2)^m,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m] && -1<m<0 && 3<=Denominator[m]<=4
-
-
-Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
-  With[{q=Rt[d/b,3]},
-  -Sqrt[3]*q/d*ArcTan[2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))+1/Sqrt[3]] - 
-  q/(2*d)*Log[c+d*x] - 
-  3*q/(2*d)*Log[q*(a+b*x)^(1/3)/(c+d*x)^(1/3)-1]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PosQ[d/b]
-
-
-Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
-  With[{q=Rt[-d/b,3]},
-  Sqrt[3]*q/d*ArcTan[1/Sqrt[3]-2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))] + 
-  q/(2*d)*Log[c+d*x] + 
-  3*q/(2*d)*Log[q*(a+b*x)^(1/3)/(c+d*x)^(1/3)+1]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && NegQ[d/b]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  With[{p=Denominator[m]},
-  p*Subst[Int[x^(p*(m+1)-1)/(b-d*x^p),x],x,(a+b*x)^(1/p)/(c+d*x)^(1/p)]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && -1<m<0 && m+n+1==0
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  With[{p=Denominator[m]},
-  p/b*Subst[Int[x^(p*(m+1)-1)*(c-a*d/b+d*x^p/b)^n,x],x,(a+b*x)^(1/p)]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && -1<m<0 && -1<n<0 && Denominator[n]<=Denominator[m] && 
-  IntLinearcQ[a,b,c,d,m,n,x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) - 
-  d*Simplify[m+n+2]/((b*c-a*d)*(m+1))*Int[(a+b*x)^Simplify[m+1]*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && NegativeIntegerQ[Simplify[m+n+2]] && NeQ[m,-1] && 
-  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  c^n*(b*x)^(m+1)/(b*(m+1))*Hypergeometric2F1[-n,m+1,m+2,-d*x/c] /;
-FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && (IntegerQ[n] || PositiveQ[c] && Not[EqQ[n,-1/2] && EqQ[c^2-d^2,0] && PositiveQ[-d/(b*c)]])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (c+d*x)^(n+1)/(d*(n+1)*(-d/(b*c))^m)*Hypergeometric2F1[-m,n+1,n+2,1+d*x/c] /;
-FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[n]] && (IntegerQ[m] || PositiveQ[-d/(b*c)])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c+d*x)^FracPart[n]/(1+d*x/c)^FracPart[n]*Int[(b*x)^m*(1+d*x/c)^n,x] /;
-FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]] && Not[PositiveQ[-d/(b*c)]] && 
-  (RationalQ[m] && Not[EqQ[n,-1/2] && EqQ[c^2-d^2,0]] || Not[RationalQ[n]])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (-b*c/d)^IntPart[m]*(b*x)^FracPart[m]/(-d*x/c)^FracPart[m]*Int[(-d*x/c)^m*(c+d*x)^n,x] /;
-FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]] && Not[PositiveQ[-d/(b*c)]]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (b*c-a*d)^n*(a+b*x)^(m+1)/(b^(n+1)*(m+1))*Hypergeometric2F1[-n,m+1,m+2,-d*(a+b*x)/(b*c-a*d)] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && IntegerQ[n]
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (a+b*x)^(m+1)/(b*(m+1)*(b/(b*c-a*d))^n)*Hypergeometric2F1[-n,m+1,m+2,-d*(a+b*x)/(b*c-a*d)] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[b/(b*c-a*d)] && 
-  (RationalQ[m] || Not[RationalQ[n] && PositiveQ[-d/(b*c-a*d)]])
-
-
-Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
-  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
-    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n,x] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && (RationalQ[m] || Not[SimplerQ[n+1,m+1]])
-
-
-Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,u] /;
-FreeQ[{a,b,c,d,m,n},x] && LinearQ[u,x] && NeQ[Coefficient[u,x,0],0]
-
-
-(* IntLinearcQ[a,b,c,d,m,n,x] returns True iff (a+b*x)^m*(c+d*x)^n is integrable wrt x in terms of non-hypergeometric functions. *)
-IntLinearcQ[a_,b_,c_,d_,m_,n_,x_] :=
-  IntegerQ[m] || IntegerQ[n] || IntegersQ[3*m,3*n] || IntegersQ[4*m,4*n] || IntegersQ[2*m,6*n] || IntegersQ[6*m,2*n] || IntegerQ[m+n]
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.1.3 (a+b x)^m (c+d x)^n (e+f x)^p*)
-
-
-Int[(a_+b_.*x_)^m_.*(c_+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  Int[(a*c+b*d*x^2)^m*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0] && IntegerQ[m]
-
-
-Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+2)) /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0] && EqQ[a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)),0]
-
-
-Int[(a_+b_.*x_)*(d_.*x_)^n_.*(e_+f_.*x_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)*(d*x)^n*(e+f*x)^p,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && IGtQ[p,0] && EqQ[b*e+a*f,0] && Not[NegativeIntegerQ[n+p+2] && n+2*p>0]
-
-
-Int[(a_+b_.*x_)*(d_.*x_)^n_.*(e_+f_.*x_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)*(d*x)^n*(e+f*x)^p,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && IGtQ[p,0] && (NeQ[n,-1] || EqQ[p,1]) && NeQ[b*e+a*f,0] &&
-  (Not[IntegerQ[n]] || 9*p+5*n<0 || n+p+1>=0 || n+p+2>=0 && RationalQ[a,b,d,e,f]) && (NeQ[n+p+3,0] || EqQ[p,1])
-
-
-Int[(a_.+b_.*x_)*(c_+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)*(c+d*x)^n*(e+f*x)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d,0] && 
-  (NegativeIntegerQ[n,p] || EqQ[p,1] || 
-    IGtQ[p,0] && (Not[IntegerQ[n]] || 9*p+5*(n+2)<=0 || n+p+1>=0 || n+p+2>=0 && RationalQ[a,b,c,d,e,f]))
-
-
-Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  -(b*e-a*f)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(f*(p+1)*(c*f-d*e)) - 
-  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(f*(p+1)*(c*f-d*e))*Int[(c+d*x)^n*(e+f*x)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && LtQ[p,-1] && 
-  (Not[LtQ[n,-1]] || IntegerQ[p] || Not[IntegerQ[n] || Not[EqQ[e,0] || Not[EqQ[c,0] || p<n]]])
-
-
-Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  -(b*e-a*f)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(f*(p+1)*(c*f-d*e)) - 
-  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(f*(p+1)*(c*f-d*e))*Int[(c+d*x)^n*(e+f*x)^Simplify[p+1],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && Not[RationalQ[p]] && SumSimplerQ[p,1]
-
-
-Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+2)) + 
-  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(d*f*(n+p+2))*Int[(c+d*x)^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0]
-
-
-Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)*(2*a*d*f*(n+p+3)-b*(d*e*(n+2)+c*f*(p+2))+b*d*f*(n+p+2)*x)/(d^2*f^2*(n+p+2)*(n+p+3)) /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0] && NeQ[n+p+3,0] && 
-  EqQ[d*f*(n+p+2)*(a^2*d*f*(n+p+3)-b*(b*c*e+a*(d*e*(n+1)+c*f*(p+1))))-b*(d*e*(n+1)+c*f*(p+1))*(a*d*f*(n+p+4)-b*(d*e*(n+2)+c*f*(p+2))),0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
-   a*Int[(a+b*x)^n*(c+d*x)^n*(f*x)^p,x] + b/f*Int[(a+b*x)^n*(c+d*x)^n*(f*x)^(p+1),x] /;
-FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n-1,0] && Not[RationalQ[p]] && Not[PositiveIntegerQ[m]] && NeQ[m+n+p+2,0]
-
-
-Int[(e_.+f_.*x_)^p_./((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  Int[ExpandIntegrand[(e+f*x)^p/((a+b*x)*(c+d*x)),x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && IntegerQ[p]
-
-
-Int[(e_.+f_.*x_)^p_./((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)/(a+b*x),x] - 
-  (d*e-c*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && 0<p<1
-
-
-Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  f*(e+f*x)^(p-1)/(b*d*(p-1)) + 
- 1/(b*d)*Int[(b*d*e^2-a*c*f^2+f*(2*b*d*e-b*c*f-a*d*f)*x)*(e+f*x)^(p-2)/((a+b*x)*(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && p>1
-
-
-Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  f*(e+f*x)^(p+1)/((p+1)*(b*e-a*f)*(d*e-c*f)) + 
-  1/((b*e-a*f)*(d*e-c*f))*Int[(b*d*e-b*c*f-a*d*f-b*d*f*x)*(e+f*x)^(p+1)/((a+b*x)*(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && p<-1
-
-
-Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  b/(b*c-a*d)*Int[(e+f*x)^p/(a+b*x),x] - 
-  d/(b*c-a*d)*Int[(e+f*x)^p/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && Not[IntegerQ[p]]
-
-
-Int[(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_/(a_.+b_.*x_),x_Symbol] :=
-  Int[ExpandIntegrand[(e+f*x)^FractionalPart[p],(c+d*x)^n*(e+f*x)^IntegerPart[p]/(a+b*x),x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[n] && FractionQ[p] && p<-1
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && IntegersQ[m,n] && (IntegerQ[p] || m>0 && n>=-1)
-
-
-Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (b*c-a*d)^2*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d^2*(d*e-c*f)*(n+1)) - 
-  1/(d^2*(d*e-c*f)*(n+1))*Int[(c+d*x)^(n+1)*(e+f*x)^p*
-    Simp[a^2*d^2*f*(n+p+2)+b^2*c*(d*e*(n+1)+c*f*(p+1))-2*a*b*d*(d*e*(n+1)+c*f*(p+1))-b^2*d*(d*e-c*f)*(n+1)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && (RationalQ[n] && n<-1 || EqQ[n+p+3,0] && NeQ[n,-1] && (SumSimplerQ[n,1] || Not[SumSimplerQ[p,1]]))
-
-
-Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+3)) + 
-  1/(d*f*(n+p+3))*Int[(c+d*x)^n*(e+f*x)^p*
-    Simp[a^2*d*f*(n+p+3)-b*(b*c*e+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(n+p+4)-b*(d*e*(n+2)+c*f*(p+2)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+3,0]
-
-
-Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)*(e_.+f_.*x_)),x_Symbol] :=
-  With[{q=Rt[(d*e-c*f)/(b*e-a*f),3]},
-  -Sqrt[3]*q*ArcTan[1/Sqrt[3]+2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))]/(d*e-c*f) + 
-  q*Log[e+f*x]/(2*(d*e-c*f)) - 
-  3*q*Log[q*(a+b*x)^(1/3)-(c+d*x)^(1/3)]/(2*(d*e-c*f))] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)),x_Symbol] :=
-  b*f*Subst[Int[1/(d*(b*e-a*f)^2+b*f^2*x^2),x],x,Sqrt[a+b*x]*Sqrt[c+d*x]] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-f*(b*c+a*d),0]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_/(e_.+f_.*x_),x_Symbol] :=
-  With[{q=Denominator[m]},
-  q*Subst[Int[x^(q*(m+1)-1)/(b*e-a*f-(d*e-c*f)*x^q),x],x,(a+b*x)^(1/q)/(c+d*x)^(1/q)]] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[m+n+1,0] && RationalQ[m,n] && -1<m<0 && SimplerQ[a+b*x,c+d*x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((m+1)*(b*e-a*f)) - 
-  n*(d*e-c*f)/((m+1)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[m+n+p+2,0] && RationalQ[n] && n>0 && Not[SumSimplerQ[p,1] && Not[SumSimplerQ[m,1]]]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[Simplify[m+n+p+3],0] && EqQ[a*d*f*(m+1)+b*c*f*(n+1)+b*d*e*(p+1),0] && NeQ[m,-1]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  (a*d*f*(m+1)+b*c*f*(n+1)+b*d*e*(p+1))/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[Simplify[m+n+p+3],0] && (RationalQ[m] && m<-1 || SumSimplerQ[m,1])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p/(b*(m+1)) - 
-  1/(b*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^(p-1)*Simp[d*e*n+c*f*p+d*f*(n+p)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (b*c-a*d)*(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) + 
-  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-2)*(e+f*x)^p*
-    Simp[a*d*(d*e*(n-1)+c*f*(p+1))+b*c*(d*e*(m-n+2)-c*f*(m+p+2))+d*(a*d*f*(n+p)+b*(d*e*(m+1)-c*f*(m+n+p+1)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && RationalQ[m,n,p] && m<-1 && n>1 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((m+1)*(b*e-a*f)) - 
-  1/((m+1)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
-    Simp[d*e*n+c*f*(m+p+2)+d*f*(m+n+p+2)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && RationalQ[m,n,p] && m<-1 && n>0 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m-1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+1)) + 
-  1/(d*f*(m+n+p+1))*Int[(a+b*x)^(m-2)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a^2*d*f*(m+n+p+1)-b*(b*c*e*(m-1)+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(2*m+n+p)-b*(d*e*(m+n)+c*f*(m+p)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>1 && NeQ[m+n+p+1,0] && IntegerQ[m]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  (a+b*x)^m*(c+d*x)^n*(e+f*x)^(p+1)/(f*(m+n+p+1)) - 
-  1/(f*(m+n+p+1))*Int[(a+b*x)^(m-1)*(c+d*x)^(n-1)*(e+f*x)^p*
-    Simp[c*m*(b*e-a*f)+a*n*(d*e-c*f)+(d*m*(b*e-a*f)+b*n*(d*e-c*f))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[m,n,p] && m>0 && n>0 && NeQ[m+n+p+1,0] && 
-  (IntegersQ[2*m,2*n,2*p] || (IntegersQ[m,n+p] || IntegersQ[p,m+n]))
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m-1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+1)) + 
-  1/(d*f*(m+n+p+1))*Int[(a+b*x)^(m-2)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a^2*d*f*(m+n+p+1)-b*(b*c*e*(m-1)+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(2*m+n+p)-b*(d*e*(m+n)+c*f*(m+p)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>1 && NeQ[m+n+p+1,0] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m<-1 && IntegerQ[m] && (IntegerQ[n] || IntegersQ[2*n,2*p])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_/(e_.+f_.*x_),x_Symbol] :=
-  b/f*Int[(a+b*x)^(m-1)*(c+d*x)^n,x] - (b*e-a*f)/f*Int[(a+b*x)^(m-1)*(c+d*x)^n/(e+f*x),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[Simplify[m+n+1]] && 
-  (RationalQ[m] && m>0 || Not[RationalQ[m]] && (SumSimplerQ[m,-1] || Not[SumSimplerQ[n,-1]]))
-
-
-(* Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  b/f*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^(p+1),x] - (b*e-a*f)/f*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NegativeIntegerQ[p] && PositiveIntegerQ[m+n+p+2] && Not[SimplerQ[c+d*x,a+b*x]] *)
-
-
-Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(1/4)),x_Symbol] :=
-  -4*Subst[Int[x^2/((b*e-a*f-b*x^4)*Sqrt[c-d*e/f+d*x^4/f]),x],x,(e+f*x)^(1/4)] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[-f/(d*e-c*f)]
-
-
-Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(1/4)),x_Symbol] :=
-  Sqrt[-f*(c+d*x)/(d*e-c*f)]/Sqrt[c+d*x]*Int[1/((a+b*x)*Sqrt[-c*f/(d*e-c*f)-d*f*x/(d*e-c*f)]*(e+f*x)^(1/4)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[-f/(d*e-c*f)]]
-
-
-Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(3/4)),x_Symbol] :=
-  -4*Subst[Int[1/((b*e-a*f-b*x^4)*Sqrt[c-d*e/f+d*x^4/f]),x],x,(e+f*x)^(1/4)] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[-f/(d*e-c*f)]
-
-
-Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(3/4)),x_Symbol] :=
-  Sqrt[-f*(c+d*x)/(d*e-c*f)]/Sqrt[c+d*x]*Int[1/((a+b*x)*Sqrt[-c*f/(d*e-c*f)-d*f*x/(d*e-c*f)]*(e+f*x)^(3/4)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[-f/(d*e-c*f)]]
-
-
-Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  2*Sqrt[e]/b*Rt[-b/d,2]*EllipticE[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && PositiveQ[c] && PositiveQ[e] && Not[NegativeQ[-b/d]]
-
-
-Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  Sqrt[-b*x]/Sqrt[b*x]*Int[Sqrt[e+f*x]/(Sqrt[-b*x]*Sqrt[c+d*x]),x] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && PositiveQ[c] && PositiveQ[e] && NegativeQ[-b/d]
-
-
-Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  Sqrt[e+f*x]*Sqrt[1+d*x/c]/(Sqrt[c+d*x]*Sqrt[1+f*x/e])*Int[Sqrt[1+f*x/e]/(Sqrt[b*x]*Sqrt[1+d*x/c]),x] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && Not[PositiveQ[c] && PositiveQ[e]]
-
-
-(* Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  f/b*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*Sqrt[e+f*x]),x] - 
-  f/b*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*e-f*(a-1),0] *)
-
-
-(* Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[(b*e-a*f)/(b*c-a*d)]*
-    EllipticE[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && Not[NegativeQ[-(b*c-a*d)/d]] && 
-  Not[SimplerQ[c+d*x,a+b*x] && PositiveQ[-d/(b*c-a*d)] && PositiveQ[d/(d*e-c*f)] && Not[NegativeQ[(b*c-a*d)/b]]] *)
-
-
-Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  2/b*Rt[-(b*e-a*f)/d,2]*EllipticE[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && Not[NegativeQ[-(b*c-a*d)/d]] && 
-  Not[SimplerQ[c+d*x,a+b*x] && PositiveQ[-d/(b*c-a*d)] && PositiveQ[d/(d*e-c*f)] && Not[NegativeQ[(b*c-a*d)/b]]]
-
-
-Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
-  Sqrt[e+f*x]*Sqrt[b*(c+d*x)/(b*c-a*d)]/(Sqrt[c+d*x]*Sqrt[b*(e+f*x)/(b*e-a*f)])*
-    Int[Sqrt[b*e/(b*e-a*f)+b*f*x/(b*e-a*f)]/(Sqrt[a+b*x]*Sqrt[b*c/(b*c-a*d)+b*d*x/(b*c-a*d)]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)]] && Not[NegativeQ[-(b*c-a*d)/d]]
-
-
-Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  2/(b*Sqrt[e])*Rt[-b/d,2]*EllipticF[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
-FreeQ[{b,c,d,e,f},x] && PositiveQ[c] && PositiveQ[e] && (PositiveQ[-b/d] || NegativeQ[-b/f])
-
-
-Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  2/(b*Sqrt[e])*Rt[-b/d,2]*EllipticF[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
-FreeQ[{b,c,d,e,f},x] && PositiveQ[c] && PositiveQ[e] && (PosQ[-b/d] || NegQ[-b/f])
-
-
-Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  Sqrt[1+d*x/c]*Sqrt[1+f*x/e]/(Sqrt[c+d*x]*Sqrt[e+f*x])*Int[1/(Sqrt[b*x]*Sqrt[1+d*x/c]*Sqrt[1+f*x/e]),x] /;
-FreeQ[{b,c,d,e,f},x] && Not[PositiveQ[c] && PositiveQ[e]]
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[b^2/((b*c-a*d)*(b*e-a*f))]*
-    EllipticF[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x] && 
-  (PositiveQ[-(b*c-a*d)/d] || NegativeQ[-(b*e-a*f)/f])
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[b^2/((b*c-a*d)*(b*e-a*f))]*
-    EllipticF[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x] && 
-  (PosQ[-(b*c-a*d)/d] || NegQ[-(b*e-a*f)/f])
-
-
-Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  Sqrt[b*(c+d*x)/(b*c-a*d)]*Sqrt[b*(e+f*x)/(b*e-a*f)]/(Sqrt[c+d*x]*Sqrt[e+f*x])*
-    Int[1/(Sqrt[a+b*x]*Sqrt[b*c/(b*c-a*d)+b*d*x/(b*c-a*d)]*Sqrt[b*e/(b*e-a*f)+b*f*x/(b*e-a*f)]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)]] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x]
-
-
-Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)*(e_.+f_.*x_)^(1/3)),x_Symbol] :=
-  With[{q=Rt[b*(b*e-a*f)/(b*c-a*d)^2,3]},
-  -Log[a+b*x]/(2*q*(b*c-a*d)) - 
-  Sqrt[3]*ArcTan[1/Sqrt[3]+2*q*(c+d*x)^(2/3)/(Sqrt[3]*(e+f*x)^(1/3))]/(2*q*(b*c-a*d)) + 
-  3*Log[q*(c+d*x)^(2/3)-(e+f*x)^(1/3)]/(4*q*(b*c-a*d))] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-b*c*f-a*d*f,0]
-
-
-Int[(a_.+b_.*x_)^m_/((c_.+d_.*x_)^(1/3)*(e_.+f_.*x_)^(1/3)),x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(2/3)*(e+f*x)^(2/3)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  f/(6*(m+1)*(b*c-a*d)*(b*e-a*f))*
-    Int[(a+b*x)^(m+1)*(a*d*(3*m+1)-3*b*c*(3*m+5)-2*b*d*(3*m+7)*x)/((c+d*x)^(1/3)*(e+f*x)^(1/3)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-b*c*f-a*d*f,0] && IntegerQ[m] && m<-1
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
-  Int[(a*c+b*d*x^2)^m*(f*x)^p,x] /;
-FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0] && PositiveQ[a] && PositiveQ[c]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
-  (a+b*x)^FracPart[m]*(c+d*x)^FracPart[m]/(a*c+b*d*x^2)^FracPart[m]*Int[(a*c+b*d*x^2)^m*(f*x)^p,x] /;
-FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
-   Int[ExpandIntegrand[(a+b*x)^n*(c+d*x)^n*(f*x)^p,(a+b*x)^(m-n),x],x] /;
-FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && PositiveIntegerQ[m-n] && NeQ[m+n+p+2,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && (PositiveIntegerQ[m] || NegativeIntegerQ[m,n])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
-  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && NegativeIntegerQ[m+n+p+2] && NeQ[m,-1] && 
-  (SumSimplerQ[m,1] || Not[NeQ[n,-1] && SumSimplerQ[n,1]] && Not[NeQ[p,-1] && SumSimplerQ[p,1]])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (b*c-a*d)^n*(a+b*x)^(m+1)/((m+1)*(b*e-a*f)^(n+1)*(e+f*x)^(m+1))*
-    Hypergeometric2F1[m+1,-n,m+2,-(d*e-c*f)*(a+b*x)/((b*c-a*d)*(e+f*x))] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[m+n+p+2,0] && NegativeIntegerQ[n]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((b*e-a*f)*(m+1))*((b*e-a*f)*(c+d*x)/((b*c-a*d)*(e+f*x)))^(-n)*
-    Hypergeometric2F1[m+1,-n,m+2,-(d*e-c*f)*(a+b*x)/((b*c-a*d)*(e+f*x))] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[m+n+p+2,0] && Not[IntegerQ[n]]
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
-  c^n*e^p*(b*x)^(m+1)/(b*(m+1))*AppellF1[m+1,-n,-p,m+2,-d*x/c,-f*x/e] /;
-FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[c] && (IntegerQ[p] || PositiveQ[e])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
-  (c+d*x)^(n+1)/(d*(n+1)*(-d/(b*c))^m*(d/(d*e-c*f))^p)*AppellF1[n+1,-m,-p,n+2,1+d*x/c,-f*(c+d*x)/(d*e-c*f)] /;
-FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[-d/(b*c)] && (IntegerQ[p] || PositiveQ[d/(d*e-c*f)])
-
-
-Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
-  c^IntPart[n]*(c+d*x)^FracPart[n]/(1+d*x/c)^FracPart[n]*Int[(b*x)^m*(1+d*x/c)^n*(e+f*x)^p,x] /;
-FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]]
-
-
-Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (b*e-a*f)^p*(a+b*x)^(m+1)/(b^(p+1)*(m+1)*(b/(b*c-a*d))^n)*
-    AppellF1[m+1,-n,-p,m+2,-d*(a+b*x)/(b*c-a*d),-f*(a+b*x)/(b*e-a*f)] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[p] && PositiveQ[b/(b*c-a*d)] && 
-  Not[PositiveQ[d/(d*a-c*b)] && SimplerQ[c+d*x,a+b*x]]
-
-
-Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
-    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[p] && Not[PositiveQ[b/(b*c-a*d)]] && 
-  Not[SimplerQ[c+d*x,a+b*x]]
-
-
-Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (a+b*x)^(m+1)/(b*(m+1)*(b/(b*c-a*d))^n*(b/(b*e-a*f))^p)*AppellF1[m+1,-n,-p,m+2,-d*(a+b*x)/(b*c-a*d),-f*(a+b*x)/(b*e-a*f)] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && 
-  PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && 
-  Not[PositiveQ[d/(d*a-c*b)] && PositiveQ[d/(d*e-c*f)] && SimplerQ[c+d*x,a+b*x]] && 
-  Not[PositiveQ[f/(f*a-e*b)] && PositiveQ[f/(f*c-e*d)] && SimplerQ[e+f*x,a+b*x]]
-
-
-Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (e+f*x)^FracPart[p]/((b/(b*e-a*f))^IntPart[p]*(b*(e+f*x)/(b*e-a*f))^FracPart[p])*
-    Int[(a+b*x)^m*(c+d*x)^n*(b*e/(b*e-a*f)+b*f*x/(b*e-a*f))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && 
-  PositiveQ[b/(b*c-a*d)] && Not[PositiveQ[b/(b*e-a*f)]]
-
-
-Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
-  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
-    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && Not[PositiveQ[b/(b*c-a*d)]] && 
-  Not[SimplerQ[c+d*x,a+b*x]] && Not[SimplerQ[e+f*x,a+b*x]]
-
-
-Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.*(e_+f_.*u_)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && LinearQ[u,x] && NeQ[u-x,0]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.1.4 (a+b x)^m (c+d x)^n (e+f x)^p (g+h x)^q*)
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)*(g+h*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && (PositiveIntegerQ[m] || IntegersQ[m,n])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  (b^2*d*e*g-a^2*d*f*h*m-a*b*(d*(f*g+e*h)-c*f*h*(m+1))+b*f*h*(b*c-a*d)*(m+1)*x)*(a+b*x)^(m+1)*(c+d*x)^(n+1)/
-    (b^2*d*(b*c-a*d)*(m+1)) + 
-  (a*d*f*h*m+b*(d*(f*g+e*h)-c*f*h*(m+2)))/(b^2*d)*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[m+n+2,0] && NeQ[m,-1] && Not[SumSimplerQ[n,1] && Not[SumSimplerQ[m,1]]]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  (b^2*c*d*e*g*(n+1)+a^2*c*d*f*h*(n+1)+a*b*(d^2*e*g*(m+1)+c^2*f*h*(m+1)-c*d*(f*g+e*h)*(m+n+2))+
-      (a^2*d^2*f*h*(n+1)-a*b*d^2*(f*g+e*h)*(n+1)+b^2*(c^2*f*h*(m+1)-c*d*(f*g+e*h)*(m+1)+d^2*e*g*(m+n+2)))*x)/
-    (b*d*(b*c-a*d)^2*(m+1)*(n+1))*(a+b*x)^(m+1)*(c+d*x)^(n+1) - 
-  (a^2*d^2*f*h*(2+3*n+n^2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
-      b^2*(c^2*f*h*(2+3*m+m^2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(6+m^2+5*n+n^2+m*(2*n+5))))/
-    (b*d*(b*c-a*d)^2*(m+1)*(n+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && RationalQ[m,n] && m<-1 && n<-1
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  (b^3*c*e*g*(m+2)-a^3*d*f*h*(n+2)-a^2*b*(c*f*h*m-d*(f*g+e*h)*(m+n+3))-a*b^2*(c*(f*g+e*h)+d*e*g*(2*m+n+4))+
-      b*(a^2*d*f*h*(m-n)-a*b*(2*c*f*h*(m+1)-d*(f*g+e*h)*(n+1))+b^2*(c*(f*g+e*h)*(m+1)-d*e*g*(m+n+2)))*x)/
-    (b^2*(b*c-a*d)^2*(m+1)*(m+2))*(a+b*x)^(m+1)*(c+d*x)^(n+1) + 
-  (f*h/b^2-(d*(m+n+3)*(a^2*d*f*h*(m-n)-a*b*(2*c*f*h*(m+1)-d*(f*g+e*h)*(n+1))+b^2*(c*(f*g+e*h)*(m+1)-d*e*g*(m+n+2))))/
-      (b^2*(b*c-a*d)^2*(m+1)*(m+2)))*
-    Int[(a+b*x)^(m+2)*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && (RationalQ[m] && m<-2 || EqQ[m+n+3,0] && Not[RationalQ[n] && n<-2])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  (a^2*d*f*h*(n+2)+b^2*d*e*g*(m+n+3)+a*b*(c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+b*f*h*(b*c-a*d)*(m+1)*x)/
-    (b^2*d*(b*c-a*d)*(m+1)*(m+n+3))*(a+b*x)^(m+1)*(c+d*x)^(n+1) - 
-  (a^2*d^2*f*h*(n+1)*(n+2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
-      b^2*(c^2*f*h*(m+1)*(m+2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(m+n+2)*(m+n+3)))/
-    (b^2*d*(b*c-a*d)*(m+1)*(m+n+3))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && (RationalQ[m] && -2<=m<-1 || SumSimplerQ[m,1]) && NeQ[m,-1] && NeQ[m+n+3,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
-  -(a*d*f*h*(n+2)+b*c*f*h*(m+2)-b*d*(f*g+e*h)*(m+n+3)-b*d*f*h*(m+n+2)*x)*(a+b*x)^(m+1)*(c+d*x)^(n+1)/
-    (b^2*d^2*(m+n+2)*(m+n+3)) + 
-  (a^2*d^2*f*h*(n+1)*(n+2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
-      b^2*(c^2*f*h*(m+1)*(m+2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(m+n+2)*(m+n+3)))/
-    (b^2*d^2*(m+n+2)*(m+n+3))*Int[(a+b*x)^m*(c+d*x)^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && NeQ[m+n+2,0] && NeQ[m+n+3,0]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m},x] && (IntegersQ[m,n,p] || PositiveIntegerQ[n,p])
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) - 
-  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
-    Simp[b*c*(f*g-e*h)*(m+1)+(b*g-a*h)*(d*e*n+c*f*(p+1))+d*(b*(f*g-e*h)*(m+1)+f*(b*g-a*h)*(n+p+1))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p},x] && RationalQ[m,n] && m<-1 && n>0 && IntegerQ[m]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) - 
-  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
-    Simp[b*c*(f*g-e*h)*(m+1)+(b*g-a*h)*(d*e*n+c*f*(p+1))+d*(b*(f*g-e*h)*(m+1)+f*(b*g-a*h)*(n+p+1))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p},x] && RationalQ[m,n] && m<-1 && n>0 && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m<-1 && IntegerQ[m]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  h*(a+b*x)^m*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+2)) + 
-  1/(d*f*(m+n+p+2))*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a*d*f*g*(m+n+p+2)-h*(b*c*e*m+a*(d*e*(n+1)+c*f*(p+1)))+(b*d*f*g*(m+n+p+2)+h*(a*d*f*m-b*(d*e*(m+n+1)+c*f*(m+p+1))))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m>0 && NeQ[m+n+p+2,0] && IntegerQ[m]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  h*(a+b*x)^m*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+2)) + 
-  1/(d*f*(m+n+p+2))*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[a*d*f*g*(m+n+p+2)-h*(b*c*e*m+a*(d*e*(n+1)+c*f*(p+1)))+(b*d*f*g*(m+n+p+2)+h*(a*d*f*m-b*(d*e*(m+n+1)+c*f*(m+p+1))))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m>0 && NeQ[m+n+p+2,0] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
-  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
-    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && NegativeIntegerQ[m+n+p+2] && NeQ[m,-1] && 
-  (SumSimplerQ[m,1] || Not[NeQ[n,-1] && SumSimplerQ[n,1]] && Not[NeQ[p,-1] && SumSimplerQ[p,1]])
-
-
-Int[(e_.+f_.*x_)^p_*(g_.+h_.*x_)/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  (b*g-a*h)/(b*c-a*d)*Int[(e+f*x)^p/(a+b*x),x] - 
-  (d*g-c*h)/(b*c-a*d)*Int[(e+f*x)^p/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)/(a_.+b_.*x_),x_Symbol] :=
-  h/b*Int[(c+d*x)^n*(e+f*x)^p,x] + (b*g-a*h)/b*Int[(c+d*x)^n*(e+f*x)^p/(a+b*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p},x]
-
-
-Int[(g_.+h_.*x_)/(Sqrt[a_.+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
-  h/f*Int[Sqrt[e+f*x]/(Sqrt[a+b*x]*Sqrt[c+d*x]),x] + (f*g-e*h)/f*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && SimplerQ[a+b*x,e+f*x] && SimplerQ[c+d*x,e+f*x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
-  h/b*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p,x] + (b*g-a*h)/b*Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]] && Not[SumSimplerQ[p,1]])
-
-
-Int[(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)*(g+h*x)^q/(a+b*x),x] - 
-  (d*e-c*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)*(g+h*x)^q/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,q},x] && RationalQ[p] && 0<p<1
-
-
-Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  -2*Sqrt[d*(e+f*x)/(d*e-c*f)]*Sqrt[d*(g+h*x)/(d*g-c*h)]/((b*c-a*d)*Sqrt[-f/(d*e-c*f)]*Sqrt[e+f*x]*Sqrt[g+h*x])*
-    EllipticPi[-b*(d*e-c*f)/(f*(b*c-a*d)),ArcSin[Sqrt[-f/(d*e-c*f)]*Sqrt[c+d*x]],h*(d*e-c*f)/(f*(d*g-c*h))] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[(c_.+d_.*x_)^n_/((a_.+b_.*x_)*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  Int[ExpandIntegrand[1/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),(c+d*x)^(n+1/2)/(a+b*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && IntegerQ[n+1/2]
-
-
-Int[Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  (b*e-a*f)*(b*g-a*h)/b^2*Int[1/((a+b*x)*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
-  1/b^2*Int[(b*f*g+b*e*h-a*f*h+b*f*h*x)/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  -2*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/
-    ((b*g-a*h)*Sqrt[c+d*x]*Sqrt[e+f*x])*
-    Subst[Int[1/(Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]*Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)]),x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[Sqrt[c_.+d_.*x_]/((a_.+b_.*x_)^(3/2)*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  -2*(d*g-c*h)*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*
-    Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/((b*g-a*h)^2*Sqrt[c+d*x]*Sqrt[e+f*x])*
-    Subst[Int[Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]/Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)],x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[Sqrt[a_.+b_.*x_]/(Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  2*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/(Sqrt[c+d*x]*Sqrt[e+f*x])*
-    Subst[Int[1/((h-b*x^2)*Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]*Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)]),x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[1/((a_.+b_.*x_)^(3/2)*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  -d/(b*c-a*d)*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
-  b/(b*c-a*d)*Int[Sqrt[c+d*x]/((a+b*x)^(3/2)*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]/(Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[g+h*x]/(h*Sqrt[e+f*x]) + 
-  (d*e-c*f)*(b*f*g+b*e*h-2*a*f*h)/(2*f^2*h)*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
-  (a*d*f*h-b*(d*f*g+d*e*h-c*f*h))/(2*f^2*h)*Int[Sqrt[e+f*x]/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[g+h*x]),x] - 
-  (d*e-c*f)*(f*g-e*h)/(2*f*h)*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*(e+f*x)^(3/2)*Sqrt[g+h*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[(a_.+b_.*x_)^(3/2)/(Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
-  b/d*Int[Sqrt[a+b*x]*Sqrt[c+d*x]/(Sqrt[e+f*x]*Sqrt[g+h*x]),x] - 
-  (b*c-a*d)/d*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && IntegersQ[p,q]
-
-
-Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_,x_Symbol] :=
-  h/b*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*(g+h*x)^(q-1),x] + 
-  (b*g-a*h)/b*Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^(q-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && PositiveIntegerQ[q] && 
-  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]] && Not[SumSimplerQ[p,1]])
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.*(g_.+h_.*x_)^q_.,x_Symbol] :=
-  Defer[Int][(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x]
-
-
-Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.*(e_.+f_.*u_)^p_.*(g_.+h_.*u_)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x] && LinearQ[u,x] && NeQ[u-x,0]
-
-
-Int[(i_.*(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_)^r_,x_Symbol] :=
-  (i*(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q)^r/((a+b*x)^(m*r)*(c+d*x)^(n*r)*(e+f*x)^(p*r)*(g+h*x)^(q*r))*
-    Int[(a+b*x)^(m*r)*(c+d*x)^(n*r)*(e+f*x)^(p*r)*(g+h*x)^(q*r),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q,r},x]
-
-
-Int[u_^m_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m,x] /;
-FreeQ[m,x] && LinearQ[u,x] && Not[LinearMatchQ[u,x]]
-
-
-Int[u_^m_.*v_^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n,x] /;
-FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
-FreeQ[{m,n,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
-
-
-Int[u_^m_.*v_^n_.*w_^p_.*z_^q_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p*ExpandToSum[z,x]^q,x] /;
-FreeQ[{m,n,p,q},x] && LinearQ[{u,v,w,z},x] && Not[LinearMatchQ[{u,v,w,z},x]]
-
-
-
+var _resourcesRubi111LinearBinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.1.1 Linear Binomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.1.1 (a+b x)^m*)
+
+
+Int[1/x_,x_Symbol] :=
+  Log[x]
+
+
+Int[x_^m_.,x_Symbol] :=
+  x^(m+1)/(m+1) /;
+FreeQ[m,x] && NeQ[m,-1]
+
+
+Int[1/(a_+b_.*x_),x_Symbol] :=
+  Log[RemoveContent[a+b*x,x]]/b /;
+FreeQ[{a,b},x]
+
+
+Int[(a_.+b_.*x_)^m_,x_Symbol] :=
+  (a+b*x)^(m+1)/(b*(m+1)) /;
+FreeQ[{a,b,m},x] && NeQ[m,-1]
+
+
+Int[(a_.+b_.*u_)^m_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m,x],x,u] /;
+FreeQ[{a,b,m},x] && LinearQ[u,x] && NeQ[u-x,0]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.1.2 (a+b x)^m (c+d x)^n*)
+
+
+Int[1/((a_+b_.*x_)*(c_+d_.*x_)),x_Symbol] :=
+  Int[1/(a*c+b*d*x^2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(a+b*x),x] - d/(b*c-a*d)*Int[1/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && EqQ[m+n+2,0] && NeQ[m,-1]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
+  x*(a+b*x)^m*(c+d*x)^m/(2*m+1) + 2*a*c*m/(2*m+1)*Int[(a+b*x)^(m-1)*(c+d*x)^(m-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && PositiveIntegerQ[m+1/2]
+
+
+Int[1/((a_+b_.*x_)^(3/2)*(c_+d_.*x_)^(3/2)),x_Symbol] :=
+  x/(a*c*Sqrt[a+b*x]*Sqrt[c+d*x]) /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
+  -x*(a+b*x)^(m+1)*(c+d*x)^(m+1)/(2*a*c*(m+1)) + 
+  (2*m+3)/(2*a*c*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(m+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegativeIntegerQ[m+3/2]
+
+
+Int[(a_+b_.*x_)^m_.*(c_+d_.*x_)^m_.,x_Symbol] :=
+  Int[(a*c+b*d*x^2)^m,x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d,0] && (IntegerQ[m] || PositiveQ[a] && PositiveQ[c])
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  ArcCosh[b*x/a]/b /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && PositiveQ[a] && EqQ[a+c,0]
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  2*Subst[Int[1/(b-d*x^2),x],x,Sqrt[a+b*x]/Sqrt[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
+  (a+b*x)^FracPart[m]*(c+d*x)^FracPart[m]/(a*c+b*d*x^2)^FracPart[m]*Int[(a*c+b*d*x^2)^m,x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d,0] && Not[IntegerQ[2*m]]
+
+
+Int[1/((a_+b_.*x_)^(5/4)*(c_+d_.*x_)^(1/4)),x_Symbol] :=
+  -2/(b*(a+b*x)^(1/4)*(c+d*x)^(1/4)) + c*Int[1/((a+b*x)^(5/4)*(c+d*x)^(5/4)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegQ[a^2*b^2]
+
+
+Int[1/((a_+b_.*x_)^(9/4)*(c_+d_.*x_)^(1/4)),x_Symbol] :=
+  -4/(5*b*(a+b*x)^(5/4)*(c+d*x)^(1/4)) - d/(5*b)*Int[1/((a+b*x)^(5/4)*(c+d*x)^(5/4)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && NegQ[a^2*b^2]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+n+1)) + 
+  2*c*n/(m+n+1)*Int[(a+b*x)^m*(c+d*x)^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && 0<m<n
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  -(a+b*x)^(m+1)*(c+d*x)^(n+1)/(2*a*d*(m+1)) + 
+  (m+n+2)/(2*a*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d,0] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && m<n<0
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && IGtQ[m,0] && 
+  (Not[IntegerQ[n]] || EqQ[c,0] && 7*m+4*n+4<=0 || 9*m+5*(n+1)<0 || m+n+2>0)
+
+
+Int[(a_+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && ILtQ[m,0] && IntegerQ[n] && Not[IGtQ[n,0] && m+n+2<0]
+
+
+Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
+  (c+d*x)^n/(b*n) + 
+  (b*c-a*d)/b*Int[(c+d*x)^(n-1)/(a+b*x),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n>0
+
+
+Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
+  -(c+d*x)^(n+1)/((n+1)*(b*c-a*d)) + 
+  b*(n+1)/((n+1)*(b*c-a*d))*Int[(c+d*x)^(n+1)/(a+b*x),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n<-1
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)),x_Symbol] :=
+  With[{q=Rt[(b*c-a*d)/b,3]},
+  -Log[RemoveContent[a+b*x,x]]/(2*b*q) - 
+  3/(2*b*q)*Subst[Int[1/(q-x),x],x,(c+d*x)^(1/3)] + 
+  3/(2*b)*Subst[Int[1/(q^2+q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
+FreeQ[{a,b,c,d},x] && PosQ[(b*c-a*d)/b]
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)),x_Symbol] :=
+  With[{q=Rt[-(b*c-a*d)/b,3]},
+  Log[RemoveContent[a+b*x,x]]/(2*b*q) - 
+  3/(2*b*q)*Subst[Int[1/(q+x),x],x,(c+d*x)^(1/3)] + 
+  3/(2*b)*Subst[Int[1/(q^2-q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
+FreeQ[{a,b,c,d},x] && NegQ[(b*c-a*d)/b]
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
+  With[{q=Rt[(b*c-a*d)/b,3]},
+  -Log[RemoveContent[a+b*x,x]]/(2*b*q^2) - 
+  3/(2*b*q^2)*Subst[Int[1/(q-x),x],x,(c+d*x)^(1/3)] - 
+  3/(2*b*q)*Subst[Int[1/(q^2+q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
+FreeQ[{a,b,c,d},x] && PosQ[(b*c-a*d)/b]
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
+  With[{q=Rt[-(b*c-a*d)/b,3]},
+  -Log[RemoveContent[a+b*x,x]]/(2*b*q^2) + 
+  3/(2*b*q^2)*Subst[Int[1/(q+x),x],x,(c+d*x)^(1/3)] + 
+  3/(2*b*q)*Subst[Int[1/(q^2-q*x+x^2),x],x,(c+d*x)^(1/3)]] /;
+FreeQ[{a,b,c,d},x] && NegQ[(b*c-a*d)/b]
+
+
+Int[(c_.+d_.*x_)^n_/(a_.+b_.*x_),x_Symbol] :=
+  With[{p=Denominator[n]},
+  p*Subst[Int[x^(p*(n+1)-1)/(a*d-b*c+b*x^p),x],x,(c+d*x)^(1/p)]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[n] && -1<n<0
+
+
+Int[(c_+d_.*x_)^n_/x_,x_Symbol] :=
+  -(c+d*x)^(n+1)/(c*(n+1))*Hypergeometric2F1[1,n+1,n+2,1+d*x/c] /;
+FreeQ[{c,d,n},x] && Not[IntegerQ[n]]
+
+
+Int[(c_.+d_.*x_)^n_/(a_+b_.*x_),x_Symbol] :=
+  -(c+d*x)^(n+1)/((n+1)*(b*c-a*d))*Hypergeometric2F1[1,n+1,n+2,TogetherSimplify[b*(c+d*x)/(b*c-a*d)]] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[n]]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+1)) - 
+  d*n/(b*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && m<-1 && n>0 && Not[IntegerQ[n] && Not[IntegerQ[m]]] && 
+  Not[IntegerQ[m+n] && m+n+2<=0 && (FractionQ[m] || 2*n+m+1>=0)] && IntLinearcQ[a,b,c,d,m,n,x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) - 
+  d*(m+n+2)/((b*c-a*d)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && m<-1 && 
+  Not[n<-1 && (EqQ[a,0] || NeQ[c,0] && m<n && IntegerQ[n])] && IntLinearcQ[a,b,c,d,m,n,x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n/(b*(m+n+1)) + 
+  n*(b*c-a*d)/(b*(m+n+1))*Int[(a+b*x)^m*(c+d*x)^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && n>0 && m+n+1!=0 && 
+  Not[PositiveIntegerQ[m] && (Not[IntegerQ[n]] || 0<m<n)] && 
+  Not[IntegerQ[m+n] && m+n+2<0] && IntLinearcQ[a,b,c,d,m,n,x]
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  Int[1/Sqrt[a*c-b*(a-c)*x-b^2*x^2],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b+d,0] && PositiveQ[a+c]
+
+
+Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  2/Sqrt[b]*Subst[Int[1/Sqrt[b*c-a*d+d*x^2],x],x,Sqrt[a+b*x]] /;
+FreeQ[{a,b,c,d},x] && PositiveQ[b*c-a*d] && PositiveQ[b]
+
+
+Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  2/b*Subst[Int[1/Sqrt[c-a+x^2],x],x,Sqrt[a+b*x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b-d,0]
+
+
+Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  2*Subst[Int[1/(b-d*x^2),x],x,Sqrt[a+b*x]/Sqrt[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[(a_.+b_.*x_)^m_*(c_+d_.*x_)^m_,x_Symbol] :=
+  (a+b*x)^m*(c+d*x)^m/(a*c+(b*c+a*d)*x+b*d*x^2)^m*Int[(a*c+(b*c+a*d)*x+b*d*x^2)^m,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m] && -1<m<0 && 3<=Denominator[m]<=4
+
+
+Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
+  With[{q=Rt[d/b,3]},
+  -Sqrt[3]*q/d*ArcTan[2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))+1/Sqrt[3]] - 
+  q/(2*d)*Log[c+d*x] - 
+  3*q/(2*d)*Log[q*(a+b*x)^(1/3)/(c+d*x)^(1/3)-1]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PosQ[d/b]
+
+
+Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)),x_Symbol] :=
+  With[{q=Rt[-d/b,3]},
+  Sqrt[3]*q/d*ArcTan[1/Sqrt[3]-2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))] + 
+  q/(2*d)*Log[c+d*x] + 
+  3*q/(2*d)*Log[q*(a+b*x)^(1/3)/(c+d*x)^(1/3)+1]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && NegQ[d/b]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  With[{p=Denominator[m]},
+  p*Subst[Int[x^(p*(m+1)-1)/(b-d*x^p),x],x,(a+b*x)^(1/p)/(c+d*x)^(1/p)]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && -1<m<0 && m+n+1==0
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  With[{p=Denominator[m]},
+  p/b*Subst[Int[x^(p*(m+1)-1)*(c-a*d/b+d*x^p/b)^n,x],x,(a+b*x)^(1/p)]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[m,n] && -1<m<0 && -1<n<0 && Denominator[n]<=Denominator[m] && 
+  IntLinearcQ[a,b,c,d,m,n,x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^(n+1)/((b*c-a*d)*(m+1)) - 
+  d*Simplify[m+n+2]/((b*c-a*d)*(m+1))*Int[(a+b*x)^Simplify[m+1]*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && NegativeIntegerQ[Simplify[m+n+2]] && NeQ[m,-1] && 
+  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  c^n*(b*x)^(m+1)/(b*(m+1))*Hypergeometric2F1[-n,m+1,m+2,-d*x/c] /;
+FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && (IntegerQ[n] || PositiveQ[c] && Not[EqQ[n,-1/2] && EqQ[c^2-d^2,0] && PositiveQ[-d/(b*c)]])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (c+d*x)^(n+1)/(d*(n+1)*(-d/(b*c))^m)*Hypergeometric2F1[-m,n+1,n+2,1+d*x/c] /;
+FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[n]] && (IntegerQ[m] || PositiveQ[-d/(b*c)])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c+d*x)^FracPart[n]/(1+d*x/c)^FracPart[n]*Int[(b*x)^m*(1+d*x/c)^n,x] /;
+FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]] && Not[PositiveQ[-d/(b*c)]] && 
+  (RationalQ[m] && Not[EqQ[n,-1/2] && EqQ[c^2-d^2,0]] || Not[RationalQ[n]])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (-b*c/d)^IntPart[m]*(b*x)^FracPart[m]/(-d*x/c)^FracPart[m]*Int[(-d*x/c)^m*(c+d*x)^n,x] /;
+FreeQ[{b,c,d,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]] && Not[PositiveQ[-d/(b*c)]]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (b*c-a*d)^n*(a+b*x)^(m+1)/(b^(n+1)*(m+1))*Hypergeometric2F1[-n,m+1,m+2,-d*(a+b*x)/(b*c-a*d)] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && IntegerQ[n]
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (a+b*x)^(m+1)/(b*(m+1)*(b/(b*c-a*d))^n)*Hypergeometric2F1[-n,m+1,m+2,-d*(a+b*x)/(b*c-a*d)] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[b/(b*c-a*d)] && 
+  (RationalQ[m] || Not[RationalQ[n] && PositiveQ[-d/(b*c-a*d)]])
+
+
+Int[(a_+b_.*x_)^m_*(c_+d_.*x_)^n_,x_Symbol] :=
+  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
+    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n,x] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d,0] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && (RationalQ[m] || Not[SimplerQ[n+1,m+1]])
+
+
+Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,u] /;
+FreeQ[{a,b,c,d,m,n},x] && LinearQ[u,x] && NeQ[Coefficient[u,x,0],0]
+
+
+(* IntLinearcQ[a,b,c,d,m,n,x] returns True iff (a+b*x)^m*(c+d*x)^n is integrable wrt x in terms of non-hypergeometric functions. *)
+IntLinearcQ[a_,b_,c_,d_,m_,n_,x_] :=
+  IntegerQ[m] || IntegerQ[n] || IntegersQ[3*m,3*n] || IntegersQ[4*m,4*n] || IntegersQ[2*m,6*n] || IntegersQ[6*m,2*n] || IntegerQ[m+n]
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.1.3 (a+b x)^m (c+d x)^n (e+f x)^p*)
+
+
+Int[(a_+b_.*x_)^m_.*(c_+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  Int[(a*c+b*d*x^2)^m*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0] && IntegerQ[m]
+
+
+Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+2)) /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0] && EqQ[a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)),0]
+
+
+Int[(a_+b_.*x_)*(d_.*x_)^n_.*(e_+f_.*x_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)*(d*x)^n*(e+f*x)^p,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && IGtQ[p,0] && EqQ[b*e+a*f,0] && Not[NegativeIntegerQ[n+p+2] && n+2*p>0]
+
+
+Int[(a_+b_.*x_)*(d_.*x_)^n_.*(e_+f_.*x_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)*(d*x)^n*(e+f*x)^p,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && IGtQ[p,0] && (NeQ[n,-1] || EqQ[p,1]) && NeQ[b*e+a*f,0] &&
+  (Not[IntegerQ[n]] || 9*p+5*n<0 || n+p+1>=0 || n+p+2>=0 && RationalQ[a,b,d,e,f]) && (NeQ[n+p+3,0] || EqQ[p,1])
+
+
+Int[(a_.+b_.*x_)*(c_+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)*(c+d*x)^n*(e+f*x)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d,0] && 
+  (NegativeIntegerQ[n,p] || EqQ[p,1] || 
+    IGtQ[p,0] && (Not[IntegerQ[n]] || 9*p+5*(n+2)<=0 || n+p+1>=0 || n+p+2>=0 && RationalQ[a,b,c,d,e,f]))
+
+
+Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  -(b*e-a*f)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(f*(p+1)*(c*f-d*e)) - 
+  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(f*(p+1)*(c*f-d*e))*Int[(c+d*x)^n*(e+f*x)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && LtQ[p,-1] && 
+  (Not[LtQ[n,-1]] || IntegerQ[p] || Not[IntegerQ[n] || Not[EqQ[e,0] || Not[EqQ[c,0] || p<n]]])
+
+
+Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  -(b*e-a*f)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(f*(p+1)*(c*f-d*e)) - 
+  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(f*(p+1)*(c*f-d*e))*Int[(c+d*x)^n*(e+f*x)^Simplify[p+1],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && Not[RationalQ[p]] && SumSimplerQ[p,1]
+
+
+Int[(a_.+b_.*x_)*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+2)) + 
+  (a*d*f*(n+p+2)-b*(d*e*(n+1)+c*f*(p+1)))/(d*f*(n+p+2))*Int[(c+d*x)^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0]
+
+
+Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(c+d*x)^(n+1)*(e+f*x)^(p+1)*(2*a*d*f*(n+p+3)-b*(d*e*(n+2)+c*f*(p+2))+b*d*f*(n+p+2)*x)/(d^2*f^2*(n+p+2)*(n+p+3)) /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+2,0] && NeQ[n+p+3,0] && 
+  EqQ[d*f*(n+p+2)*(a^2*d*f*(n+p+3)-b*(b*c*e+a*(d*e*(n+1)+c*f*(p+1))))-b*(d*e*(n+1)+c*f*(p+1))*(a*d*f*(n+p+4)-b*(d*e*(n+2)+c*f*(p+2))),0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
+   a*Int[(a+b*x)^n*(c+d*x)^n*(f*x)^p,x] + b/f*Int[(a+b*x)^n*(c+d*x)^n*(f*x)^(p+1),x] /;
+FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n-1,0] && Not[RationalQ[p]] && Not[PositiveIntegerQ[m]] && NeQ[m+n+p+2,0]
+
+
+Int[(e_.+f_.*x_)^p_./((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  Int[ExpandIntegrand[(e+f*x)^p/((a+b*x)*(c+d*x)),x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && IntegerQ[p]
+
+
+Int[(e_.+f_.*x_)^p_./((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)/(a+b*x),x] - 
+  (d*e-c*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && 0<p<1
+
+
+Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  f*(e+f*x)^(p-1)/(b*d*(p-1)) + 
+ 1/(b*d)*Int[(b*d*e^2-a*c*f^2+f*(2*b*d*e-b*c*f-a*d*f)*x)*(e+f*x)^(p-2)/((a+b*x)*(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && p>1
+
+
+Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  f*(e+f*x)^(p+1)/((p+1)*(b*e-a*f)*(d*e-c*f)) + 
+  1/((b*e-a*f)*(d*e-c*f))*Int[(b*d*e-b*c*f-a*d*f-b*d*f*x)*(e+f*x)^(p+1)/((a+b*x)*(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[p] && p<-1
+
+
+Int[(e_.+f_.*x_)^p_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  b/(b*c-a*d)*Int[(e+f*x)^p/(a+b*x),x] - 
+  d/(b*c-a*d)*Int[(e+f*x)^p/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && Not[IntegerQ[p]]
+
+
+Int[(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_/(a_.+b_.*x_),x_Symbol] :=
+  Int[ExpandIntegrand[(e+f*x)^FractionalPart[p],(c+d*x)^n*(e+f*x)^IntegerPart[p]/(a+b*x),x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[n] && FractionQ[p] && p<-1
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && IntegersQ[m,n] && (IntegerQ[p] || m>0 && n>=-1)
+
+
+Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (b*c-a*d)^2*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d^2*(d*e-c*f)*(n+1)) - 
+  1/(d^2*(d*e-c*f)*(n+1))*Int[(c+d*x)^(n+1)*(e+f*x)^p*
+    Simp[a^2*d^2*f*(n+p+2)+b^2*c*(d*e*(n+1)+c*f*(p+1))-2*a*b*d*(d*e*(n+1)+c*f*(p+1))-b^2*d*(d*e-c*f)*(n+1)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && (RationalQ[n] && n<-1 || EqQ[n+p+3,0] && NeQ[n,-1] && (SumSimplerQ[n,1] || Not[SumSimplerQ[p,1]]))
+
+
+Int[(a_.+b_.*x_)^2*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(n+p+3)) + 
+  1/(d*f*(n+p+3))*Int[(c+d*x)^n*(e+f*x)^p*
+    Simp[a^2*d*f*(n+p+3)-b*(b*c*e+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(n+p+4)-b*(d*e*(n+2)+c*f*(p+2)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && NeQ[n+p+3,0]
+
+
+Int[1/((a_.+b_.*x_)^(1/3)*(c_.+d_.*x_)^(2/3)*(e_.+f_.*x_)),x_Symbol] :=
+  With[{q=Rt[(d*e-c*f)/(b*e-a*f),3]},
+  -Sqrt[3]*q*ArcTan[1/Sqrt[3]+2*q*(a+b*x)^(1/3)/(Sqrt[3]*(c+d*x)^(1/3))]/(d*e-c*f) + 
+  q*Log[e+f*x]/(2*(d*e-c*f)) - 
+  3*q*Log[q*(a+b*x)^(1/3)-(c+d*x)^(1/3)]/(2*(d*e-c*f))] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)),x_Symbol] :=
+  b*f*Subst[Int[1/(d*(b*e-a*f)^2+b*f^2*x^2),x],x,Sqrt[a+b*x]*Sqrt[c+d*x]] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-f*(b*c+a*d),0]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_/(e_.+f_.*x_),x_Symbol] :=
+  With[{q=Denominator[m]},
+  q*Subst[Int[x^(q*(m+1)-1)/(b*e-a*f-(d*e-c*f)*x^q),x],x,(a+b*x)^(1/q)/(c+d*x)^(1/q)]] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[m+n+1,0] && RationalQ[m,n] && -1<m<0 && SimplerQ[a+b*x,c+d*x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((m+1)*(b*e-a*f)) - 
+  n*(d*e-c*f)/((m+1)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[m+n+p+2,0] && RationalQ[n] && n>0 && Not[SumSimplerQ[p,1] && Not[SumSimplerQ[m,1]]]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[Simplify[m+n+p+3],0] && EqQ[a*d*f*(m+1)+b*c*f*(n+1)+b*d*e*(p+1),0] && NeQ[m,-1]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  (a*d*f*(m+1)+b*c*f*(n+1)+b*d*e*(p+1))/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[Simplify[m+n+p+3],0] && (RationalQ[m] && m<-1 || SumSimplerQ[m,1])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p/(b*(m+1)) - 
+  1/(b*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^(p-1)*Simp[d*e*n+c*f*p+d*f*(n+p)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (b*c-a*d)*(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) + 
+  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-2)*(e+f*x)^p*
+    Simp[a*d*(d*e*(n-1)+c*f*(p+1))+b*c*(d*e*(m-n+2)-c*f*(m+p+2))+d*(a*d*f*(n+p)+b*(d*e*(m+1)-c*f*(m+n+p+1)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && RationalQ[m,n,p] && m<-1 && n>1 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((m+1)*(b*e-a*f)) - 
+  1/((m+1)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
+    Simp[d*e*n+c*f*(m+p+2)+d*f*(m+n+p+2)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && RationalQ[m,n,p] && m<-1 && n>0 && (IntegersQ[2*m,2*n,2*p] || IntegersQ[m,n+p] || IntegersQ[p,m+n])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m-1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+1)) + 
+  1/(d*f*(m+n+p+1))*Int[(a+b*x)^(m-2)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a^2*d*f*(m+n+p+1)-b*(b*c*e*(m-1)+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(2*m+n+p)-b*(d*e*(m+n)+c*f*(m+p)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>1 && NeQ[m+n+p+1,0] && IntegerQ[m]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  (a+b*x)^m*(c+d*x)^n*(e+f*x)^(p+1)/(f*(m+n+p+1)) - 
+  1/(f*(m+n+p+1))*Int[(a+b*x)^(m-1)*(c+d*x)^(n-1)*(e+f*x)^p*
+    Simp[c*m*(b*e-a*f)+a*n*(d*e-c*f)+(d*m*(b*e-a*f)+b*n*(d*e-c*f))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[m,n,p] && m>0 && n>0 && NeQ[m+n+p+1,0] && 
+  (IntegersQ[2*m,2*n,2*p] || (IntegersQ[m,n+p] || IntegersQ[p,m+n]))
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m-1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+1)) + 
+  1/(d*f*(m+n+p+1))*Int[(a+b*x)^(m-2)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a^2*d*f*(m+n+p+1)-b*(b*c*e*(m-1)+a*(d*e*(n+1)+c*f*(p+1)))+b*(a*d*f*(2*m+n+p)-b*(d*e*(m+n)+c*f*(m+p)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>1 && NeQ[m+n+p+1,0] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m<-1 && IntegerQ[m] && (IntegerQ[n] || IntegersQ[2*n,2*p])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_/(e_.+f_.*x_),x_Symbol] :=
+  b/f*Int[(a+b*x)^(m-1)*(c+d*x)^n,x] - (b*e-a*f)/f*Int[(a+b*x)^(m-1)*(c+d*x)^n/(e+f*x),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[Simplify[m+n+1]] && 
+  (RationalQ[m] && m>0 || Not[RationalQ[m]] && (SumSimplerQ[m,-1] || Not[SumSimplerQ[n,-1]]))
+
+
+(* Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  b/f*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^(p+1),x] - (b*e-a*f)/f*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NegativeIntegerQ[p] && PositiveIntegerQ[m+n+p+2] && Not[SimplerQ[c+d*x,a+b*x]] *)
+
+
+Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(1/4)),x_Symbol] :=
+  -4*Subst[Int[x^2/((b*e-a*f-b*x^4)*Sqrt[c-d*e/f+d*x^4/f]),x],x,(e+f*x)^(1/4)] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[-f/(d*e-c*f)]
+
+
+Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(1/4)),x_Symbol] :=
+  Sqrt[-f*(c+d*x)/(d*e-c*f)]/Sqrt[c+d*x]*Int[1/((a+b*x)*Sqrt[-c*f/(d*e-c*f)-d*f*x/(d*e-c*f)]*(e+f*x)^(1/4)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[-f/(d*e-c*f)]]
+
+
+Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(3/4)),x_Symbol] :=
+  -4*Subst[Int[1/((b*e-a*f-b*x^4)*Sqrt[c-d*e/f+d*x^4/f]),x],x,(e+f*x)^(1/4)] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[-f/(d*e-c*f)]
+
+
+Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*(e_.+f_.*x_)^(3/4)),x_Symbol] :=
+  Sqrt[-f*(c+d*x)/(d*e-c*f)]/Sqrt[c+d*x]*Int[1/((a+b*x)*Sqrt[-c*f/(d*e-c*f)-d*f*x/(d*e-c*f)]*(e+f*x)^(3/4)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[-f/(d*e-c*f)]]
+
+
+Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  2*Sqrt[e]/b*Rt[-b/d,2]*EllipticE[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && PositiveQ[c] && PositiveQ[e] && Not[NegativeQ[-b/d]]
+
+
+Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  Sqrt[-b*x]/Sqrt[b*x]*Int[Sqrt[e+f*x]/(Sqrt[-b*x]*Sqrt[c+d*x]),x] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && PositiveQ[c] && PositiveQ[e] && NegativeQ[-b/d]
+
+
+Int[Sqrt[e_+f_.*x_]/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  Sqrt[e+f*x]*Sqrt[1+d*x/c]/(Sqrt[c+d*x]*Sqrt[1+f*x/e])*Int[Sqrt[1+f*x/e]/(Sqrt[b*x]*Sqrt[1+d*x/c]),x] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[d*e-c*f,0] && Not[PositiveQ[c] && PositiveQ[e]]
+
+
+(* Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  f/b*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*Sqrt[e+f*x]),x] - 
+  f/b*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*e-f*(a-1),0] *)
+
+
+(* Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[(b*e-a*f)/(b*c-a*d)]*
+    EllipticE[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && Not[NegativeQ[-(b*c-a*d)/d]] && 
+  Not[SimplerQ[c+d*x,a+b*x] && PositiveQ[-d/(b*c-a*d)] && PositiveQ[d/(d*e-c*f)] && Not[NegativeQ[(b*c-a*d)/b]]] *)
+
+
+Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  2/b*Rt[-(b*e-a*f)/d,2]*EllipticE[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && Not[NegativeQ[-(b*c-a*d)/d]] && 
+  Not[SimplerQ[c+d*x,a+b*x] && PositiveQ[-d/(b*c-a*d)] && PositiveQ[d/(d*e-c*f)] && Not[NegativeQ[(b*c-a*d)/b]]]
+
+
+Int[Sqrt[e_.+f_.*x_]/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]),x_Symbol] :=
+  Sqrt[e+f*x]*Sqrt[b*(c+d*x)/(b*c-a*d)]/(Sqrt[c+d*x]*Sqrt[b*(e+f*x)/(b*e-a*f)])*
+    Int[Sqrt[b*e/(b*e-a*f)+b*f*x/(b*e-a*f)]/(Sqrt[a+b*x]*Sqrt[b*c/(b*c-a*d)+b*d*x/(b*c-a*d)]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)]] && Not[NegativeQ[-(b*c-a*d)/d]]
+
+
+Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  2/(b*Sqrt[e])*Rt[-b/d,2]*EllipticF[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
+FreeQ[{b,c,d,e,f},x] && PositiveQ[c] && PositiveQ[e] && (PositiveQ[-b/d] || NegativeQ[-b/f])
+
+
+Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  2/(b*Sqrt[e])*Rt[-b/d,2]*EllipticF[ArcSin[Sqrt[b*x]/(Sqrt[c]*Rt[-b/d,2])],c*f/(d*e)] /;
+FreeQ[{b,c,d,e,f},x] && PositiveQ[c] && PositiveQ[e] && (PosQ[-b/d] || NegQ[-b/f])
+
+
+Int[1/(Sqrt[b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  Sqrt[1+d*x/c]*Sqrt[1+f*x/e]/(Sqrt[c+d*x]*Sqrt[e+f*x])*Int[1/(Sqrt[b*x]*Sqrt[1+d*x/c]*Sqrt[1+f*x/e]),x] /;
+FreeQ[{b,c,d,e,f},x] && Not[PositiveQ[c] && PositiveQ[e]]
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[b^2/((b*c-a*d)*(b*e-a*f))]*
+    EllipticF[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x] && 
+  (PositiveQ[-(b*c-a*d)/d] || NegativeQ[-(b*e-a*f)/f])
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  2/b*Rt[-(b*c-a*d)/d,2]*Sqrt[b^2/((b*c-a*d)*(b*e-a*f))]*
+    EllipticF[ArcSin[Sqrt[a+b*x]/Rt[-(b*c-a*d)/d,2]],f*(b*c-a*d)/(d*(b*e-a*f))] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x] && 
+  (PosQ[-(b*c-a*d)/d] || NegQ[-(b*e-a*f)/f])
+
+
+Int[1/(Sqrt[a_+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  Sqrt[b*(c+d*x)/(b*c-a*d)]*Sqrt[b*(e+f*x)/(b*e-a*f)]/(Sqrt[c+d*x]*Sqrt[e+f*x])*
+    Int[1/(Sqrt[a+b*x]*Sqrt[b*c/(b*c-a*d)+b*d*x/(b*c-a*d)]*Sqrt[b*e/(b*e-a*f)+b*f*x/(b*e-a*f)]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)]] && SimplerQ[a+b*x,c+d*x] && SimplerQ[a+b*x,e+f*x]
+
+
+Int[1/((a_.+b_.*x_)*(c_.+d_.*x_)^(1/3)*(e_.+f_.*x_)^(1/3)),x_Symbol] :=
+  With[{q=Rt[b*(b*e-a*f)/(b*c-a*d)^2,3]},
+  -Log[a+b*x]/(2*q*(b*c-a*d)) - 
+  Sqrt[3]*ArcTan[1/Sqrt[3]+2*q*(c+d*x)^(2/3)/(Sqrt[3]*(e+f*x)^(1/3))]/(2*q*(b*c-a*d)) + 
+  3*Log[q*(c+d*x)^(2/3)-(e+f*x)^(1/3)]/(4*q*(b*c-a*d))] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-b*c*f-a*d*f,0]
+
+
+Int[(a_.+b_.*x_)^m_/((c_.+d_.*x_)^(1/3)*(e_.+f_.*x_)^(1/3)),x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(2/3)*(e+f*x)^(2/3)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  f/(6*(m+1)*(b*c-a*d)*(b*e-a*f))*
+    Int[(a+b*x)^(m+1)*(a*d*(3*m+1)-3*b*c*(3*m+5)-2*b*d*(3*m+7)*x)/((c+d*x)^(1/3)*(e+f*x)^(1/3)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[2*b*d*e-b*c*f-a*d*f,0] && IntegerQ[m] && m<-1
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
+  Int[(a*c+b*d*x^2)^m*(f*x)^p,x] /;
+FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0] && PositiveQ[a] && PositiveQ[c]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
+  (a+b*x)^FracPart[m]*(c+d*x)^FracPart[m]/(a*c+b*d*x^2)^FracPart[m]*Int[(a*c+b*d*x^2)^m*(f*x)^p,x] /;
+FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && EqQ[m-n,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(f_.*x_)^p_.,x_Symbol] :=
+   Int[ExpandIntegrand[(a+b*x)^n*(c+d*x)^n*(f*x)^p,(a+b*x)^(m-n),x],x] /;
+FreeQ[{a,b,c,d,f,m,n,p},x] && EqQ[b*c+a*d,0] && PositiveIntegerQ[m-n] && NeQ[m+n+p+2,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && (PositiveIntegerQ[m] || NegativeIntegerQ[m,n])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.,x_Symbol] :=
+  b*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a*d*f*(m+1)-b*(d*e*(m+n+2)+c*f*(m+p+2))-b*d*f*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && NegativeIntegerQ[m+n+p+2] && NeQ[m,-1] && 
+  (SumSimplerQ[m,1] || Not[NeQ[n,-1] && SumSimplerQ[n,1]] && Not[NeQ[p,-1] && SumSimplerQ[p,1]])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (b*c-a*d)^n*(a+b*x)^(m+1)/((m+1)*(b*e-a*f)^(n+1)*(e+f*x)^(m+1))*
+    Hypergeometric2F1[m+1,-n,m+2,-(d*e-c*f)*(a+b*x)/((b*c-a*d)*(e+f*x))] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[m+n+p+2,0] && NegativeIntegerQ[n]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/((b*e-a*f)*(m+1))*((b*e-a*f)*(c+d*x)/((b*c-a*d)*(e+f*x)))^(-n)*
+    Hypergeometric2F1[m+1,-n,m+2,-(d*e-c*f)*(a+b*x)/((b*c-a*d)*(e+f*x))] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[m+n+p+2,0] && Not[IntegerQ[n]]
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
+  c^n*e^p*(b*x)^(m+1)/(b*(m+1))*AppellF1[m+1,-n,-p,m+2,-d*x/c,-f*x/e] /;
+FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[c] && (IntegerQ[p] || PositiveQ[e])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
+  (c+d*x)^(n+1)/(d*(n+1)*(-d/(b*c))^m*(d/(d*e-c*f))^p)*AppellF1[n+1,-m,-p,n+2,1+d*x/c,-f*(c+d*x)/(d*e-c*f)] /;
+FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && PositiveQ[-d/(b*c)] && (IntegerQ[p] || PositiveQ[d/(d*e-c*f)])
+
+
+Int[(b_.*x_)^m_*(c_+d_.*x_)^n_*(e_+f_.*x_)^p_,x_Symbol] :=
+  c^IntPart[n]*(c+d*x)^FracPart[n]/(1+d*x/c)^FracPart[n]*Int[(b*x)^m*(1+d*x/c)^n*(e+f*x)^p,x] /;
+FreeQ[{b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[PositiveQ[c]]
+
+
+Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (b*e-a*f)^p*(a+b*x)^(m+1)/(b^(p+1)*(m+1)*(b/(b*c-a*d))^n)*
+    AppellF1[m+1,-n,-p,m+2,-d*(a+b*x)/(b*c-a*d),-f*(a+b*x)/(b*e-a*f)] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[p] && PositiveQ[b/(b*c-a*d)] && 
+  Not[PositiveQ[d/(d*a-c*b)] && SimplerQ[c+d*x,a+b*x]]
+
+
+Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
+    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[p] && Not[PositiveQ[b/(b*c-a*d)]] && 
+  Not[SimplerQ[c+d*x,a+b*x]]
+
+
+Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (a+b*x)^(m+1)/(b*(m+1)*(b/(b*c-a*d))^n*(b/(b*e-a*f))^p)*AppellF1[m+1,-n,-p,m+2,-d*(a+b*x)/(b*c-a*d),-f*(a+b*x)/(b*e-a*f)] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && 
+  PositiveQ[b/(b*c-a*d)] && PositiveQ[b/(b*e-a*f)] && 
+  Not[PositiveQ[d/(d*a-c*b)] && PositiveQ[d/(d*e-c*f)] && SimplerQ[c+d*x,a+b*x]] && 
+  Not[PositiveQ[f/(f*a-e*b)] && PositiveQ[f/(f*c-e*d)] && SimplerQ[e+f*x,a+b*x]]
+
+
+Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (e+f*x)^FracPart[p]/((b/(b*e-a*f))^IntPart[p]*(b*(e+f*x)/(b*e-a*f))^FracPart[p])*
+    Int[(a+b*x)^m*(c+d*x)^n*(b*e/(b*e-a*f)+b*f*x/(b*e-a*f))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && 
+  PositiveQ[b/(b*c-a*d)] && Not[PositiveQ[b/(b*e-a*f)]]
+
+
+Int[(a_+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_,x_Symbol] :=
+  (c+d*x)^FracPart[n]/((b/(b*c-a*d))^IntPart[n]*(b*(c+d*x)/(b*c-a*d))^FracPart[n])*
+    Int[(a+b*x)^m*(b*c/(b*c-a*d)+b*d*x/(b*c-a*d))^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[p]] && Not[PositiveQ[b/(b*c-a*d)]] && 
+  Not[SimplerQ[c+d*x,a+b*x]] && Not[SimplerQ[e+f*x,a+b*x]]
+
+
+Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.*(e_+f_.*u_)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && LinearQ[u,x] && NeQ[u-x,0]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.1.4 (a+b x)^m (c+d x)^n (e+f x)^p (g+h x)^q*)
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)*(g+h*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && (PositiveIntegerQ[m] || IntegersQ[m,n])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  (b^2*d*e*g-a^2*d*f*h*m-a*b*(d*(f*g+e*h)-c*f*h*(m+1))+b*f*h*(b*c-a*d)*(m+1)*x)*(a+b*x)^(m+1)*(c+d*x)^(n+1)/
+    (b^2*d*(b*c-a*d)*(m+1)) + 
+  (a*d*f*h*m+b*(d*(f*g+e*h)-c*f*h*(m+2)))/(b^2*d)*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[m+n+2,0] && NeQ[m,-1] && Not[SumSimplerQ[n,1] && Not[SumSimplerQ[m,1]]]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  (b^2*c*d*e*g*(n+1)+a^2*c*d*f*h*(n+1)+a*b*(d^2*e*g*(m+1)+c^2*f*h*(m+1)-c*d*(f*g+e*h)*(m+n+2))+
+      (a^2*d^2*f*h*(n+1)-a*b*d^2*(f*g+e*h)*(n+1)+b^2*(c^2*f*h*(m+1)-c*d*(f*g+e*h)*(m+1)+d^2*e*g*(m+n+2)))*x)/
+    (b*d*(b*c-a*d)^2*(m+1)*(n+1))*(a+b*x)^(m+1)*(c+d*x)^(n+1) - 
+  (a^2*d^2*f*h*(2+3*n+n^2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
+      b^2*(c^2*f*h*(2+3*m+m^2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(6+m^2+5*n+n^2+m*(2*n+5))))/
+    (b*d*(b*c-a*d)^2*(m+1)*(n+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && RationalQ[m,n] && m<-1 && n<-1
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  (b^3*c*e*g*(m+2)-a^3*d*f*h*(n+2)-a^2*b*(c*f*h*m-d*(f*g+e*h)*(m+n+3))-a*b^2*(c*(f*g+e*h)+d*e*g*(2*m+n+4))+
+      b*(a^2*d*f*h*(m-n)-a*b*(2*c*f*h*(m+1)-d*(f*g+e*h)*(n+1))+b^2*(c*(f*g+e*h)*(m+1)-d*e*g*(m+n+2)))*x)/
+    (b^2*(b*c-a*d)^2*(m+1)*(m+2))*(a+b*x)^(m+1)*(c+d*x)^(n+1) + 
+  (f*h/b^2-(d*(m+n+3)*(a^2*d*f*h*(m-n)-a*b*(2*c*f*h*(m+1)-d*(f*g+e*h)*(n+1))+b^2*(c*(f*g+e*h)*(m+1)-d*e*g*(m+n+2))))/
+      (b^2*(b*c-a*d)^2*(m+1)*(m+2)))*
+    Int[(a+b*x)^(m+2)*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && (RationalQ[m] && m<-2 || EqQ[m+n+3,0] && Not[RationalQ[n] && n<-2])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  (a^2*d*f*h*(n+2)+b^2*d*e*g*(m+n+3)+a*b*(c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+b*f*h*(b*c-a*d)*(m+1)*x)/
+    (b^2*d*(b*c-a*d)*(m+1)*(m+n+3))*(a+b*x)^(m+1)*(c+d*x)^(n+1) - 
+  (a^2*d^2*f*h*(n+1)*(n+2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
+      b^2*(c^2*f*h*(m+1)*(m+2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(m+n+2)*(m+n+3)))/
+    (b^2*d*(b*c-a*d)*(m+1)*(m+n+3))*Int[(a+b*x)^(m+1)*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && (RationalQ[m] && -2<=m<-1 || SumSimplerQ[m,1]) && NeQ[m,-1] && NeQ[m+n+3,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_+f_.*x_)*(g_.+h_.*x_),x_Symbol] :=
+  -(a*d*f*h*(n+2)+b*c*f*h*(m+2)-b*d*(f*g+e*h)*(m+n+3)-b*d*f*h*(m+n+2)*x)*(a+b*x)^(m+1)*(c+d*x)^(n+1)/
+    (b^2*d^2*(m+n+2)*(m+n+3)) + 
+  (a^2*d^2*f*h*(n+1)*(n+2)+a*b*d*(n+1)*(2*c*f*h*(m+1)-d*(f*g+e*h)*(m+n+3))+
+      b^2*(c^2*f*h*(m+1)*(m+2)-c*d*(f*g+e*h)*(m+1)*(m+n+3)+d^2*e*g*(m+n+2)*(m+n+3)))/
+    (b^2*d^2*(m+n+2)*(m+n+3))*Int[(a+b*x)^m*(c+d*x)^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && NeQ[m+n+2,0] && NeQ[m+n+3,0]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m},x] && (IntegersQ[m,n,p] || PositiveIntegerQ[n,p])
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) - 
+  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
+    Simp[b*c*(f*g-e*h)*(m+1)+(b*g-a*h)*(d*e*n+c*f*(p+1))+d*(b*(f*g-e*h)*(m+1)+f*(b*g-a*h)*(n+p+1))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p},x] && RationalQ[m,n] && m<-1 && n>0 && IntegerQ[m]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^(p+1)/(b*(b*e-a*f)*(m+1)) - 
+  1/(b*(b*e-a*f)*(m+1))*Int[(a+b*x)^(m+1)*(c+d*x)^(n-1)*(e+f*x)^p*
+    Simp[b*c*(f*g-e*h)*(m+1)+(b*g-a*h)*(d*e*n+c*f*(p+1))+d*(b*(f*g-e*h)*(m+1)+f*(b*g-a*h)*(n+p+1))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p},x] && RationalQ[m,n] && m<-1 && n>0 && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m<-1 && IntegerQ[m]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  h*(a+b*x)^m*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+2)) + 
+  1/(d*f*(m+n+p+2))*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a*d*f*g*(m+n+p+2)-h*(b*c*e*m+a*(d*e*(n+1)+c*f*(p+1)))+(b*d*f*g*(m+n+p+2)+h*(a*d*f*m-b*(d*e*(m+n+1)+c*f*(m+p+1))))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m>0 && NeQ[m+n+p+2,0] && IntegerQ[m]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  h*(a+b*x)^m*(c+d*x)^(n+1)*(e+f*x)^(p+1)/(d*f*(m+n+p+2)) + 
+  1/(d*f*(m+n+p+2))*Int[(a+b*x)^(m-1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[a*d*f*g*(m+n+p+2)-h*(b*c*e*m+a*(d*e*(n+1)+c*f*(p+1)))+(b*d*f*g*(m+n+p+2)+h*(a*d*f*m-b*(d*e*(m+n+1)+c*f*(m+p+1))))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && RationalQ[m] && m>0 && NeQ[m+n+p+2,0] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  (b*g-a*h)*(a+b*x)^(m+1)*(c+d*x)^(n+1)*(e+f*x)^(p+1)/((m+1)*(b*c-a*d)*(b*e-a*f)) + 
+  1/((m+1)*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*
+    Simp[(a*d*f*g-b*(d*e+c*f)*g+b*c*e*h)*(m+1)-(b*g-a*h)*(d*e*(n+1)+c*f*(p+1))-d*f*(b*g-a*h)*(m+n+p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x] && NegativeIntegerQ[m+n+p+2] && NeQ[m,-1] && 
+  (SumSimplerQ[m,1] || Not[NeQ[n,-1] && SumSimplerQ[n,1]] && Not[NeQ[p,-1] && SumSimplerQ[p,1]])
+
+
+Int[(e_.+f_.*x_)^p_*(g_.+h_.*x_)/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  (b*g-a*h)/(b*c-a*d)*Int[(e+f*x)^p/(a+b*x),x] - 
+  (d*g-c*h)/(b*c-a*d)*Int[(e+f*x)^p/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)/(a_.+b_.*x_),x_Symbol] :=
+  h/b*Int[(c+d*x)^n*(e+f*x)^p,x] + (b*g-a*h)/b*Int[(c+d*x)^n*(e+f*x)^p/(a+b*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p},x]
+
+
+Int[(g_.+h_.*x_)/(Sqrt[a_.+b_.*x_]*Sqrt[c_+d_.*x_]*Sqrt[e_+f_.*x_]),x_Symbol] :=
+  h/f*Int[Sqrt[e+f*x]/(Sqrt[a+b*x]*Sqrt[c+d*x]),x] + (f*g-e*h)/f*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && SimplerQ[a+b*x,e+f*x] && SimplerQ[c+d*x,e+f*x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_),x_Symbol] :=
+  h/b*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p,x] + (b*g-a*h)/b*Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]] && Not[SumSimplerQ[p,1]])
+
+
+Int[(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_/((a_.+b_.*x_)*(c_.+d_.*x_)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)*(g+h*x)^q/(a+b*x),x] - 
+  (d*e-c*f)/(b*c-a*d)*Int[(e+f*x)^(p-1)*(g+h*x)^q/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,q},x] && RationalQ[p] && 0<p<1
+
+
+Int[1/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  -2*Sqrt[d*(e+f*x)/(d*e-c*f)]*Sqrt[d*(g+h*x)/(d*g-c*h)]/((b*c-a*d)*Sqrt[-f/(d*e-c*f)]*Sqrt[e+f*x]*Sqrt[g+h*x])*
+    EllipticPi[-b*(d*e-c*f)/(f*(b*c-a*d)),ArcSin[Sqrt[-f/(d*e-c*f)]*Sqrt[c+d*x]],h*(d*e-c*f)/(f*(d*g-c*h))] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[(c_.+d_.*x_)^n_/((a_.+b_.*x_)*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  Int[ExpandIntegrand[1/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),(c+d*x)^(n+1/2)/(a+b*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && IntegerQ[n+1/2]
+
+
+Int[Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]/((a_.+b_.*x_)*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  (b*e-a*f)*(b*g-a*h)/b^2*Int[1/((a+b*x)*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
+  1/b^2*Int[(b*f*g+b*e*h-a*f*h+b*f*h*x)/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[1/(Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  -2*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/
+    ((b*g-a*h)*Sqrt[c+d*x]*Sqrt[e+f*x])*
+    Subst[Int[1/(Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]*Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)]),x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[Sqrt[c_.+d_.*x_]/((a_.+b_.*x_)^(3/2)*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  -2*(d*g-c*h)*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*
+    Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/((b*g-a*h)^2*Sqrt[c+d*x]*Sqrt[e+f*x])*
+    Subst[Int[Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]/Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)],x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[Sqrt[a_.+b_.*x_]/(Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  2*(a+b*x)*Sqrt[(b*g-a*h)*(c+d*x)/((d*g-c*h)*(a+b*x))]*Sqrt[(b*g-a*h)*(e+f*x)/((f*g-e*h)*(a+b*x))]/(Sqrt[c+d*x]*Sqrt[e+f*x])*
+    Subst[Int[1/((h-b*x^2)*Sqrt[1+(b*c-a*d)*x^2/(d*g-c*h)]*Sqrt[1+(b*e-a*f)*x^2/(f*g-e*h)]),x],x,Sqrt[g+h*x]/Sqrt[a+b*x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[1/((a_.+b_.*x_)^(3/2)*Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  -d/(b*c-a*d)*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
+  b/(b*c-a*d)*Int[Sqrt[c+d*x]/((a+b*x)^(3/2)*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[Sqrt[a_.+b_.*x_]*Sqrt[c_.+d_.*x_]/(Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[g+h*x]/(h*Sqrt[e+f*x]) + 
+  (d*e-c*f)*(b*f*g+b*e*h-2*a*f*h)/(2*f^2*h)*Int[1/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] + 
+  (a*d*f*h-b*(d*f*g+d*e*h-c*f*h))/(2*f^2*h)*Int[Sqrt[e+f*x]/(Sqrt[a+b*x]*Sqrt[c+d*x]*Sqrt[g+h*x]),x] - 
+  (d*e-c*f)*(f*g-e*h)/(2*f*h)*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*(e+f*x)^(3/2)*Sqrt[g+h*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[(a_.+b_.*x_)^(3/2)/(Sqrt[c_.+d_.*x_]*Sqrt[e_.+f_.*x_]*Sqrt[g_.+h_.*x_]),x_Symbol] :=
+  b/d*Int[Sqrt[a+b*x]*Sqrt[c+d*x]/(Sqrt[e+f*x]*Sqrt[g+h*x]),x] - 
+  (b*c-a*d)/d*Int[Sqrt[a+b*x]/(Sqrt[c+d*x]*Sqrt[e+f*x]*Sqrt[g+h*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && IntegersQ[p,q]
+
+
+Int[(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_,x_Symbol] :=
+  h/b*Int[(a+b*x)^(m+1)*(c+d*x)^n*(e+f*x)^p*(g+h*x)^(q-1),x] + 
+  (b*g-a*h)/b*Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^(q-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && PositiveIntegerQ[q] && 
+  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]] && Not[SumSimplerQ[p,1]])
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*(e_.+f_.*x_)^p_.*(g_.+h_.*x_)^q_.,x_Symbol] :=
+  Defer[Int][(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x]
+
+
+Int[(a_.+b_.*u_)^m_.*(c_.+d_.*u_)^n_.*(e_.+f_.*u_)^p_.*(g_.+h_.*u_)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x] && LinearQ[u,x] && NeQ[u-x,0]
+
+
+Int[(i_.*(a_.+b_.*x_)^m_*(c_.+d_.*x_)^n_*(e_.+f_.*x_)^p_*(g_.+h_.*x_)^q_)^r_,x_Symbol] :=
+  (i*(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q)^r/((a+b*x)^(m*r)*(c+d*x)^(n*r)*(e+f*x)^(p*r)*(g+h*x)^(q*r))*
+    Int[(a+b*x)^(m*r)*(c+d*x)^(n*r)*(e+f*x)^(p*r)*(g+h*x)^(q*r),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q,r},x]
+
+
+Int[u_^m_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m,x] /;
+FreeQ[m,x] && LinearQ[u,x] && Not[LinearMatchQ[u,x]]
+
+
+Int[u_^m_.*v_^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n,x] /;
+FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
+FreeQ[{m,n,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
+
+
+Int[u_^m_.*v_^n_.*w_^p_.*z_^q_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p*ExpandToSum[z,x]^q,x] /;
+FreeQ[{m,n,p,q},x] && LinearQ[{u,v,w,z},x] && Not[LinearMatchQ[{u,v,w,z},x]]
+
+
+
+`)
+
+func resourcesRubi111LinearBinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi111LinearBinomialProductsM, nil
+}
+
+func resourcesRubi111LinearBinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi111LinearBinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.1.1 Linear binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi113GeneralBinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.1.3 General Binomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.1 (a+b x^n)^p*)
+
+
+Int[(b_.*x_^n_)^p_,x_Symbol] :=
+  b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(n*p),x] /;
+FreeQ[{b,n,p},x]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,p},x] && FractionQ[n] && IntegerQ[1/n]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  x*(a+b*x^n)^(p+1)/a /;
+FreeQ[{a,b,n,p},x] && EqQ[1/n+p+1,0]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -x*(a+b*x^n)^(p+1)/(a*n*(p+1)) +
+  (n*(p+1)+1)/(a*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,n,p},x] && ILtQ[Simplify[1/n+p+1],0] && NeQ[p,-1]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[x^(n*p)*(b+a*x^(-n))^p,x] /;
+FreeQ[{a,b},x] && LtQ[n,0] && IntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b},x] && IGtQ[n,0] && IGtQ[p,0]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  x*(a+b*x^n)^p/(n*p+1) +
+  a*n*p/(n*p+1)*Int[(a+b*x^n)^(p-1),x] /;
+FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,0] && 
+  (IntegerQ[2*p] || n==2 && IntegerQ[4*p] || n==2 && IntegerQ[3*p] || Denominator[p+1/n]<Denominator[p])
+
+
+Int[1/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
+  2/(a^(5/4)*Rt[b/a,2])*EllipticE[1/2*ArcTan[Rt[b/a,2]*x],2] /;
+FreeQ[{a,b},x] && PosQ[b/a] && PositiveQ[a]
+
+
+Int[1/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
+  (1+b*x^2/a)^(1/4)/(a*(a+b*x^2)^(1/4))*Int[1/(1+b*x^2/a)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a] && Not[PositiveQ[a]]
+
+
+Int[1/(a_+b_.*x_^2)^(7/6),x_Symbol] :=
+  1/((a +b*x^2)^(2/3)*(a/(a+b*x^2))^(2/3))*Subst[Int[1/(1-b*x^2)^(1/3),x],x,x/Sqrt[a+b*x^2]] /;
+FreeQ[{a,b},x]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -x*(a+b*x^n)^(p+1)/(a*n*(p+1)) +
+  (n*(p+1)+1)/(a*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b},x] && IGtQ[n,0] && LtQ[p,-1] && 
+  (IntegerQ[2*p] || n==2 && IntegerQ[4*p] || n==2 && IntegerQ[3*p] || Denominator[p+1/n]<Denominator[p])
+
+
+Int[1/(a_+b_.*x_^3),x_Symbol] :=
+  1/(3*Rt[a,3]^2)*Int[1/(Rt[a,3]+Rt[b,3]*x),x] + 
+  1/(3*Rt[a,3]^2)*Int[(2*Rt[a,3]-Rt[b,3]*x)/(Rt[a,3]^2-Rt[a,3]*Rt[b,3]*x+Rt[b,3]^2*x^2),x] /;
+FreeQ[{a,b},x]
+
+
+(* Int[1/(a_+b_.*x_^5),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,5]], s=Denominator[Rt[a/b,5]]},
+  r/(5*a)*Int[1/(r+s*x),x] + 
+  2*r/(5*a)*Int[(r-1/4*(1-Sqrt[5])*s*x)/(r^2-1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x] + 
+  2*r/(5*a)*Int[(r-1/4*(1+Sqrt[5])*s*x)/(r^2-1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b},x] && PosQ[a/b] *)
+
+
+(* Int[1/(a_+b_.*x_^5),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,5]], s=Denominator[Rt[-a/b,5]]},
+  r/(5*a)*Int[1/(r-s*x),x] + 
+  2*r/(5*a)*Int[(r+1/4*(1-Sqrt[5])*s*x)/(r^2+1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x] + 
+  2*r/(5*a)*Int[(r+1/4*(1+Sqrt[5])*s*x)/(r^2+1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b},x] && NegQ[a/b] *)
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
+  u=Int[(r-s*Cos[(2*k-1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  r/(a*n)*Int[1/(r+s*x),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-1)/2}],x]] /;
+FreeQ[{a,b},x] && IGtQ[(n-3)/2,0] && PosQ[a/b]
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
+  u=Int[(r+s*Cos[(2*k-1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  r/(a*n)*Int[1/(r-s*x),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-1)/2}],x]] /;
+FreeQ[{a,b},x] && IGtQ[(n-3)/2,0] && NegQ[a/b]
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+  1/(Rt[a,2]*Rt[b,2])*ArcTan[Rt[b,2]*x/Rt[a,2]] /;
+FreeQ[{a,b},x] && PosQ[a/b] && (PositiveQ[a] || PositiveQ[b])
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+  -1/(Rt[-a,2]*Rt[-b,2])*ArcTan[Rt[-b,2]*x/Rt[-a,2]] /;
+FreeQ[{a,b},x] && PosQ[a/b] && (NegativeQ[a] || NegativeQ[b])
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+(*Rt[b/a,2]/b*ArcTan[Rt[b/a,2]*x] /; *)
+  Rt[a/b,2]/a*ArcTan[x/Rt[a/b,2]] /;
+FreeQ[{a,b},x] && PosQ[a/b]
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+  1/(Rt[a,2]*Rt[-b,2])*ArcTanh[Rt[-b,2]*x/Rt[a,2]] /;
+FreeQ[{a,b},x] && NegQ[a/b] && (PositiveQ[a] || NegativeQ[b])
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+  -1/(Rt[-a,2]*Rt[b,2])*ArcTanh[Rt[b,2]*x/Rt[-a,2]] /;
+FreeQ[{a,b},x] && NegQ[a/b] && (NegativeQ[a] || PositiveQ[b])
+
+
+Int[1/(a_+b_.*x_^2),x_Symbol] :=
+(*-Rt[-b/a,2]/b*ArcTanh[Rt[-b/a,2]*x] /; *)
+  Rt[-a/b,2]/a*ArcTanh[x/Rt[-a/b,2]] /;
+FreeQ[{a,b},x] && NegQ[a/b]
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u, v},
+  u=Int[(r-s*Cos[(2*k-1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x] + 
+    Int[(r+s*Cos[(2*k-1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  2*r^2/(a*n)*Int[1/(r^2+s^2*x^2),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-2)/4}],x]] /;
+FreeQ[{a,b},x] && IGtQ[(n-2)/4,0] && PosQ[a/b]
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
+  u=Int[(r-s*Cos[(2*k*Pi)/n]*x)/(r^2-2*r*s*Cos[(2*k*Pi)/n]*x+s^2*x^2),x] + 
+    Int[(r+s*Cos[(2*k*Pi)/n]*x)/(r^2+2*r*s*Cos[(2*k*Pi)/n]*x+s^2*x^2),x];
+  2*r^2/(a*n)*Int[1/(r^2-s^2*x^2),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-2)/4}],x]] /;
+FreeQ[{a,b},x] && IGtQ[(n-2)/4,0] && NegQ[a/b]
+
+
+Int[1/(a_+b_.*x_^4),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,2]], s=Denominator[Rt[a/b,2]]},
+  1/(2*r)*Int[(r-s*x^2)/(a+b*x^4),x] + 1/(2*r)*Int[(r+s*x^2)/(a+b*x^4),x]] /;
+FreeQ[{a,b},x] && (PositiveQ[a/b] || PosQ[a/b] && AtomQ[SplitProduct[SumBaseQ,a]] && AtomQ[SplitProduct[SumBaseQ,b]])
+
+
+Int[1/(a_+b_.*x_^4),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  r/(2*a)*Int[1/(r-s*x^2),x] + r/(2*a)*Int[1/(r+s*x^2),x]] /;
+FreeQ[{a,b},x] && Not[PositiveQ[a/b]]
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,4]], s=Denominator[Rt[a/b,4]]},
+  r/(2*Sqrt[2]*a)*Int[(Sqrt[2]*r-s*x^(n/4))/(r^2-Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x] + 
+  r/(2*Sqrt[2]*a)*Int[(Sqrt[2]*r+s*x^(n/4))/(r^2+Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x]] /;
+FreeQ[{a,b},x] && IGtQ[n/4,1] && PositiveQ[a/b]
+
+
+Int[1/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  r/(2*a)*Int[1/(r-s*x^(n/2)),x] + r/(2*a)*Int[1/(r+s*x^(n/2)),x]] /;
+FreeQ[{a,b},x] && IGtQ[n/4,1] && Not[PositiveQ[a/b]]
+
+
+Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
+  ArcSinh[Rt[b,2]*x/Sqrt[a]]/Rt[b,2] /;
+FreeQ[{a,b},x] && PositiveQ[a] && PosQ[b]
+
+
+Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
+  ArcSin[Rt[-b,2]*x/Sqrt[a]]/Rt[-b,2] /;
+FreeQ[{a,b},x] && PositiveQ[a] && NegQ[b]
+
+
+Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
+  Subst[Int[1/(1-b*x^2),x],x,x/Sqrt[a+b*x^2]] /;
+FreeQ[{a,b},x] && Not[PositiveQ[a]]
+
+
+(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -Sqrt[2]*(1+Sqrt[3])*(1+Sqrt[3]+q*x)^2*Sqrt[(1+q^3*x^3)/(1+Sqrt[3]+q*x)^4]/(3^(1/4)*q*Sqrt[a+b*x^3])*
+    EllipticF[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && PosQ[a] *)
+
+
+(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[a/b,3]},
+  2*Sqrt[2+Sqrt[3]]*(q+x)*Sqrt[(q^2-q*x+x^2)/((1+Sqrt[3])*q+x)^2]/
+    (3^(1/4)*Sqrt[a+b*x^3]*Sqrt[q*(q+x)/((1+Sqrt[3])*q+x)^2])*
+    EllipticF[ArcSin[((1-Sqrt[3])*q+x)/((1+Sqrt[3])*q+x)],-7-4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && PosQ[a] && EqQ[b^2,1] *)
+
+
+(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -2*Sqrt[2+Sqrt[3]]*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/
+    (3^(1/4)*q*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
+    EllipticF[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && PosQ[a] *)
+
+
+Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  2*Sqrt[2+Sqrt[3]]*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1+Sqrt[3])*s+r*x)^2]/
+    (3^(1/4)*r*Sqrt[a+b*x^3]*Sqrt[s*(s+r*x)/((1+Sqrt[3])*s+r*x)^2])*
+    EllipticF[ArcSin[((1-Sqrt[3])*s+r*x)/((1+Sqrt[3])*s+r*x)],-7-4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && PosQ[a]
+
+
+(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[a/b,3]},
+  2*Sqrt[2-Sqrt[3]]*(q+x)*Sqrt[(q^2-q*x+x^2)/((1-Sqrt[3])*q+x)^2]/
+    (3^(1/4)*Sqrt[a+b*x^3]*Sqrt[-q*(q+x)/((1-Sqrt[3])*q+x)^2])*
+    EllipticF[ArcSin[((1+Sqrt[3])*q+x)/((1-Sqrt[3])*q+x)],-7+4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && NegQ[a] && EqQ[b^2,1] *)
+
+
+(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -2*Sqrt[2-Sqrt[3]]*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1-Sqrt[3]+q*x)^2]/
+    (3^(1/4)*q*Sqrt[a+b*x^3]*Sqrt[-(1+q*x)/(1-Sqrt[3]+q*x)^2])*
+    EllipticF[ArcSin[(1+Sqrt[3]+q*x)/(-1+Sqrt[3]-q*x)],-7+4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && NegQ[a] *)
+
+
+Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  2*Sqrt[2-Sqrt[3]]*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1-Sqrt[3])*s+r*x)^2]/
+    (3^(1/4)*r*Sqrt[a+b*x^3]*Sqrt[-s*(s+r*x)/((1-Sqrt[3])*s+r*x)^2])*
+    EllipticF[ArcSin[((1+Sqrt[3])*s+r*x)/((1-Sqrt[3])*s+r*x)],-7+4*Sqrt[3]]] /;
+FreeQ[{a,b},x] && NegQ[a]
+
+
+Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b/a,4]},
+  (1+q^2*x^2)*Sqrt[(a+b*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^4])*EllipticF[2*ArcTan[q*x],1/2]] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  EllipticF[ArcSin[Rt[-b,4]*x/Rt[a,4]],-1]/(Rt[a,4]*Rt[-b,4]) /;
+FreeQ[{a,b},x] && NegQ[b/a] && PositiveQ[a]
+
+
+Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*b,2]},
+  Sqrt[-a+q*x^2]*Sqrt[(a+q*x^2)/q]/(Sqrt[2]*Sqrt[-a]*Sqrt[a+b*x^4])*
+    EllipticF[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
+  IntegerQ[q]] /;
+FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
+
+
+Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*b,2]},
+  Sqrt[(a-q*x^2)/(a+q*x^2)]*Sqrt[(a+q*x^2)/q]/(Sqrt[2]*Sqrt[a+b*x^4]*Sqrt[a/(a+q*x^2)])*
+    EllipticF[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2]] /;
+FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
+
+
+Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  Sqrt[1+b*x^4/a]/Sqrt[a+b*x^4]*Int[1/Sqrt[1+b*x^4/a],x] /;
+FreeQ[{a,b},x] && NegQ[b/a] && Not[PositiveQ[a]]
+
+
+Int[1/Sqrt[a_+b_.*x_^6],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
+    (2*3^(1/4)*s*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
+    EllipticF[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
+FreeQ[{a,b},x]
+
+
+Int[1/Sqrt[a_+b_.*x_^8],x_Symbol] :=
+  1/2*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] + 
+  1/2*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
+FreeQ[{a,b},x]
+
+
+Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
+  2*x/(a+b*x^2)^(1/4) - a*Int[1/(a+b*x^2)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
+  2/(a^(1/4)*Rt[-b/a,2])*EllipticE[1/2*ArcSin[Rt[-b/a,2]*x],2] /;
+FreeQ[{a,b},x] && NegQ[b/a] && PositiveQ[a]
+
+
+Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
+  (1+b*x^2/a)^(1/4)/(a+b*x^2)^(1/4)*Int[1/(1+b*x^2/a)^(1/4),x] /;
+FreeQ[{a,b},x] && NegQ[b/a] && Not[PositiveQ[a]]
+
+
+Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
+  2/(a^(3/4)*Rt[b/a,2])*EllipticF[1/2*ArcTan[Rt[b/a,2]*x],2] /;
+FreeQ[{a,b},x] && PositiveQ[a] && PosQ[b/a]
+
+
+Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
+  2/(a^(3/4)*Rt[-b/a,2])*EllipticF[1/2*ArcSin[Rt[-b/a,2]*x],2] /;
+FreeQ[{a,b},x] && PositiveQ[a] && NegQ[b/a]
+
+
+Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
+  (1+b*x^2/a)^(3/4)/(a+b*x^2)^(3/4)*Int[1/(1+b*x^2/a)^(3/4),x] /;
+FreeQ[{a,b},x] && Not[PositiveQ[a]]
+
+
+Int[1/(a_+b_.*x_^2)^(1/3),x_Symbol] :=
+  3*Sqrt[b*x^2]/(2*b*x)*Subst[Int[x/Sqrt[-a+x^3],x],x,(a+b*x^2)^(1/3)] /;
+FreeQ[{a,b},x]
+
+
+Int[1/(a_+b_.*x_^2)^(2/3),x_Symbol] :=
+  3*Sqrt[b*x^2]/(2*b*x)*Subst[Int[1/Sqrt[-a+x^3],x],x,(a+b*x^2)^(1/3)] /;
+FreeQ[{a,b},x]
+
+
+Int[1/(a_+b_.*x_^4)^(3/4),x_Symbol] :=
+  x^3*(1+a/(b*x^4))^(3/4)/(a+b*x^4)^(3/4)*Int[1/(x^3*(1+a/(b*x^4))^(3/4)),x] /;
+FreeQ[{a,b},x]
+
+
+Int[1/(a_+b_.*x_^2)^(1/6),x_Symbol] :=
+  3*x/(2*(a+b*x^2)^(1/6)) - a/2*Int[1/(a+b*x^2)^(7/6),x] /;
+FreeQ[{a,b},x]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^(p+1/n)*Subst[Int[1/(1-b*x^n)^(p+1/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
+FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,-1] && LtQ[p,0] && NeQ[p,-1/2] && IntegerQ[p+1/n]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (a/(a+b*x^n))^(p+1/n)*(a+b*x^n)^(p+1/n)*Subst[Int[1/(1-b*x^n)^(p+1/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
+FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,-1] && LtQ[p,0] && NeQ[p,-1/2] && Denominator[p+1/n]<Denominator[p]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,p},x] && ILtQ[n,0]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*x^(k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,p},x] && FractionQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,n},x] && IGtQ[p,0]
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^p*x*Hypergeometric2F1[-p,1/n,1/n+1,-b*x^n/a] /;
+FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && Not[ILtQ[Simplify[1/n+p],0]] && 
+  (IntegerQ[p] || PositiveQ[a])
+
+
+(* Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  x*(a+b*x^n)^(p+1)/a*Hypergeometric2F1[1,1/n+p+1,1/n+1,-b*x^n/a] /;
+FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && Not[ILtQ[Simplify[1/n+p],0]] && 
+  Not[IntegerQ[p] || PositiveQ[a]] *)
+
+
+Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(1+b*x^n/a)^p,x] /;
+FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && 
+  Not[ILtQ[Simplify[1/n+p],0]] && Not[IntegerQ[p] || PositiveQ[a]]
+
+
+Int[(a_.+b_.*u_^n_)^p_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p,x],x,u] /;
+FreeQ[{a,b,n,p},x] && LinearQ[u,x] && NeQ[u,x]
+
+
+Int[(a1_.+b1_.*x_^n_)^p_.*(a2_.+b2_.*x_^n_)^p_.,x_Symbol] :=
+  Int[(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,n,p},x] && EqQ[a2*b1+a1*b2,0] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
+  x*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(2*n*p+1) + 
+  2*a1*a2*n*p/(2*n*p+1)*Int[(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
+FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2,0] && IGtQ[2*n,0] && GtQ[p,0] && (IntegerQ[2*p] || Denominator[p+1/n]<Denominator[p])
+
+
+Int[(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
+  -x*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*n*(p+1)) + 
+  (2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2,0] && IGtQ[2*n,0] && LtQ[p,-1] && (IntegerQ[2*p] || Denominator[p+1/n]<Denominator[p])
+
+
+Int[(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^2,x],x,1/x] /;
+FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2,0] && ILtQ[2*n,0]
+
+
+Int[(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[2*n]},
+  k*Subst[Int[x^(k-1)*(a1+b1*x^(k*n))^p*(a2+b2*x^(k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2,0] && FractionQ[2*n]
+
+
+Int[(a1_.+b1_.*x_^n_)^p_*(a2_.+b2_.*x_^n_)^p_,x_Symbol] :=
+  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*Int[(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,n,p},x] && EqQ[a2*b1+a1*b2,0] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.2 (c x)^m (a+b x^n)^p*)
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  Int[(c*x)^m*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[(c_.*x_)^m_.*(b_.*x_^n_)^p_,x_Symbol] :=
+  c^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1),x],x,x^n] /;
+FreeQ[{b,c,m,n,p},x] && (IntegerQ[m] || PositiveQ[c]) && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(c_.*x_)^m_.*(b_.*x_^n_.)^p_,x_Symbol] :=
+  c^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p),x] /;
+FreeQ[{b,c,m,n,p},x] && (IntegerQ[m] || PositiveQ[c]) && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[(c_*x_)^m_*(b_.*x_^n_.)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p,x] /;
+FreeQ[{b,c,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  Log[RemoveContent[a+b*x^n,x]]/(b*n) /;
+FreeQ[{a,b,m,n},x] && EqQ[m,n-1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (a+b*x^n)^(p+1)/(b*n*(p+1)) /;
+FreeQ[{a,b,m,n,p},x] && EqQ[m,n-1] && NeQ[p,-1]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
+  (a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) /;
+FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2,0] && EqQ[m,2*n-1] && NeQ[p,-1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[x^(m+n*p)*(b+a*x^(-n))^p,x] /;
+FreeQ[{a,b,m,n},x] && IntegerQ[p] && NegQ[n]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[(m+1)/n+p+1] && NeQ[m+1]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p+1] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a1+b1*x)^p*(a2+b2*x)^p,x],x,x^n] /;
+FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[(m+1)/(2*n)]]
+
+
+Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[(m+1)/(2*n)]]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[x_^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  x^(m+1)*(a+b*x^n)^(p+1)/(a*(m+1)) - 
+  b*(m+n*(p+1)+1)/(a*(m+1))*Int[x^(m+n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,m,n,p},x] && NegativeIntegerQ[Simplify[(m+1)/n+p+1]] && NeQ[m+1]
+
+
+Int[x_^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  x^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*(m+1)) - 
+  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*(m+1))*Int[x^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[Simplify[(m+1)/(2*n)+p+1]] && NeQ[m+1]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
+  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,m,n,p},x] && NegativeIntegerQ[Simplify[(m+1)/n+p+1]] && NeQ[p+1]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) +
+  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[Simplify[(m+1)/(2*n)+p+1]] && NeQ[p+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,b,p},x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=GCD[m+1,2*n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(a1+b1*x^(n/k))^p*(a2+b2*x^(n/k))^p,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && IntegerQ[m]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+1)) - 
+  b*n*p/(c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && Not[NegativeIntegerQ[(m+n*p+n+1)/n]] && 
+  IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+1)) - 
+  2*b1*b2*n*p/(c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p>0 && NeQ[m+2*n*p+1] && 
+  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+n*p+1)) +
+  a*n*p/(m+n*p+1)*Int[(c*x)^m*(a+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c,m},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && NeQ[m+n*p+1] && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+2*n*p+1)) + 
+  2*a1*a2*n*p/(m+2*n*p+1)*Int[(c*x)^m*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p>0 && NeQ[m+2*n*p+1] && 
+  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[x_^2/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
+  x*(1+a/(b*x^4))^(1/4)/(b*(a+b*x^4)^(1/4))*Int[1/(x^3*(1+a/(b*x^4))^(5/4)),x] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[x_^m_/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
+  x^(m-3)/(b*(m-4)*(a+b*x^4)^(1/4)) - a*(m-3)/(b*(m-4))*Int[x^(m-4)/(a+b*x^4)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a] && PositiveIntegerQ[(m-2)/4]
+
+
+Int[x_^m_/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
+  x^(m+1)/(a*(m+1)*(a+b*x^4)^(1/4)) - b*m/(a*(m+1))*Int[x^(m+4)/(a+b*x^4)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a] && NegativeIntegerQ[(m-2)/4]
+
+
+Int[Sqrt[c_.*x_]/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
+  Sqrt[c*x]*(1+a/(b*x^2))^(1/4)/(b*(a+b*x^2)^(1/4))*Int[1/(x^2*(1+a/(b*x^2))^(5/4)),x] /;
+FreeQ[{a,b,c},x] && PosQ[b/a]
+
+
+Int[(c_.*x_)^m_/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
+  2*c*(c*x)^(m-1)/(b*(2*m-3)*(a+b*x^2)^(1/4)) - 2*a*c^2*(m-1)/(b*(2*m-3))*Int[(c*x)^(m-2)/(a+b*x^2)^(5/4),x] /;
+FreeQ[{a,b,c},x] && PosQ[b/a] && IntegerQ[2*m] && m>3/2 
+
+
+Int[(c_.*x_)^m_/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
+  (c*x)^(m+1)/(a*c*(m+1)*(a+b*x^2)^(1/4)) - b*(2*m+1)/(2*a*c^2*(m+1))*Int[(c*x)^(m+2)/(a+b*x^2)^(5/4),x] /;
+FreeQ[{a,b,c},x] && PosQ[b/a] && IntegerQ[2*m] && m<-1
+
+
+Int[x_^2/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
+  -1/(b*x*(a+b*x^4)^(1/4)) - 1/b*Int[1/(x^2*(a+b*x^4)^(1/4)),x] /;
+FreeQ[{a,b},x] && NegQ[b/a]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*n*(p+1)) -
+  c^n*(m-n+1)/(b*n*(p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m+1>n && 
+  Not[NegativeIntegerQ[(m+n*(p+1)+1)/n]] && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+(* Int[(c_.*x_)^m_.*u_^p_*v_^p_,x_Symbol] :=
+  With[{a=BinomialParts[u,x][[1]],b=BinomialParts[u,x][[2]],n=BinomialParts[u,x][[3]]},
+  c^(n-1)*(c*x)^(m-n+1)*u^(p+1)*v^(p+1)/(b*n*(p+1)) -
+  c^n*(m-n+1)/(b*n*(p+1))*Int[(c*x)^(m-n)*u^(p+1)*v^(p+1),x] /;
+ PositiveIntegerQ[n] && m+1>n && Not[NegativeIntegerQ[(m+n*(p+1)+1)/n]] && 
+   IntBinomialQ[a,b,c,n,m,p,x]] /;
+FreeQ[c,x] && BinomialQ[u*v,x] && RationalQ[m,p] && p<-1 *)
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) - 
+  c^(2*n)*(m-2*n+1)/(2*b1*b2*n*(p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p<-1 && m+1>2*n && 
+  Not[NegativeIntegerQ[(m+2*n*(p+1)+1)/(2*n)]] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
+  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,m},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) + 
+  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p<-1 && 
+  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[x_/(a_+b_.*x_^3),x_Symbol] :=
+  -1/(3*Rt[a,3]*Rt[b,3])*Int[1/(Rt[a,3]+Rt[b,3]*x),x] + 
+  1/(3*Rt[a,3]*Rt[b,3])*Int[(Rt[a,3]+Rt[b,3]*x)/(Rt[a,3]^2-Rt[a,3]*Rt[b,3]*x+Rt[b,3]^2*x^2),x] /;
+FreeQ[{a,b},x]
+
+
+(* Int[x_^m_./(a_+b_.*x_^5),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,5]], s=Denominator[Rt[a/b,5]]},
+  (-1)^m*r^(m+1)/(5*a*s^m)*Int[1/(r+s*x),x] + 
+  2*r^(m+1)/(5*a*s^m)*Int[(r*Cos[m*Pi/5]-s*Cos[(m+1)*Pi/5]*x)/(r^2-1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x] + 
+  2*r^(m+1)/(5*a*s^m)*Int[(r*Cos[3*m*Pi/5]-s*Cos[3*(m+1)*Pi/5]*x)/(r^2-1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m] && m<4 && PosQ[a/b] *)
+
+
+(* Int[x_^m_./(a_+b_.*x_^5),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,5]], s=Denominator[Rt[-a/b,5]]},
+  (r^(m+1)/(5*a*s^m))*Int[1/(r-s*x),x] + 
+  2*(-1)^m*r^(m+1)/(5*a*s^m)*Int[(r*Cos[m*Pi/5]+s*Cos[(m+1)*Pi/5]*x)/(r^2+1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x] + 
+  2*(-1)^m*r^(m+1)/(5*a*s^m)*Int[(r*Cos[3*m*Pi/5]+s*Cos[3*(m+1)*Pi/5]*x)/(r^2+1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m] && m<4 && NegQ[a/b] *)
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
+  u=Int[(r*Cos[(2*k-1)*m*Pi/n]-s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  -(-r)^(m+1)/(a*n*s^m)*Int[1/(r+s*x),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-1)/2}],x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[(n-1)/2] && PositiveIntegerQ[m] && m<n-1 && PosQ[a/b]
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
+  u=Int[(r*Cos[(2*k-1)*m*Pi/n]+s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  r^(m+1)/(a*n*s^m)*Int[1/(r-s*x),x] - Dist[2*(-r)^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-1)/2}],x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-1)/2] && PositiveIntegerQ[m] && m<n-1 && NegQ[a/b]
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
+  u=Int[(r*Cos[(2*k-1)*m*Pi/n]-s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x] + 
+    Int[(r*Cos[(2*k-1)*m*Pi/n]+s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
+  2*(-1)^(m/2)*r^(m+2)/(a*n*s^m)*Int[1/(r^2+s^2*x^2),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-2)/4}],x]] /;
+ FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-2)/4] && PositiveIntegerQ[m] && m<n-1 && PosQ[a/b]
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
+  u=Int[(r*Cos[2*k*m*Pi/n]-s*Cos[2*k*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[2*k*Pi/n]*x+s^2*x^2),x] + 
+    Int[(r*Cos[2*k*m*Pi/n]+s*Cos[2*k*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[2*k*Pi/n]*x+s^2*x^2),x];
+  2*r^(m+2)/(a*n*s^m)*Int[1/(r^2-s^2*x^2),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-2)/4}],x]] /;
+ FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-2)/4] && PositiveIntegerQ[m] && m<n-1 && NegQ[a/b]
+
+
+Int[x_^2/(a_+b_.*x_^4),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,2]], s=Denominator[Rt[a/b,2]]},
+  1/(2*s)*Int[(r+s*x^2)/(a+b*x^4),x] - 
+  1/(2*s)*Int[(r-s*x^2)/(a+b*x^4),x]] /;
+FreeQ[{a,b},x] && (PositiveQ[a/b] || PosQ[a/b] && AtomQ[SplitProduct[SumBaseQ,a]] && AtomQ[SplitProduct[SumBaseQ,b]])
+
+
+Int[x_^2/(a_+b_.*x_^4),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  s/(2*b)*Int[1/(r+s*x^2),x] -
+  s/(2*b)*Int[1/(r-s*x^2),x]] /;
+FreeQ[{a,b},x] && Not[PositiveQ[a/b]]
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,4]], s=Denominator[Rt[a/b,4]]},
+  s^3/(2*Sqrt[2]*b*r)*Int[x^(m-n/4)/(r^2-Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x] -
+  s^3/(2*Sqrt[2]*b*r)*Int[x^(m-n/4)/(r^2+Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && m<n-1 && PositiveQ[a/b]
+
+
+Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  r/(2*a)*Int[x^m/(r+s*x^(n/2)),x] +
+  r/(2*a)*Int[x^m/(r-s*x^(n/2)),x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && m<n/2 && Not[PositiveQ[a/b]]
+
+
+Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  s/(2*b)*Int[x^(m-n/2)/(r+s*x^(n/2)),x] -
+  s/(2*b)*Int[x^(m-n/2)/(r-s*x^(n/2)),x]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && n/2<=m<n && Not[PositiveQ[a/b]]
+
+
+Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
+  Int[PolynomialDivide[x^m,(a+b*x^n),x],x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m,n] && m>2*n-1
+
+
+Int[x_/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  Sqrt[2]*s/(Sqrt[2+Sqrt[3]]*r)*Int[1/Sqrt[a+b*x^3],x] + 1/r*Int[((1-Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
+FreeQ[{a,b},x] && PosQ[a]
+
+
+Int[x_/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  -Sqrt[2]*s/(Sqrt[2-Sqrt[3]]*r)*Int[1/Sqrt[a+b*x^3],x] + 1/r*Int[((1+Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
+FreeQ[{a,b},x] && NegQ[a]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b/a,2]},
+  1/q*Int[1/Sqrt[a+b*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^4],x]] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-b/a,2]},
+  1/q*Int[1/Sqrt[a+b*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^4],x]] /;
+FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-b/a,2]},
+  -1/q*Int[1/Sqrt[a+b*x^4],x] + 1/q*Int[(1+q*x^2)/Sqrt[a+b*x^4],x]] /;
+FreeQ[{a,b},x] && NegQ[b/a]
+
+
+Int[x_^4/Sqrt[a_+b_.*x_^6],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  (Sqrt[3]-1)*s^2/(2*r^2)*Int[1/Sqrt[a+b*x^6],x] - 1/(2*r^2)*Int[((Sqrt[3]-1)*s^2-2*r^2*x^4)/Sqrt[a+b*x^6],x]] /;
+FreeQ[{a,b},x]
+
+
+(* Int[x_^4/Sqrt[a_+b_.*x_^6],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  (1+Sqrt[3])*r*x*Sqrt[a+b*x^6]/(2*b*(s+(1+Sqrt[3])*r*x^2)) - 
+  3^(1/4)*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
+    (2*r^2*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
+    EllipticE[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4] - 
+  (1-Sqrt[3])*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
+    (4*3^(1/4)*r^2*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
+    EllipticF[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
+FreeQ[{a,b},x] *)
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^8],x_Symbol] :=
+  1/(2*Rt[b/a,4])*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] - 
+  1/(2*Rt[b/a,4])*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^2/(a_+b_.*x_^4)^(1/4),x_Symbol] :=
+  x^3/(2*(a+b*x^4)^(1/4)) - a/2*Int[x^2/(a+b*x^4)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[x_^2/(a_+b_.*x_^4)^(1/4),x_Symbol] :=
+  (a+b*x^4)^(3/4)/(2*b*x) + a/(2*b)*Int[1/(x^2*(a+b*x^4)^(1/4)),x] /;
+FreeQ[{a,b},x] && NegQ[b/a]
+
+
+Int[1/(x_^2*(a_+b_.*x_^4)^(1/4)),x_Symbol] :=
+  -1/(x*(a+b*x^4)^(1/4)) - b*Int[x^2/(a+b*x^4)^(5/4),x] /;
+FreeQ[{a,b},x] && PosQ[b/a]
+
+
+Int[1/(x_^2*(a_+b_.*x_^4)^(1/4)),x_Symbol] :=
+  x*(1+a/(b*x^4))^(1/4)/(a+b*x^4)^(1/4)*Int[1/(x^3*(1+a/(b*x^4))^(1/4)),x] /;
+FreeQ[{a,b},x] && NegQ[b/a]
+
+
+Int[Sqrt[c_*x_]/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
+  x*Sqrt[c*x]/(a+b*x^2)^(1/4) - a/2*Int[Sqrt[c*x]/(a+b*x^2)^(5/4),x] /;
+FreeQ[{a,b,c},x] && PosQ[b/a]
+
+
+Int[Sqrt[c_*x_]/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
+  c*(a+b*x^2)^(3/4)/(b*Sqrt[c*x]) + a*c^2/(2*b)*Int[1/((c*x)^(3/2)*(a+b*x^2)^(1/4)),x] /;
+FreeQ[{a,b,c},x] && NegQ[b/a]
+
+
+Int[1/((c_.*x_)^(3/2)*(a_+b_.*x_^2)^(1/4)),x_Symbol] :=
+  -2/(c*Sqrt[c*x]*(a+b*x^2)^(1/4)) - b/c^2*Int[Sqrt[c*x]/(a+b*x^2)^(5/4),x] /;
+FreeQ[{a,b,c},x] && PosQ[b/a]
+
+
+Int[1/((c_.*x_)^(3/2)*(a_+b_.*x_^2)^(1/4)),x_Symbol] :=
+  Sqrt[c*x]*(1+a/(b*x^2))^(1/4)/(c^2*(a+b*x^2)^(1/4))*Int[1/(x^2*(1+a/(b*x^2))^(1/4)),x] /;
+FreeQ[{a,b,c},x] && NegQ[b/a]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*(m+n*p+1)) -
+  a*c^n*(m-n+1)/(b*(m+n*p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && NeQ[m+n*p+1] && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*(m+n*p+1)) -
+  a*c^n*(m-n+1)/(b*(m+n*p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && PositiveIntegerQ[n] && SumSimplerQ[m,-n] && NeQ[m+n*p+1] && NegativeIntegerQ[Simplify[(m+1)/n+p]]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(b1*b2*(m+2*n*p+1)) - 
+  a1*a2*c^(2*n)*(m-2*n+1)/(b1*b2*(m+2*n*p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m] && m>2*n-1 && 
+  NeQ[m+2*n*p+1] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(b1*b2*(m+2*n*p+1)) - 
+  a1*a2*c^(2*n)*(m-2*n+1)/(b1*b2*(m+2*n*p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && SumSimplerQ[m,-2*n] && NeQ[m+2*n*p+1] && 
+  NegativeIntegerQ[Simplify[(m+1)/(2*n)+p]]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) -
+  b*(m+n*(p+1)+1)/(a*c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) -
+  b*(m+n*(p+1)+1)/(a*c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && PositiveIntegerQ[n] && SumSimplerQ[m,n] && NegativeIntegerQ[Simplify[(m+1)/n+p]]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) - 
+  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m] && m<-1 && 
+  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) - 
+  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && SumSimplerQ[m,2*n] && 
+  NegativeIntegerQ[Simplify[(m+1)/(2*n)+p]]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/c*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/c^n)^p,x],x,(c*x)^(1/k)]] /;
+FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && FractionQ[m] && IntBinomialQ[a,b,c,n,m,p,x]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/c*Subst[Int[x^(k*(m+1)-1)*(a1+b1*x^(k*n)/c^n)^p*(a2+b2*x^(k*n)/c^n)^p,x],x,(c*x)^(1/k)]] /;
+FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && FractionQ[m] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^(p+(m+1)/n)*Subst[Int[x^m/(1-b*x^n)^(p+(m+1)/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[n] && RationalQ[p] && -1<p<0 && p!=-1/2 && IntegersQ[m,p+(m+1)/n]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (a1*a2)^(p+(m+1)/(2*n))*
+    Subst[Int[x^m/((1-b1*x^n)^(p+(m+1)/(2*n)+1)*(1-b2*x^n)^(p+(m+1)/(2*n)+1)),x],x,
+      x/((a1+b1*x^n)^(1/(2*n))*(a2+b2*x^n)^(1/(2*n)))] /;
+FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[p] && -1<p<0 && p!=-1/2 && 
+  IntegersQ[m,p+(m+1)/(2*n)]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (a/(a+b*x^n))^(p+(m+1)/n)*(a+b*x^n)^(p+(m+1)/n)*Subst[Int[x^m/(1-b*x^n)^(p+(m+1)/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[n] && RationalQ[p] && -1<p<0 && p!=-1/2 && IntegerQ[m] && 
+  Denominator[p+(m+1)/n]<Denominator[p]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (a1/(a1+b1*x^n))^(p+(m+1)/(2*n))*(a1+b1*x^n)^(p+(m+1)/(2*n))*(a2/(a2+b2*x^n))^(p+(m+1)/(2*n))*(a2+b2*x^n)^(p+(m+1)/(2*n))*
+    Subst[Int[x^m/((1-b1*x^n)^(p+(m+1)/(2*n)+1)*(1-b2*x^n)^(p+(m+1)/(2*n)+1)),x],x,
+      x/((a1+b1*x^n)^(1/(2*n))*(a2+b2*x^n)^(1/(2*n)))] /;
+FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[p] && -1<p<0 && p!=-1/2 && 
+  IntegerQ[m] && Denominator[p+(m+1)/(2*n)]<Denominator[p]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,p},x] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && IntegerQ[m]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/c*Subst[Int[(a+b*c^(-n)*x^(-k*n))^p/x^(k*(m+1)+1),x],x,1/(c*x)^(1/k)]] /;
+FreeQ[{a,b,c,p},x] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/c*Subst[Int[(a1+b1*c^(-n)*x^(-k*n))^p*(a2+b2*c^(-n)*x^(-k*n))^p/x^(k*(m+1)+1),x],x,1/(c*x)^(1/k)]] /;
+FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && FractionQ[m]
+
+
+Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,m,p},x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^m*(x^(-1))^m*Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,m,p},x] && FractionQ[n]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[2*n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a1+b1*x^(k*n))^p*(a2+b2*x^(k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a1,b1,a2,b2,m,p},x] && EqQ[a2*b1+a1*b2] && FractionQ[2*n]
+
+
+Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && FractionQ[n]
+
+
+Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && FractionQ[2*n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,m,n,p},x] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a1+b1*x^Simplify[n/(m+1)])^p*(a2+b2*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[2*n/(m+1)]] && Not[IntegerQ[2*n]]
+
+
+Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[2*n/(m+1)]] && Not[IntegerQ[2*n]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  x^(m+1)*(a+b*x^n)^p/(m+1) - 
+  b*n*p/(m+1)*Int[x^(m+n)*(a+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[(m+1)/n+p] && RationalQ[p] && p>0
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  x^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(m+1) - 
+  2*b1*b2*n*p/(m+1)*Int[x^(m+n)*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
+FreeQ[{a1,b1,a2,b2,m,n},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p] && RationalQ[p] && p>0
+
+
+Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[(m+1)/n+p] && RationalQ[p] && p>0
+
+
+Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p] && RationalQ[p] && p>0
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+n*p+1)) +
+  a*n*p/(m+n*p+1)*Int[(c*x)^m*(a+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p>0 && NeQ[m+n*p+1]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+2*n*p+1)) +
+  2*a1*a2*n*p/(m+2*n*p+1)*Int[(c*x)^m*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && p>0 && 
+  NeQ[m+2*n*p+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[p]},
+  k*a^(p+Simplify[(m+1)/n])/n*
+	Subst[Int[x^(k*Simplify[(m+1)/n]-1)/(1-b*x^k)^(p+Simplify[(m+1)/n]+1),x],x,x^(n/k)/(a+b*x^n)^(1/k)]] /;
+FreeQ[{a,b,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && -1<p<0
+
+
+Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[p]},
+  k*(a1*a2)^(p+Simplify[(m+1)/(2*n)])/(2*n)*
+	Subst[Int[x^(k*Simplify[(m+1)/(2*n)]-1)/((1-b1*x^k)^(p+Simplify[(m+1)/(2*n)]+1)*(1-b2*x^k)^(p+Simplify[(m+1)/(2*n)]+1)),x],x,
+      x^(2*n/k)/((a1+b1*x^n)^(1/k)*(a2+b2*x^n)^(1/k))]] /;
+FreeQ[{a1,b1,a2,b2,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && -1<p<0
+
+
+Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && -1<p<0
+
+
+Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && -1<p<0
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
+  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p<-1
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) +
+  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p<-1
+
+
+Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
+  With[{mn=Simplify[m-n]},
+  x^(mn+1)/(b*(mn+1)) -
+  a/b*Int[x^mn/(a+b*x^n),x]] /;
+FreeQ[{a,b,m,n},x] && FractionQ[Simplify[(m+1)/n]] && SumSimplerQ[m,-n]
+
+
+Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
+  x^(m+1)/(a*(m+1)) -
+  b/a*Int[x^Simplify[m+n]/(a+b*x^n),x] /;
+FreeQ[{a,b,m,n},x] && FractionQ[Simplify[(m+1)/n]] && SumSimplerQ[m,n]
+
+
+Int[(c_*x_)^m_/(a_+b_.*x_^n_),x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m/(a+b*x^n),x] /;
+FreeQ[{a,b,c,m,n},x] && FractionQ[Simplify[(m+1)/n]] && (SumSimplerQ[m,n] || SumSimplerQ[m,-n])
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^p*(c*x)^(m+1)/(c*(m+1))*Hypergeometric2F1[-p,(m+1)/n,(m+1)/n+1,-b*x^n/a] /;
+FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && (NegativeIntegerQ[p] || PositiveQ[a])
+
+
+(* Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1))*Hypergeometric2F1[1,(m+1)/n+p+1,(m+1)/n+1,-b*x^n/a] /;
+FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && Not[NegativeIntegerQ[p] || PositiveQ[a]] *)
+
+
+Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(c*x)^m*(1+b*x^n/a)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && Not[NegativeIntegerQ[p] || PositiveQ[a]]
+
+
+Int[x_^m_.*(a_+b_.*v_^n_)^p_.,x_Symbol] :=
+  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n)^p,x],x],x,v] /;
+FreeQ[{a,b,n,p},x] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
+
+
+Int[u_^m_.*(a_+b_.*v_^n_)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p,x],x,v] /;
+FreeQ[{a,b,m,n,p},x] && LinearPairQ[u,v,x]
+
+
+Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
+  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*Int[(c*x)^m*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && Not[IntegerQ[p]]
+
+
+(* IntBinomialQ[a,b,c,n,m,p,x] returns True iff (c*x)^m*(a+b*x^n)^p is integrable wrt x in terms of non-hypergeometric functions. *)
+IntBinomialQ[a_,b_,c_,n_,m_,p_,x_] :=
+  IntegerQ[2*p] || IntegerQ[(m+1)/n+p] || 
+  (EqQ[n-2] || EqQ[n-4]) && IntegersQ[2*m,4*p] || 
+  EqQ[n-2] && IntegerQ[6*p] && (IntegerQ[m] || IntegerQ[m-p])
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.3 (a+b x^n)^p (c+d x^n)^q*)
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[p,q]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  Int[x^(n*(p+q))*(b+a*x^(-n))^p*(d+c*x^(-n))^q,x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d,0] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g-1)*(a+b*x^(g*n))^p*(c+d*x^(g*n))^q,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d,0] && FractionQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_/(c_+d_.*x_^n_),x_Symbol] :=
+  Subst[Int[1/(c-(b*c-a*d)*x^n),x],x,x/(a+b*x^n)^(1/n)] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[n*p+1] && IntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  -x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*n*(p+1)) - 
+  c*q/(a*(p+1))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1),x] /;
+FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1] && RationalQ[q] && q>0 && NeQ[p+1]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  a^p*x/(c^(p+1)*(c+d*x^n)^(1/n))*Hypergeometric2F1[1/n,-p,1+1/n,-(b*c-a*d)*x^n/(a*(c+d*x^n))] /;
+FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1] && NegativeIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  x*(a+b*x^n)^p/(c*(c*(a+b*x^n)/(a*(c+d*x^n)))^p*(c+d*x^n)^(1/n+p))*
+    Hypergeometric2F1[1/n,-p,1+1/n,-(b*c-a*d)*x^n/(a*(c+d*x^n))] /;
+FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c) /;
+FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+2)+1] && EqQ[a*d*(p+1)+b*c*(q+1)]
+
+
+(* Int[(a1_+b1_.*x_^n2_.)^p_*(a2_+b2_.*x_^n2_.)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)*(c+d*x^n)^(q+1)/(a1*a2*c) /;
+FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[n2-n/2] && EqQ[a2*b1+a1*b2] && EqQ[n*(p+q+2)+1] && EqQ[a1*a2*d*(p+1)+b1*b2*c*(q+1)] *)
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -b*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(p+1)*(b*c-a*d)) + 
+  (b*c+n*(p+1)*(b*c-a*d))/(a*n*(p+1)*(b*c-a*d))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+2)+1] && (RationalQ[p] && p<-1 || Not[RationalQ[q] && q<-1]) && NeQ[p+1]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*x*(a+b*x^n)^(p+1)/a /;
+FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && EqQ[a*d-b*c*(n*(p+1)+1),0]
+
+
+Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2) /;
+FreeQ[{a1,b1,a2,b2,c,d,n,p},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && EqQ[a1*a2*d-b1*b2*c*(n*(p+1)+1),0]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_),x_Symbol] :=
+  -(b*c-a*d)*x*(a+b*x^n)^(p+1)/(a*b*n*(p+1)) - 
+  (a*d-b*c*(n*(p+1)+1))/(a*b*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && (LtQ[p,-1] || ILtQ[1/n+p,0])
+
+
+Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  -(b1*b2*c-a1*a2*d)*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*b1*b2*n*(p+1)) - 
+  (a1*a2*d-b1*b2*c*(n*(p+1)+1))/(a1*a2*b1*b2*n*(p+1))*Int[(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c,d,n},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && (LtQ[p,-1] || ILtQ[1/n+p,0])
+
+
+Int[(c_+d_.*x_^n_)/(a_+b_.*x_^n_),x_Symbol] :=
+  c*x/a - (b*c-a*d)/a*Int[1/(b+a*x^(-n)),x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n<0
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_),x_Symbol] :=
+  d*x*(a+b*x^n)^(p+1)/(b*(n*(p+1)+1)) - 
+  (a*d-b*c*(n*(p+1)+1))/(b*(n*(p+1)+1))*Int[(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && NeQ[n*(p+1)+1,0]
+
+
+Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  d*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(b1*b2*(n*(p+1)+1)) - 
+  (a1*a2*d-b1*b2*c*(n*(p+1)+1))/(b1*b2*(n*(p+1)+1))*Int[(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,n,p},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && NeQ[n*(p+1)+1,0]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  Int[PolynomialDivide[(a+b*x^n)^p,(c+d*x^n)^(-q),x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[n,p] && NegativeIntegerQ[q] && p>=-q
+
+
+Int[1/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(a+b*x^n),x] - d/(b*c-a*d)*Int[1/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0]
+
+
+Int[1/((a_+b_.*x_^2)^(1/3)*(c_+d_.*x_^2)),x_Symbol] :=
+  Sqrt[3]/(2*c)*Int[1/((a+b*x^2)^(1/3)*(Sqrt[3]-Rt[b/a,2]*x)),x] + 
+  Sqrt[3]/(2*c)*Int[1/((a+b*x^2)^(1/3)*(Sqrt[3]+Rt[b/a,2]*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d] && PosQ[b/a]
+
+
+Int[1/((a_+b_.*x_^2)^(1/3)*(c_+d_.*x_^2)),x_Symbol] :=
+  1/6*Int[(3+Rt[-b/a,2]*x)/((a+b*x^2)^(1/3)*(c+d*x^2)),x] + 
+  1/6*Int[(3-Rt[-b/a,2]*x)/((a+b*x^2)^(1/3)*(c+d*x^2)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d] && NegQ[b/a]
+
+
+Int[(a_+b_.*x_^2)^(2/3)/(c_+d_.*x_^2),x_Symbol] :=
+  b/d*Int[1/(a+b*x^2)^(1/3),x] - (b*c-a*d)/d*Int[1/((a+b*x^2)^(1/3)*(c+d*x^2)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d]
+
+
+Int[1/((a_+b_.*x_^2)^(1/4)*(c_+d_.*x_^2)),x_Symbol] :=
+  Sqrt[-b*x^2/a]/(2*x)*Subst[Int[1/(Sqrt[-b*x/a]*(a+b*x)^(1/4)*(c+d*x)),x],x,x^2] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[1/((a_+b_.*x_^2)^(3/4)*(c_+d_.*x_^2)),x_Symbol] :=
+  Sqrt[-b*x^2/a]/(2*x)*Subst[Int[1/(Sqrt[-b*x/a]*(a+b*x)^(3/4)*(c+d*x)),x],x,x^2] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[(a_+b_.*x_^2)^p_./(c_+d_.*x_^2),x_Symbol] :=
+  b/d*Int[(a+b*x^2)^(p-1),x] - (b*c-a*d)/d*Int[(a+b*x^2)^(p-1)/(c+d*x^2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p>0 && (p==1/2 || Denominator[p]==4)
+
+
+Int[(a_+b_.*x_^2)^p_/(c_+d_.*x_^2),x_Symbol] :=
+  b/(b*c-a*d)*Int[(a+b*x^2)^p,x] - d/(b*c-a*d)*Int[(a+b*x^2)^(p+1)/(c+d*x^2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p<-1 && Denominator[p]==4 && (p==-5/4 || p==-7/4)
+
+
+Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
+  a/c*Subst[Int[1/(1-4*a*b*x^4),x],x,x/Sqrt[a+b*x^4]] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d] && PosQ[a*b]
+
+
+Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-a*b,4]},
+  a/(2*c*q)*ArcTan[q*x*(a+q^2*x^2)/(a*Sqrt[a+b*x^4])] + a/(2*c*q)*ArcTanh[q*x*(a-q^2*x^2)/(a*Sqrt[a+b*x^4])]] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d] && NegQ[a*b]
+
+
+Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
+  b/d*Int[1/Sqrt[a+b*x^4],x] - (b*c-a*d)/d*Int[1/(Sqrt[a+b*x^4]*(c+d*x^4)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[(a_+b_.*x_^4)^(1/4)/(c_+d_.*x_^4),x_Symbol] :=
+  Sqrt[a+b*x^4]*Sqrt[a/(a+b*x^4)]*Subst[Int[1/(Sqrt[1-b*x^4]*(c-(b*c-a*d)*x^4)),x],x,x/(a+b*x^4)^(1/4)] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[(a_+b_.*x_^4)^p_/(c_+d_.*x_^4),x_Symbol] :=
+  b/d*Int[(a+b*x^4)^(p-1),x] - (b*c-a*d)/d*Int[(a+b*x^4)^(p-1)/(c+d*x^4),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && (p==3/4 || p==5/4)
+
+
+Int[1/(Sqrt[a_+b_.*x_^4]*(c_+d_.*x_^4)),x_Symbol] :=
+  1/(2*c)*Int[1/(Sqrt[a+b*x^4]*(1-Rt[-d/c,2]*x^2)),x] + 1/(2*c)*Int[1/(Sqrt[a+b*x^4]*(1+Rt[-d/c,2]*x^2)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[1/((a_+b_.*x_^4)^(3/4)*(c_+d_.*x_^4)),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(a+b*x^4)^(3/4),x] - d/(b*c-a*d)*Int[(a+b*x^4)^(1/4)/(c+d*x^4),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
+
+
+Int[Sqrt[a_+b_.*x_^2]/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  Sqrt[a+b*x^2]/(c*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))])*EllipticE[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && PosQ[b/a] && PosQ[d/c]
+
+
+(* Int[Sqrt[a_+b_.*x_^2]/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  a*Sqrt[c+d*x^2]*Sqrt[(c*(a+b*x^2))/(a*(c+d*x^2))]/(c^2*Rt[d/c,2]*Sqrt[a+b*x^2])*EllipticE[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && PosQ[b/a] && PosQ[d/c] *)
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*n*(p+1)) + 
+  1/(a*n*(p+1))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(n*(p+1)+1)+d*(n*(p+q+1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && p<-1 && 0<q<1 && IntBinomialQ[a,b,c,d,n,p,q,x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (a*d-c*b)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*n*(p+1)) - 
+  1/(a*b*n*(p+1))*
+    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*Simp[c*(a*d-c*b*(n*(p+1)+1))+d*(a*d*(n*(q-1)+1)-b*c*(n*(p+q)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && p<-1 && q>1 && IntBinomialQ[a,b,c,d,n,p,q,x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -b*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(p+1)*(b*c-a*d)) + 
+  1/(a*n*(p+1)*(b*c-a*d))*
+    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[b*c+n*(p+1)*(b*c-a*d)+d*b*(n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p<-1 && Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1] && 
+  IntBinomialQ[a,b,c,d,n,p,q,x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[n] && IntegersQ[p,q] && p+q>0
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  d*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*(n*(p+q)+1)) + 
+  1/(b*(n*(p+q)+1))*
+    Int[(a+b*x^n)^p*(c+d*x^n)^(q-2)*Simp[c*(b*c*(n*(p+q)+1)-a*d)+d*(b*c*(n*(p+2*q-1)+1)-a*d*(n*(q-1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && RationalQ[q] && q>1 && NeQ[n*(p+q)+1] && Not[IntegerQ[p] && p>1] && 
+  IntBinomialQ[a,b,c,d,n,p,q,x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  x*(a+b*x^n)^p*(c+d*x^n)^q/(n*(p+q)+1) + 
+  n/(n*(p+q)+1)*Int[(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && q>0 && p>0 && IntBinomialQ[a,b,c,d,n,p,q,x]
+
+
+Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  Sqrt[a+b*x^2]/(a*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))])*EllipticF[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a] && Not[SimplerSqrtQ[b/a,d/c]]
+
+
+(* Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))]/(c*Rt[d/c,2]*Sqrt[a+b*x^2])*EllipticF[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a] && Not[SimplerSqrtQ[b/a,d/c]] *)
+
+
+Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  1/(Sqrt[a]*Sqrt[c]*Rt[-d/c,2])*EllipticF[ArcSin[Rt[-d/c,2]*x],b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a] && Not[NegQ[b/a] && SimplerSqrtQ[-b/a,-d/c]]
+
+
+Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  -1/(Sqrt[c]*Rt[-d/c,2]*Sqrt[a-b*c/d])*EllipticF[ArcCos[Rt[-d/c,2]*x],b*c/(b*c-a*d)] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a-b*c/d]
+
+
+Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[1/(Sqrt[a+b*x^2]*Sqrt[1+d/c*x^2]),x] /;
+FreeQ[{a,b,c,d},x] && Not[PositiveQ[c]]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  a*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] + b*Int[x^2/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  b/d*Int[Sqrt[c+d*x^2]/Sqrt[a+b*x^2],x] - (b*c-a*d)/d*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d},x] && PosQ[d/c] && NegQ[b/a]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  Sqrt[a]/(Sqrt[c]*Rt[-d/c,2])*EllipticE[ArcSin[Rt[-d/c,2]*x],b*c/(a*d)] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  -Sqrt[a-b*c/d]/(Sqrt[c]*Rt[-d/c,2])*EllipticE[ArcCos[Rt[-d/c,2]*x],b*c/(b*c-a*d)] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a-b*c/d]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2]/Sqrt[1+b/a*x^2]*Int[Sqrt[1+b/a*x^2]/Sqrt[c+d*x^2],x] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && Not[PositiveQ[a]]
+
+
+Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
+  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[Sqrt[a+b*x^2]/Sqrt[1+d/c*x^2],x] /;
+FreeQ[{a,b,c,d},x] && NegQ[d/c] && Not[PositiveQ[c]]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  a^p*c^q*x*AppellF1[1/n,-p,-q,1+1/n,-b*x^n/a,-d*x^n/c] /;
+FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && NeQ[n+1] && PositiveQ[a] && PositiveQ[c]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(1+b*x^n/a)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && NeQ[n+1] && Not[PositiveQ[a]]
+
+
+Int[(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
+  Int[(a+b*x^n)^p*(d+c*x^n)^q/x^(n*q),x] /;
+FreeQ[{a,b,c,d,n,p},x] && EqQ[mn,-n] && IntegerQ[q] && (PosQ[n] || Not[IntegerQ[p]])
+
+
+Int[(a_+b_.*x_^n_.)^p_*(c_+d_.*x_^mn_.)^q_,x_Symbol] :=
+  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[(a+b*x^n)^p*(d+c*x^n)^q/x^(n*q),x] /;
+FreeQ[{a,b,c,d,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
+
+
+Int[(a_.+b_.*u_^n_)^p_.*(c_.+d_.*u_^n_)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p*(c+d*x^n)^q,x],x,u] /;
+FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[u_^p_.*v_^q_.,x_Symbol] :=
+  Int[NormalizePseudoBinomial[u,x]^p*NormalizePseudoBinomial[v,x]^q,x] /;
+FreeQ[{p,q},x] && PseudoBinomialPairQ[u,v,x]
+
+
+Int[x_^m_.*u_^p_.*v_^q_.,x_Symbol] :=
+  Int[NormalizePseudoBinomial[x^(m/p)*u,x]^p*NormalizePseudoBinomial[v,x]^q,x] /;
+FreeQ[{p,q},x] && IntegersQ[p,m/p] && PseudoBinomialPairQ[x^(m/p)*u,v,x]
+
+
+(* IntBinomialQ[a,b,c,d,n,p,q,x] returns True iff (a+b*x^n)^p*(c+d*x^n)^q is integrable wrt x in terms of non-Appell functions. *)
+IntBinomialQ[a_,b_,c_,d_,n_,p_,q_,x_Symbol] :=
+  IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q] || 
+  (EqQ[n-2] || EqQ[n-4]) && (IntegersQ[p,4*q] || IntegersQ[4*p,q]) || 
+  EqQ[n-2] && (IntegersQ[2*p,2*q] || IntegersQ[3*p,q] && EqQ[b*c+3*a*d] || IntegersQ[p,3*q] && EqQ[3*b*c+a*d])
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.4 (e x)^m (a+b x^n)^p (c+d x^n)^q*)
+
+
+Int[(e_.*x_)^m_.*(b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  e^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1)*(c+d*x)^q,x],x,x^n] /;
+FreeQ[{b,c,d,e,m,n,p,q},x] && (IntegerQ[m] || PositiveQ[e]) && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_.*x_)^m_.*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  e^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p)*(c+d*x^n)^q,x] /;
+FreeQ[{b,c,d,e,m,n,p,q},x] && (IntegerQ[m] || PositiveQ[e]) && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[(e_*x_)^m_*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{b,c,d,e,m,n,p,q},x] && Not[IntegerQ[m]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  1/n*Subst[Int[(a+b*x)^p*(c+d*x)^q,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && EqQ[m-n+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  Int[x^(m+n*(p+q))*(b+a*x^(-n))^p*(d+c*x^(-n))^q,x] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p*(c+d*x)^q,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[p,q]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a*d*(m+1)-b*c*(m+n*(p+1)+1)] && NeQ[m+1]
+
+
+Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*e*(m+1)) /;
+FreeQ[{a1,b1,a2,b2,c,d,e,m,n,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && EqQ[a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1)] && 
+  NeQ[m+1]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) + d/e^n*Int[(e*x)^(m+n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && EqQ[m+n*(p+1)+1] && (IntegerQ[n] || PositiveQ[e]) && 
+  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1)
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  (b*c-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b*e*(m+1)) + d/b*Int[(e*x)^m*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n*(p+1)+1] && NeQ[m+1]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) + 
+  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && (IntegerQ[n] || PositiveQ[e]) && 
+  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1) && Not[IntegerQ[p] && p<-1]
+
+
+Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  c*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*e*(m+1)) + 
+  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(a1*a2*e^n*(m+1))*Int[(e*x)^(m+n)*(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,e,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && (IntegerQ[n] || PositiveQ[e]) && 
+  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1) && Not[IntegerQ[p] && p<-1]
+
+
+Int[x_^m_*(a_+b_.*x_^2)^p_*(c_+d_.*x_^2),x_Symbol] :=
+  (-a)^(m/2-1)*(b*c-a*d)*x*(a+b*x^2)^(p+1)/(2*b^(m/2+1)*(p+1)) + 
+  1/(2*b^(m/2+1)*(p+1))*Int[(a+b*x^2)^(p+1)*
+    ExpandToSum[2*b*(p+1)*x^2*Together[(b^(m/2)*x^(m-2)*(c+d*x^2)-(-a)^(m/2-1)*(b*c-a*d))/(a+b*x^2)]-(-a)^(m/2-1)*(b*c-a*d),x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && PositiveIntegerQ[m/2] && (IntegerQ[p] || m+2*p+1==0)
+
+
+Int[x_^m_*(a_+b_.*x_^2)^p_*(c_+d_.*x_^2),x_Symbol] :=
+  (-a)^(m/2-1)*(b*c-a*d)*x*(a+b*x^2)^(p+1)/(2*b^(m/2+1)*(p+1)) + 
+  1/(2*b^(m/2+1)*(p+1))*Int[x^m*(a+b*x^2)^(p+1)*
+    ExpandToSum[2*b*(p+1)*Together[(b^(m/2)*(c+d*x^2)-(-a)^(m/2-1)*(b*c-a*d)*x^(-m+2))/(a+b*x^2)]-
+      (-a)^(m/2-1)*(b*c-a*d)*x^(-m),x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && NegativeIntegerQ[m/2] && (IntegerQ[p] || m+2*p+1==0)
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  -(b*c-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b*e*n*(p+1)) - 
+  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && 
+  (IntegerQ[p] || Not[RationalQ[m]] || PositiveIntegerQ[n] && NegativeIntegerQ[p+1/2] && -1<=m<=-n*(p+1))
+
+
+Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  -(b1*b2*c-a1*a2*d)*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*b1*b2*e*n*(p+1)) - 
+  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(a1*a2*b1*b2*n*(p+1))*Int[(e*x)^m*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1),x] /;
+FreeQ[{a1,b1,a2,b2,c,d,e,m,n},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && RationalQ[p] && p<-1 && 
+  (IntegerQ[p] || Not[RationalQ[m]] || PositiveIntegerQ[n] && NegativeIntegerQ[p+1/2] && -1<=m<=-n*(p+1))
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(b*e*(m+n*(p+1)+1)) - 
+  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(b*(m+n*(p+1)+1))*Int[(e*x)^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && NeQ[m+n*(p+1)+1]
+
+
+Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
+  d*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(b1*b2*e*(m+n*(p+1)+1)) - 
+  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(b1*b2*(m+n*(p+1)+1))*Int[(e*x)^m*(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,e,m,n,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && NeQ[m+n*(p+1)+1]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_/(c_+d_.*x_^n_),x_Symbol] :=
+  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p/(c+d*x^n),x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && PositiveIntegerQ[p] && 
+  (IntegerQ[m] || PositiveIntegerQ[2*(m+1)] || Not[RationalQ[m]])
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
+  c^2*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) - 
+  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*Simp[b*c^2*n*(p+1)+c*(b*c-2*a*d)*(m+1)-a*(m+1)*d^2*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,n] && m<-1 && n>0
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
+  -(b*c-a*d)^2*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b^2*e*n*(p+1)) + 
+  1/(a*b^2*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*Simp[(b*c-a*d)^2*(m+1)+b^2*c^2*n*(p+1)+a*b*d^2*n*(p+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
+  d^2*(e*x)^(m+n+1)*(a+b*x^n)^(p+1)/(b*e^(n+1)*(m+n*(p+2)+1)) + 
+  1/(b*(m+n*(p+2)+1))*Int[(e*x)^m*(a+b*x^n)^p*Simp[b*c^2*(m+n*(p+2)+1)+d*((2*b*c-a*d)*(m+n+1)+2*b*c*n*(p+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && NeQ[m+n*(p+2)+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p*(c+d*x^(n/k))^q,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/e^n)^p*(c+d*x^(k*n)/e^n)^q,x],x,(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*n*(p+1)) - 
+  e^n/(b*n*(p+1))*Int[(e*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m-n+1)+d*(m+n*(q-1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p,q] && p<-1 && q>0 && m-n+1>0 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -(c*b-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*e*n*(p+1)) + 
+  1/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*
+    Simp[c*(c*b*n*(p+1)+(c*b-a*d)*(m+1))+d*(c*b*n*(p+1)+(c*b-a*d)*(m+n*(q-1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && q>1 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*n*(p+1)) + 
+  1/(a*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m+n*(p+1)+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && 0<q<1 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -a*e^(2*n-1)*(e*x)^(m-2*n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*n*(b*c-a*d)*(p+1)) + 
+  e^(2*n)/(b*n*(b*c-a*d)*(p+1))*Int[(e*x)^(m-2*n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
+    Simp[a*c*(m-2*n+1)+(a*d*(m-n+n*q+1)+b*c*n*(p+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m-n+1>n && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(n*(b*c-a*d)*(p+1)) - 
+  e^n/(n*(b*c-a*d)*(p+1))*Int[(e*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*(m-n+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && n>=m-n+1>0 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -b*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*e*n*(b*c-a*d)*(p+1)) + 
+  1/(a*n*(b*c-a*d)*(p+1))*
+    Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*b*(m+1)+n*(b*c-a*d)*(p+1)+d*b*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+1)) - 
+  n/(e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[b*c*p+a*d*q+b*d*(p+q)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p,q] && q>0 && m<-1 && p>0 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*e*(m+1)) - 
+  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
+    Simp[c*(c*b-a*d)*(m+1)+c*n*(b*c*(p+1)+a*d*(q-1))+d*((c*b-a*d)*(m+1)+c*b*n*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && q>1 && m<-1 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*(m+1)) - 
+  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
+    Simp[c*b*(m+1)+n*(b*c*(p+1)+a*d*q)+d*(b*(m+1)+b*n*(p+q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && 0<q<1 && m<-1 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+n*(p+q)+1)) + 
+  n/(m+n*(p+q)+1)*Int[(e*x)^m*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && q>0 && p>0 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*e*(m+n*(p+q)+1)) + 
+  1/(b*(m+n*(p+q)+1))*Int[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
+    Simp[c*((c*b-a*d)*(m+1)+c*b*n*(p+q))+(d*(c*b-a*d)*(m+1)+d*n*(q-1)*(b*c-a*d)+c*b*d*n*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[q] && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*(m+n*(p+q)+1)) - 
+  e^n/(b*(m+n*(p+q)+1))*
+    Int[(e*x)^(m-n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*Simp[a*c*(m-n+1)+(a*d*(m-n+1)-n*q*(b*c-a*d))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && q>0 && m-n+1>0 && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^(2*n-1)*(e*x)^(m-2*n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*d*(m+n*(p+q)+1)) - 
+  e^(2*n)/(b*d*(m+n*(p+q)+1))*
+    Int[(e*x)^(m-2*n)*(a+b*x^n)^p*(c+d*x^n)^q*Simp[a*c*(m-2*n+1)+(a*d*(m+n*(q-1)+1)+b*c*(m+n*(p-1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && m-n+1>n && 
+  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c*e*(m+1)) - 
+  1/(a*c*e^n*(m+1))*
+    Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*Simp[(b*c+a*d)*(m+n+1)+n*(b*c*p+a*d*q)+b*d*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  -a*e^n/(b*c-a*d)*Int[(e*x)^(m-n)/(a+b*x^n),x] + c*e^n/(b*c-a*d)*Int[(e*x)^(m-n)/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && n<=m<=2*n-1
+
+
+Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  b/(b*c-a*d)*Int[(e*x)^m/(a+b*x^n),x] - d/(b*c-a*d)*Int[(e*x)^m/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n]
+
+
+Int[x_^m_/((a_+b_.*x_^n_)*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
+  1/b*Int[x^(m-n)/Sqrt[c+d*x^n],x] - a/b*Int[x^(m-n)/((a+b*x^n)*Sqrt[c+d*x^n]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && IntegersQ[m/2,n/2] && 0<m-n+1<n && n<=4
+
+
+Int[x_^2/((a_+b_.*x_^4)*Sqrt[c_+d_.*x_^4]),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
+  s/(2*b)*Int[1/((r+s*x^2)*Sqrt[c+d*x^4]),x] - s/(2*b)*Int[1/((r-s*x^2)*Sqrt[c+d*x^4]),x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d]
+
+
+Int[x_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[d/c,3]},
+  -q*ArcTan[1/Sqrt[3]+2^(2/3)*(Sqrt[c]-Sqrt[c+d*x^3])/(Sqrt[3]*Sqrt[c]*q*x)]/(3*2^(2/3)*Sqrt[3]*b*Sqrt[c]) + 
+  q*ArcTan[1/Sqrt[3]+2^(2/3)*(Sqrt[c]+Sqrt[c+d*x^3])/(Sqrt[3]*Sqrt[c]*q*x)]/(3*2^(2/3)*Sqrt[3]*b*Sqrt[c]) + 
+  q*ArcTanh[Sqrt[c+d*x^3]/Sqrt[c]]/(9*2^(2/3)*b*Sqrt[c]) + 
+  q*Log[1-2^(1/3)*q*x-Sqrt[c+d*x^3]/Sqrt[c]]/(6*2^(2/3)*b*Sqrt[c]) - 
+  q*Log[1-2^(1/3)*q*x+Sqrt[c+d*x^3]/Sqrt[c]]/(6*2^(2/3)*b*Sqrt[c])] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d]
+
+
+Int[x_^m_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
+  1/b*Int[x^(m-3)/Sqrt[c+d*x^3],x] - a/b*Int[x^(m-3)/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && PositiveIntegerQ[(m-1)/3]
+
+
+Int[x_^m_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
+  1/a*Int[x^m/Sqrt[c+d*x^3],x] - b/a*Int[x^(m+3)/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && NegativeIntegerQ[(m-1)/3]
+
+
+Int[x_^2*Sqrt[c_+d_.*x_^4]/(a_+b_.*x_^4),x_Symbol] :=
+  d/b*Int[x^2/Sqrt[c+d*x^4],x] + (b*c-a*d)/b*Int[x^2/((a+b*x^4)*Sqrt[c+d*x^4]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d]
+
+
+Int[x_^m_.*Sqrt[c_+d_.*x_^3]/(a_+b_.*x_^3),x_Symbol] :=
+  d/b*Int[x^m/Sqrt[c+d*x^3],x] + (b*c-a*d)/b*Int[x^m/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && IntegerQ[(m-1)/3]
+
+
+Int[x_^2/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  x*Sqrt[a+b*x^2]/(b*Sqrt[c+d*x^2]) - c/b*Int[Sqrt[a+b*x^2]/(c+d*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && PosQ[b/a] && PosQ[d/c] && Not[SimplerSqrtQ[b/a,d/c]]
+
+
+Int[x_^n_/(Sqrt[a_+b_.*x_^n_]*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
+  1/b*Int[Sqrt[a+b*x^n]/Sqrt[c+d*x^n],x] - a/b*Int[1/(Sqrt[a+b*x^n]*Sqrt[c+d*x^n]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && (EqQ[n,2] || EqQ[n,4]) && Not[EqQ[n,2] && SimplerSqrtQ[-b/a,-d/c]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  With[{k=Denominator[p]},
+  k*a^(p+(m+1)/n)/n*
+	Subst[Int[x^(k*(m+1)/n-1)*(c-(b*c-a*d)*x^k)^q/(1-b*x^k)^(p+q+(m+1)/n+1),x],x,x^(n/k)/(a+b*x^n)^(1/k)]] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && RationalQ[m,p] && IntegersQ[p+(m+1)/n,q] && -1<p<0
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  With[{g=Denominator[m]},
+  -g/e*Subst[Int[(a+b*e^(-n)*x^(-g*n))^p*(c+d*e^(-n)*x^(-g*n))^q/x^(g*(m+1)+1),x],x,1/(e*x)^(1/g)]] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,m,p,q},x] && NeQ[b*c-a*d] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g*(m+1)-1)*(a+b*x^(g*n))^p*(c+d*x^(g*n))^q,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,d,m,p,q},x] && NeQ[b*c-a*d] && FractionQ[n]
+
+
+Int[(e_*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,m,p,q},x] && NeQ[b*c-a*d] && FractionQ[n]
+
+
+(* Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -1/(m+1)*Subst[Int[(a+b*x^Simplify[-n/(m+1)])^p*(c+d*x^Simplify[-n/(m+1)])^q/x^2,x],x,x^(-(m+1))] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && NeQ[m+1] && NegativeIntegerQ[Simplify[n/(m+1)+1]] && 
+  RationalQ[p,q] && -1<=p<0 && -1<=q<0 && Not[IntegerQ[n]] *)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -(c*b-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*e*n*(p+1)) + 
+  1/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*
+    Simp[c*(c*b*n*(p+1)+(c*b-a*d)*(m+1))+d*(c*b*n*(p+1)+(c*b-a*d)*(m+n*(q-1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && p<-1 && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*n*(p+1)) + 
+  1/(a*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m+n*(p+1)+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && p<-1 && 0<q<1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  -b*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*e*n*(b*c-a*d)*(p+1)) + 
+  1/(a*n*(b*c-a*d)*(p+1))*
+    Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*b*(m+1)+n*(b*c-a*d)*(p+1)+d*b*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n,q},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+n*(p+q)+1)) + 
+  n/(m+n*(p+q)+1)*Int[(e*x)^m*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && q>0 && p>0 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*e*(m+n*(p+q)+1)) + 
+  1/(b*(m+n*(p+q)+1))*Int[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
+    Simp[c*((c*b-a*d)*(m+1)+c*b*n*(p+q))+(d*(c*b-a*d)*(m+1)+d*n*(q-1)*(b*c-a*d)+c*b*d*n*(p+q))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && RationalQ[q] && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
+
+
+Int[x_^m_/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  -a/(b*c-a*d)*Int[x^(m-n)/(a+b*x^n),x] + c/(b*c-a*d)*Int[x^(m-n)/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && (EqQ[m-n] || EqQ[m-2*n+1])
+
+
+Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  b/(b*c-a*d)*Int[(e*x)^m/(a+b*x^n),x] - d/(b*c-a*d)*Int[(e*x)^m/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,e,n,m},x] && NeQ[b*c-a*d]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && IntegersQ[m,p,q] && p>=-2 && (q>=-2 || q==-3 && IntegerQ[(m-1)/2])
+
+
+Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
+  Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[mn,-n] && IntegerQ[q] && (PosQ[n] || Not[IntegerQ[p]])
+
+
+Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_,x_Symbol] :=
+  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q,x] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^(-n))^q,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[mn,-n]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  a^p*c^q*(e*x)^(m+1)/(e*(m+1))*AppellF1[(m+1)/n,-p,-q,1+(m+1)/n,-b*x^n/a,-d*x^n/c] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && NeQ[m+1] && NeQ[m-n+1] && PositiveQ[a] && PositiveQ[c]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(e*x)^m*(1+b*x^n/a)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && NeQ[m+1] && NeQ[m-n+1] && Not[PositiveQ[a]]
+
+
+Int[x_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.,x_Symbol] :=
+  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x],x,v] /;
+FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
+
+
+Int[u_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x,v] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && LinearPairQ[u,v,x]
+
+
+(* IntBinomialQ[a,b,c,d,e,m,n,p,q,x] returns True iff (e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q is integrable wrt x in terms of non-Appell functions. *)
+IntBinomialQ[a_,b_,c_,d_,e_,m_,n_,p_,q_,x_Symbol] :=
+  IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q] || 
+  EqQ[n-2] && IntegerQ[m] && IntegersQ[2*p,2*q] || 
+  EqQ[n-4] && (IntegersQ[m,p,2*q] || IntegersQ[m,2*p,q])
+
+
+Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.+e_.*x_^n2_.)^q_.,x_Symbol] :=
+  Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n+e*x^(2*n))^q,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,e,n,p,q},x] && EqQ[non2-n/2] && EqQ[n2-2*n] && EqQ[a2*b1+a1*b2] && 
+  (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[u_.*(a1_+b1_.*x_^non2_.)^p_*(a2_+b2_.*x_^non2_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  (a1+b1*x^(n/2))^FracPart[p]*(a2+b2*x^(n/2))^FracPart[p]/(a1*a2+b1*b2*x^n)^FracPart[p]*
+    Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2]
+
+
+Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.+e_.*x_^n2_.)^q_.,x_Symbol] :=
+  (a1+b1*x^(n/2))^FracPart[p]*(a2+b2*x^(n/2))^FracPart[p]/(a1*a2+b1*b2*x^n)^FracPart[p]*
+    Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n+e*x^(2*n))^q,x] /;
+FreeQ[{a1,b1,a2,b2,c,d,e,n,p,q},x] && EqQ[non2-n/2] && EqQ[n2-2*n] && EqQ[a2*b1+a1*b2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.5 (a+b x^n)^p (c+d x^n)^q (e+f x^n)^r*)
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[p,q,r]
+
+
+Int[(e_+f_.*x_^n_)/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[1/(a+b*x^n),x] - 
+  (d*e-c*f)/(b*c-a*d)*Int[1/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,e,f,n},x]
+
+
+Int[(e_+f_.*x_^n_)/((a_+b_.*x_^n_)*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
+  f/b*Int[1/Sqrt[c+d*x^n],x] + 
+  (b*e-a*f)/b*Int[1/((a+b*x^n)*Sqrt[c+d*x^n]),x] /;
+FreeQ[{a,b,c,d,e,f,n},x]
+
+
+Int[(e_+f_.*x_^n_)/(Sqrt[a_+b_.*x_^n_]*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
+  f/b*Int[Sqrt[a+b*x^n]/Sqrt[c+d*x^n],x] + 
+  (b*e-a*f)/b*Int[1/(Sqrt[a+b*x^n]*Sqrt[c+d*x^n]),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && 
+  Not[EqQ[n-2] && (PosQ[b/a] && PosQ[d/c] || NegQ[b/a] && (PosQ[d/c] || PositiveQ[a] && (Not[PositiveQ[c]] || SimplerSqrtQ[-b/a,-d/c])))]
+
+
+Int[(e_+f_.*x_^2)/(Sqrt[a_+b_.*x_^2]*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] - 
+  (d*e-c*f)/(b*c-a*d)*Int[Sqrt[a+b*x^2]/(c+d*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[b/a] && PosQ[d/c]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*n*(p+1)) + 
+  1/(a*b*n*(p+1))*
+    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(b*e*n*(p+1)+b*e-a*f)+d*(b*e*n*(p+1)+(b*e-a*f)*(n*q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && RationalQ[p,q] && p<-1 && q>0
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(b*c-a*d)*(p+1)) + 
+  1/(a*n*(b*c-a*d)*(p+1))*
+    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*(b*e-a*f)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,q},x] && RationalQ[p] && p<-1
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  f*x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*(n*(p+q+1)+1)) + 
+  1/(b*(n*(p+q+1)+1))*
+    Int[(a+b*x^n)^p*(c+d*x^n)^(q-1)*Simp[c*(b*e-a*f+b*e*n*(p+q+1))+(d*(b*e-a*f)+f*n*q*(b*c-a*d)+b*d*e*n*(p+q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[q] && q>0 && NeQ[n*(p+q+1)+1]
+
+
+Int[(e_+f_.*x_^4)/((a_+b_.*x_^4)^(3/4)*(c_+d_.*x_^4)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[1/(a+b*x^4)^(3/4),x] - (d*e-c*f)/(b*c-a*d)*Int[(a+b*x^4)^(1/4)/(c+d*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
+  f/d*Int[(a+b*x^n)^p,x] + (d*e-c*f)/d*Int[(a+b*x^n)^p/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,e,f,p,n},x]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  e*Int[(a+b*x^n)^p*(c+d*x^n)^q,x] + f*Int[x^n*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q},x]
+
+
+Int[1/((a_+b_.*x_^2)*(c_+d_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/((a+b*x^2)*Sqrt[e+f*x^2]),x] - 
+  d/(b*c-a*d)*Int[1/((c+d*x^2)*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[1/(x_^2*(c_+d_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  1/c*Int[1/(x^2*Sqrt[e+f*x^2]),x] - 
+  d/c*Int[1/((c+d*x^2)*Sqrt[e+f*x^2]),x] /;
+FreeQ[{c,d,e,f},x] && NeQ[d*e-c*f]
+
+
+Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
+  d/b*Int[Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] + (b*c-a*d)/b*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveQ[d/c] && PositiveQ[f/e] && Not[SimplerSqrtQ[d/c,f/e]]
+
+
+Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
+  d/b*Int[Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] + (b*c-a*d)/b*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[SimplerSqrtQ[-f/e,-d/c]]
+
+
+Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  -f/(b*e-a*f)*Int[1/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
+  b/(b*e-a*f)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e] && Not[SimplerSqrtQ[d/c,f/e]]
+
+
+Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  1/(a*Sqrt[c]*Sqrt[e]*Rt[-d/c,2])*EllipticPi[b*c/(a*d), ArcSin[Rt[-d/c,2]*x], c*f/(d*e)] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[e] && Not[NegQ[f/e] && SimplerSqrtQ[-f/e,-d/c]]
+
+
+Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[1/((a+b*x^2)*Sqrt[1+d/c*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[c]]
+
+
+Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  c*Sqrt[e+f*x^2]/(a*e*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(e+f*x^2)/(e*(c+d*x^2))])*
+    EllipticPi[1-b*c/(a*d),ArcTan[Rt[d/c,2]*x],1-c*f/(d*e)] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c]
+
+
+(* Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  Sqrt[c+d*x^2]*Sqrt[c*(e+f*x^2)/(e*(c+d*x^2))]/(a*Rt[d/c,2]*Sqrt[e+f*x^2])*
+    EllipticPi[1-b*c/(a*d),ArcTan[Rt[d/c,2]*x],1-c*f/(d*e)] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] *)
+
+
+Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  d/b*Int[1/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
+  (b*c-a*d)/b*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[d/c]
+
+
+Int[Sqrt[e_+f_.*x_^2]/((a_+b_.*x_^2)*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
+  b/(b*c-a*d)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] - 
+  d/(b*c-a*d)*Int[Sqrt[e+f*x^2]/(c+d*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
+
+
+Int[(e_+f_.*x_^2)^(3/2)/((a_+b_.*x_^2)*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
+  (b*e-a*f)/(b*c-a*d)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] - 
+  (d*e-c*f)/(b*c-a*d)*Int[Sqrt[e+f*x^2]/(c+d*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
+
+
+Int[(c_+d_.*x_^2)^(3/2)*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
+  (b*c-a*d)^2/b^2*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] + 
+  d/b^2*Int[(2*b*c-a*d+b*d*x^2)*Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
+
+
+Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
+  b*(b*e-a*f)/(b*c-a*d)^2*Int[(c+d*x^2)^(q+2)*(e+f*x^2)^(r-1)/(a+b*x^2),x] - 
+  1/(b*c-a*d)^2*Int[(c+d*x^2)^q*(e+f*x^2)^(r-1)*(2*b*c*d*e-a*d^2*e-b*c^2*f+d^2*(b*e-a*f)*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[q,r] && q<-1 && r>1
+
+
+Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
+  d/b*Int[(c+d*x^2)^(q-1)*(e+f*x^2)^r,x] + 
+  (b*c-a*d)/b*Int[(c+d*x^2)^(q-1)*(e+f*x^2)^r/(a+b*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q>1
+
+
+Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
+  b^2/(b*c-a*d)^2*Int[(c+d*x^2)^(q+2)*(e+f*x^2)^r/(a+b*x^2),x] - 
+  d/(b*c-a*d)^2*Int[(c+d*x^2)^q*(e+f*x^2)^r*(2*b*c-a*d+b*d*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q<-1
+
+
+Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
+  -d/(b*c-a*d)*Int[(c+d*x^2)^q*(e+f*x^2)^r,x] + 
+  b/(b*c-a*d)*Int[(c+d*x^2)^(q+1)*(e+f*x^2)^r/(a+b*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q<=-1
+
+
+Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2)^2,x_Symbol] :=
+  x*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]/(2*a*(a+b*x^2)) + 
+  d*f/(2*a*b^2)*Int[(a-b*x^2)/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
+  (b^2*c*e-a^2*d*f)/(2*a*b^2)*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[1/((a_+b_.*x_^2)^2*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  b^2*x*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]/(2*a*(b*c-a*d)*(b*e-a*f)*(a+b*x^2)) - 
+  d*f/(2*a*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x^2)/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
+  (b^2*c*e+3*a^2*d*f-2*a*b*(d*e+c*f))/(2*a*(b*c-a*d)*(b*e-a*f))*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
+  d/b*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*(e+f*x^n)^r,x] + 
+  (b*c-a*d)/b*Int[(a+b*x^n)^p*(c+d*x^n)^(q-1)*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,n,r},x] && NegativeIntegerQ[p] && RationalQ[q] && q>0
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
+  b/(b*c-a*d)*Int[(a+b*x^n)^p*(c+d*x^n)^(q+1)*(e+f*x^n)^r,x] - 
+  d/(b*c-a*d)*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,n,q},x] && NegativeIntegerQ[p] && RationalQ[q] && q<=-1
+
+
+Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(c*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
+    Subst[Int[1/(Sqrt[1-(b*c-a*d)*x^2/c]*Sqrt[1-(b*e-a*f)*x^2/e]),x],x,x/Sqrt[a+b*x^2]] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[Sqrt[a_+b_.*x_^2]/(Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  a*Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(c*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
+    Subst[Int[1/((1-b*x^2)*Sqrt[1-(b*c-a*d)*x^2/c]*Sqrt[1-(b*e-a*f)*x^2/e]),x],x,x/Sqrt[a+b*x^2]] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)^(3/2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(a*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
+    Subst[Int[Sqrt[1-(b*c-a*d)*x^2/c]/Sqrt[1-(b*e-a*f)*x^2/e],x],x,x/Sqrt[a+b*x^2]] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/Sqrt[e_+f_.*x_^2],x_Symbol] :=
+  d*x*Sqrt[a+b*x^2]*Sqrt[e+f*x^2]/(2*f*Sqrt[c+d*x^2]) - 
+  c*(d*e-c*f)/(2*f)*Int[Sqrt[a+b*x^2]/((c+d*x^2)^(3/2)*Sqrt[e+f*x^2]),x] + 
+  b*c*(d*e-c*f)/(2*d*f)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - 
+  (b*d*e-b*c*f-a*d*f)/(2*d*f)*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[(d*e-c*f)/c]
+
+
+Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/Sqrt[e_+f_.*x_^2],x_Symbol] :=
+  x*Sqrt[a+b*x^2]*Sqrt[c+d*x^2]/(2*Sqrt[e+f*x^2]) + 
+  e*(b*e-a*f)/(2*f)*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*(e+f*x^2)^(3/2)),x] + 
+  (b*e-a*f)*(d*e-2*c*f)/(2*f^2)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - 
+  (b*d*e-b*c*f-a*d*f)/(2*f^2)*Int[Sqrt[e+f*x^2]/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[(d*e-c*f)/c]
+
+
+Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/(e_+f_.*x_^2)^(3/2),x_Symbol] :=
+  b/f*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*Sqrt[e+f*x^2]),x] - 
+  (b*e-a*f)/f*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*(e+f*x^2)^(3/2)),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
+  With[{u=ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && PositiveIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  Defer[Int][(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q,r},x]
+
+
+Int[(a_.+b_.*u_^n_)^p_.*(c_.+d_.*v_^n_)^q_.*(e_.+f_.*w_^n_)^r_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,p,n,q,r},x] && EqQ[u-v] && EqQ[u-w] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  Int[(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r/x^(n*q),x] /;
+FreeQ[{a,b,c,d,e,f,n,p,r},x] && EqQ[mn,-n] && IntegerQ[q]
+
+
+Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  Int[x^(n*(p+r))*(b+a*x^(-n))^p*(c+d*x^(-n))^q*(f+e*x^(-n))^r,x] /;
+FreeQ[{a,b,c,d,e,f,n,q},x] && EqQ[mn,-n] && IntegerQ[p] && IntegerQ[r]
+
+
+Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r/x^(n*q),x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q,r},x] && EqQ[mn,-n] && Not[IntegerQ[q]]
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
+  Int[(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e1,f1,e2,f2,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2] && (IntegerQ[r] || PositiveQ[e1] && PositiveQ[e2])
+
+
+Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
+  (e1+f1*x^(n/2))^FracPart[r]*(e2+f2*x^(n/2))^FracPart[r]/(e1*e2+f1*f2*x^n)^FracPart[r]*
+    Int[(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e1,f1,e2,f2,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.6 (g x)^m (a+b x^n)^p (c+d x^n)^q (e+f x^n)^r*)
+
+
+Int[(g_.*x_)^m_.*(b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1)*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
+FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && (IntegerQ[m] || PositiveQ[g]) && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(g_.*x_)^m_.*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p)*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && (IntegerQ[m] || PositiveQ[g]) && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[(g_*x_)^m_*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && Not[IntegerQ[m]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && PositiveIntegerQ[p+2,q,r]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  1/n*Subst[Int[(a+b*x)^p*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && EqQ[m-n+1]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  Int[x^(m+n*(p+q+r))*(b+a*x^(-n))^p*(d+c*x^(-n))^q*(f+e*x^(-n))^r,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IntegersQ[p,q,r] && NegQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(g_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p*(c+d*x^(n/k))^q*(e+f*x^(n/k))^r,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/g*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/g^n)^p*(c+d*x^(k*n)/g^n)^q*(e+f*x^(k*n)/g^n)^r,x],x,(g*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,g,p,q,r},x] && PositiveIntegerQ[n] && FractionQ[m]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*g*n*(p+1)) + 
+  1/(a*b*n*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*
+    Simp[c*(b*e*n*(p+1)+(b*e-a*f)*(m+1))+d*(b*e*n*(p+1)+(b*e-a*f)*(m+n*q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && q>0 && Not[q==1 && SimplerQ[b*c-a*d,b*e-a*f]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
+  g^(n-1)*(b*e-a*f)*(g*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*n*(b*c-a*d)*(p+1)) - 
+  g^n/(b*n*(b*c-a*d)*(p+1))*Int[(g*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
+    Simp[c*(b*e-a*f)*(m-n+1)+(d*(b*e-a*f)*(m+n*q+1)-b*n*(c*f-d*e)*(p+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,q},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m-n+1>0
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*g*n*(b*c-a*d)*(p+1)) + 
+  1/(a*n*(b*c-a*d)*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
+    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,q},x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  e*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*g*(m+1)) - 
+  1/(a*g^n*(m+1))*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
+    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c*(p+1)+a*d*q)+d*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && PositiveIntegerQ[n] && RationalQ[m,q] && q>0 && m<-1 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  f*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*g*(m+n*(p+q+1)+1)) + 
+  1/(b*(m+n*(p+q+1)+1))*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
+    Simp[c*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))+(d*(b*e-a*f)*(m+1)+f*n*q*(b*c-a*d)+b*e*d*n*(p+q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && PositiveIntegerQ[n] && RationalQ[q] && q>0 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  f*g^(n-1)*(g*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*d*(m+n*(p+q+1)+1)) - 
+  g^n/(b*d*(m+n*(p+q+1)+1))*Int[(g*x)^(m-n)*(a+b*x^n)^p*(c+d*x^n)^q*
+    Simp[a*f*c*(m-n+1)+(a*f*d*(m+n*q+1)+b*(f*c*(m+n*p+1)-e*d*(m+n*(p+q+1)+1)))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p,q},x] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1
+
+
+Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  e*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c*g*(m+1)) + 
+  1/(a*c*g^n*(m+1))*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*
+    Simp[a*f*c*(m+1)-e*(b*c+a*d)*(m+n+1)-e*n*(b*c*p+a*d*q)-b*e*d*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p,q},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
+  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(e+f*x^n)/(c+d*x^n),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && PositiveIntegerQ[n]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x] + 
+  f/e^n*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p,q},x] && PositiveIntegerQ[n]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^(r-1),x] + 
+  f/e^n*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^(r-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p,q},x] && PositiveIntegerQ[n] && PositiveIntegerQ[r]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/g*Subst[Int[(a+b*g^(-n)*x^(-k*n))^p*(c+d*g^(-n)*x^(-k*n))^q*(e+f*g^(-n)*x^(-k*n))^r/x^(k*(m+1)+1),x],x,1/(g*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,g,p,q,r},x] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  -(g*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p,q,r},x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n))^p*(c+d*x^(k*n))^q*(e+f*x^(k*n))^r,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,m,p,q,r},x] && FractionQ[n]
+
+
+Int[(g_*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p,q,r},x] && FractionQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q*(e+f*x^Simplify[n/(m+1)])^r,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && IntegerQ[Simplify[n/(m+1)]]
+
+
+Int[(g_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && IntegerQ[Simplify[n/(m+1)]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*g*n*(p+1)) + 
+  1/(a*b*n*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*
+    Simp[c*(b*e*n*(p+1)+(b*e-a*f)*(m+1))+d*(b*e*n*(p+1)+(b*e-a*f)*(m+n*q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && RationalQ[p,q] && p<-1 && q>0 && Not[q==1 && SimplerQ[b*c-a*d,b*e-a*f]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
+  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*g*n*(b*c-a*d)*(p+1)) + 
+  1/(a*n*(b*c-a*d)*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
+    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(m+n*(p+q+2)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,q},x] && RationalQ[p] && p<-1
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
+  f*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*g*(m+n*(p+q+1)+1)) + 
+  1/(b*(m+n*(p+q+1)+1))*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
+    Simp[c*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))+(d*(b*e-a*f)*(m+1)+f*n*q*(b*c-a*d)+b*e*d*n*(p+q+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && RationalQ[q] && q>0 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
+  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(e+f*x^n)/(c+d*x^n),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
+  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x] + 
+  f*(g*x)^m/x^m*Int[x^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q},x]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,r},x] && EqQ[mn,-n] && IntegerQ[q]
+
+
+Int[x_^m_.*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  Int[x^(m+n*(p+r))*(b+a*x^(-n))^p*(c+d*x^(-n))^q*(f+e*x^(-n))^r,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[mn,-n] && IntegerQ[p] && IntegerQ[r]
+
+
+Int[x_^m_.*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && EqQ[mn,-n] && Not[IntegerQ[q]]
+
+
+Int[(g_*x_)^m_*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
+  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^(-n))^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && EqQ[mn,-n]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
+  Defer[Int][(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x]
+
+
+Int[u_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.*(e_+f_.*v_^n_)^r_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x,v] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && LinearPairQ[u,v,x]
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
+  Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e1,f1,e2,f2,g,m,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2] && (IntegerQ[r] || PositiveQ[e1] && PositiveQ[e2])
+
+
+Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
+  (e1+f1*x^(n/2))^FracPart[r]*(e2+f2*x^(n/2))^FracPart[r]/(e1*e2+f1*f2*x^n)^FracPart[r]*
+    Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
+FreeQ[{a,b,c,d,e1,f1,e2,f2,g,m,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2]
+
+
+
+`)
+
+func resourcesRubi113GeneralBinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi113GeneralBinomialProductsM, nil
+}
+
+func resourcesRubi113GeneralBinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi113GeneralBinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.1.3 General binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi114ImproperBinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.3.4 Normalizing algebraic functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.3.4 Normalizing algebraic functions*)
+
+
+Int[(a_.+b_.*(c_.*x_^n_)^q_)^p_.,x_Symbol] :=
+  x/(c*x^n)^(1/n)*Subst[Int[(a+b*x^(n*q))^p,x],x,(c*x^n)^(1/n)] /;
+FreeQ[{a,b,c,q,n,p},x] && IntegerQ[n*q]
+
+
+Int[x_^m_.*(a_.+b_.*(c_.*x_^n_)^q_)^p_.,x_Symbol] :=
+  x^(m+1)/(c*x^n)^((m+1)/n)*Subst[Int[x^m*(a+b*x^(n*q))^p,x],x,(c*x^n)^(1/n)] /;
+FreeQ[{a,b,c,m,n,p,q},x] && IntegerQ[n*q] && IntegerQ[m]
+
+
+Int[x_^m_.*(e_.*(a_+b_.*x_^n_.)^r_.)^p_*(f_.*(c_+d_.*x_^n_.)^s_)^q_,x_Symbol] :=
+  (e*(a+b*x^n)^r)^p*(f*(c+d*x^n)^s)^q/((a+b*x^n)^(p*r)*(c+d*x^n)^(q*s))*
+    Int[x^m*(a+b*x^n)^(p*r)*(c+d*x^n)^(q*s),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r,s},x]
+
+
+Int[u_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  (b*e/d)^p*Int[u,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*c-a*d]
+
+
+Int[u_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  Int[u*(e*(a+b*x^n))^p/(c+d*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && PositiveQ[b*d*e] && PositiveQ[c-a*d/b]
+
+
+Int[(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  With[{q=Denominator[p]},
+  q*e*(b*c-a*d)/n*Subst[
+    Int[x^(q*(p+1)-1)*(-a*e+c*x^q)^(1/n-1)/(b*e-d*x^q)^(1/n+1),x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
+FreeQ[{a,b,c,d,e},x] && FractionQ[p] && IntegerQ[1/n]
+
+
+Int[x_^m_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  With[{q=Denominator[p]},
+  q*e*(b*c-a*d)/n*Subst[
+    Int[x^(q*(p+1)-1)*(-a*e+c*x^q)^(Simplify[(m+1)/n]-1)/(b*e-d*x^q)^(Simplify[(m+1)/n]+1),x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
+FreeQ[{a,b,c,d,e,m,n},x] && FractionQ[p] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[u_^r_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  With[{q=Denominator[p]},
+  q*e*(b*c-a*d)/n*Subst[Int[SimplifyIntegrand[x^(q*(p+1)-1)*(-a*e+c*x^q)^(1/n-1)/(b*e-d*x^q)^(1/n+1)*
+    ReplaceAll[u,x->(-a*e+c*x^q)^(1/n)/(b*e-d*x^q)^(1/n)]^r,x],x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[u,x] && FractionQ[p] && IntegerQ[1/n] && IntegerQ[r]
+
+
+Int[x_^m_.*u_^r_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
+  With[{q=Denominator[p]},
+  q*e*(b*c-a*d)/n*Subst[Int[SimplifyIntegrand[x^(q*(p+1)-1)*(-a*e+c*x^q)^((m+1)/n-1)/(b*e-d*x^q)^((m+1)/n+1)*
+    ReplaceAll[u,x->(-a*e+c*x^q)^(1/n)/(b*e-d*x^q)^(1/n)]^r,x],x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[u,x] && FractionQ[p] && IntegerQ[1/n] && IntegersQ[m,r]
+
+
+Int[(a_.+b_.*(c_./x_)^n_)^p_,x_Symbol] :=
+  -c*Subst[Int[(a+b*x^n)^p/x^2,x],x,c/x] /;
+FreeQ[{a,b,c,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*(c_./x_)^n_)^p_.,x_Symbol] :=
+  -c^(m+1)*Subst[Int[(a+b*x^n)^p/x^(m+2),x],x,c/x] /;
+FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
+
+
+Int[(d_.*x_)^m_*(a_.+b_.*(c_./x_)^n_)^p_.,x_Symbol] :=
+  -c*(d*x)^m*(c/x)^m*Subst[Int[(a+b*x^n)^p/x^(m+2),x],x,c/x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(a_.+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
+  -d*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^2,x],x,d/x] /;
+FreeQ[{a,b,c,d,n,p},x] && EqQ[n2-2*n]
+
+
+Int[x_^m_.*(a_+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
+  -d^(m+1)*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^(m+2),x],x,d/x] /;
+FreeQ[{a,b,c,d,n,p},x] && EqQ[n2-2*n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
+  -d*(e*x)^m*(d/x)^m*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^(m+2),x],x,d/x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
+
+
+Int[(a_.+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  -d*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^2,x],x,d/x] /;
+FreeQ[{a,b,c,d,n,p},x] && EqQ[n2+2*n] && IntegerQ[2*n]
+
+
+Int[x_^m_.*(a_+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  -d^(m+1)*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^(m+2),x],x,d/x] /;
+FreeQ[{a,b,c,d,n,p},x] && EqQ[n2+2*n] && IntegerQ[2*n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  -d*(e*x)^m*(d/x)^m*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^(m+2),x],x,d/x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2+2*n] && Not[IntegerQ[m]] && IntegerQ[2*n]
+
+
+Int[u_^m_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m,x] /;
+FreeQ[m,x] && LinearQ[u,x] && Not[LinearMatchQ[u,x]]
+
+
+Int[u_^m_.*v_^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n,x] /;
+FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
+FreeQ[{m,n,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
+
+
+Int[u_^m_.*v_^n_.*w_^p_.*z_^q_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p*ExpandToSum[z,x]^q,x] /;
+FreeQ[{m,n,p,q},x] && LinearQ[{u,v,w,z},x] && Not[LinearMatchQ[{u,v,w,z},x]]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(c_.*x_)^m_.*u_^p_.,x_Symbol] :=
+  Int[(c*x)^m*ExpandToSum[u,x]^p,x] /;
+FreeQ[{c,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[u_^p_.*v_^q_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
+FreeQ[{p,q},x] && BinomialQ[{u,v},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && Not[BinomialMatchQ[{u,v},x]]
+
+
+Int[(e_.*x_)^m_.*u_^p_.*v_^q_.,x_Symbol] :=
+  Int[(e*x)^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
+FreeQ[{e,m,p,q},x] && BinomialQ[{u,v},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && Not[BinomialMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*v_^p_.*w_^q_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p*ExpandToSum[w,x]^q,x] /;
+FreeQ[{m,p,q},x] && BinomialQ[{u,v,w},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && 
+  EqQ[BinomialDegree[u,x]-BinomialDegree[w,x]] && Not[BinomialMatchQ[{u,v,w},x]]
+
+
+Int[(g_.*x_)^m_.*u_^p_.*v_^q_.*z_^r_.,x_Symbol] :=
+  Int[(g*x)^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q*ExpandToSum[z,x]^r,x] /;
+FreeQ[{g,m,p,q,r},x] && BinomialQ[{u,v,z},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && 
+  EqQ[BinomialDegree[u,x]-BinomialDegree[z,x]] && Not[BinomialMatchQ[{u,v,z},x]]
+
+
+Int[(c_.*x_)^m_.*Pq_*u_^p_.,x_Symbol] :=
+  Int[(c*x)^m*Pq*ExpandToSum[u,x]^p,x] /;
+FreeQ[{c,m,p},x] && PolyQ[Pq,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && GeneralizedBinomialQ[u,x] && Not[GeneralizedBinomialMatchQ[u,x]]
+
+
+Int[(c_.*x_)^m_.*u_^p_.,x_Symbol] :=
+  Int[(c*x)^m*ExpandToSum[u,x]^p,x] /;
+FreeQ[{c,m,p},x] && GeneralizedBinomialQ[u,x] && Not[GeneralizedBinomialMatchQ[u,x]]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]]
+
+
+Int[u_^m_.*v_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p,x] /;
+FreeQ[{m,p},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
+FreeQ[{m,n,p},x] && LinearQ[{u,v},x] && QuadraticQ[w,x] && Not[LinearMatchQ[{u,v},x] && QuadraticMatchQ[w,x]]
+
+
+Int[u_^p_.*v_^q_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
+FreeQ[{p,q},x] && QuadraticQ[{u,v},x] && Not[QuadraticMatchQ[{u,v},x]]
+
+
+Int[z_^m_.*u_^p_.*v_^q_.,x_Symbol] :=
+  Int[ExpandToSum[z,x]^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
+FreeQ[{m,p,q},x] && LinearQ[z,x] && QuadraticQ[{u,v},x] && Not[LinearMatchQ[z,x] && QuadraticMatchQ[{u,v},x]]
+
+
+Int[Pq_*u_^p_.,x_Symbol] :=
+  Int[Pq*ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && PolyQ[Pq,x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]]
+
+
+Int[u_^m_.*Pq_*v_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Pq*ExpandToSum[u,x]^p,x] /;
+FreeQ[{m,p},x] && PolyQ[Pq,x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
+
+
+Int[(d_.*x_)^m_.*u_^p_.,x_Symbol] :=
+  Int[(d*x)^m*ExpandToSum[u,x]^p,x] /;
+FreeQ[{d,m,p},x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
+
+
+Int[u_^q_.*v_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^q*ExpandToSum[v,x]^p,x] /;
+FreeQ[{p,q},x] && BinomialQ[u,x] && TrinomialQ[v,x] && Not[BinomialMatchQ[u,x] && TrinomialMatchQ[v,x]]
+
+
+Int[u_^q_.*v_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^q*ExpandToSum[v,x]^p,x] /;
+FreeQ[{p,q},x] && BinomialQ[u,x] && BinomialQ[v,x] && Not[BinomialMatchQ[u,x] && BinomialMatchQ[v,x]]
+
+
+Int[(f_.*x_)^m_.*z_^q_.*u_^p_.,x_Symbol] :=
+  Int[(f*x)^m*ExpandToSum[z,x]^q*ExpandToSum[u,x]^p,x] /;
+FreeQ[{f,m,p,q},x] && BinomialQ[z,x] && TrinomialQ[u,x] && Not[BinomialMatchQ[z,x] && TrinomialMatchQ[u,x]]
+
+
+Int[(f_.*x_)^m_.*z_^q_.*u_^p_.,x_Symbol] :=
+  Int[(f*x)^m*ExpandToSum[z,x]^q*ExpandToSum[u,x]^p,x] /;
+FreeQ[{f,m,p,q},x] && BinomialQ[z,x] && BinomialQ[u,x] && Not[BinomialMatchQ[z,x] && BinomialMatchQ[u,x]]
+
+
+Int[Pq_*u_^p_.,x_Symbol] :=
+  Int[Pq*ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && PolyQ[Pq,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
+
+
+Int[(d_.*x_)^m_.*Pq_*u_^p_.,x_Symbol] :=
+  Int[(d*x)^m*Pq*ExpandToSum[u,x]^p,x] /;
+FreeQ[{d,m,p},x] && PolyQ[Pq,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && GeneralizedTrinomialQ[u,x] && Not[GeneralizedTrinomialMatchQ[u,x]]
+
+
+Int[(d_.*x_)^m_.*u_^p_.,x_Symbol] :=
+  Int[(d*x)^m*ExpandToSum[u,x]^p,x] /;
+FreeQ[{d,m,p},x] && GeneralizedTrinomialQ[u,x] && Not[GeneralizedTrinomialMatchQ[u,x]]
+
+
+Int[z_*u_^p_.,x_Symbol] :=
+  Int[ExpandToSum[z,x]*ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && BinomialQ[z,x] && GeneralizedTrinomialQ[u,x] && 
+  EqQ[BinomialDegree[z,x]-GeneralizedTrinomialDegree[u,x]] && Not[BinomialMatchQ[z,x] && GeneralizedTrinomialMatchQ[u,x]]
+
+
+Int[(f_.*x_)^m_.*z_*u_^p_.,x_Symbol] :=
+  Int[(f*x)^m*ExpandToSum[z,x]*ExpandToSum[u,x]^p,x] /;
+FreeQ[{f,m,p},x] && BinomialQ[z,x] && GeneralizedTrinomialQ[u,x] && 
+  EqQ[BinomialDegree[z,x]-GeneralizedTrinomialDegree[u,x]] && Not[BinomialMatchQ[z,x] && GeneralizedTrinomialMatchQ[u,x]]
+
+
+
+
+
+(* ::Section:: *)
+(*1.1.4 Improper Binomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.4.1 (a x^j+b x^n)^p*)
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^(p+1)/(b*(n-j)(p+1)*x^(n-1)) /;
+FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[j*p-n+j+1]
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
+  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
+FreeQ[{a,b,j,n},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(n*p+n-j+1)/(n-j)]] && RationalQ[p] && p<-1
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^(p+1)/(a*(j*p+1)*x^(j-1)) - 
+  b*(n*p+n-j+1)/(a*(j*p+1))*Int[x^(n-j)*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(n*p+n-j+1)/(n-j)]] && NeQ[j*p+1]
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  x*(a*x^j+b*x^n)^p/(j*p+1) - 
+  b*(n-j)*p/(j*p+1)*Int[x^n*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p>0 && j*p+1<0
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  x*(a*x^j+b*x^n)^p/(n*p+1) + 
+  a*(n-j)*p/(n*p+1)*Int[x^j*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p>0 && NeQ[n*p+1]
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^(p+1)/(b*(n-j)*(p+1)*x^(n-1)) - 
+  (j*p-n+j+1)/(b*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^n,x] /;
+FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p<-1 && j*p+1>n-j
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
+  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
+FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p<-1
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  x*(a*x^j+b*x^n)^p/(p*(n-j)) + a*Int[x^j*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,j,n},x] && PositiveIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[j*p+1]]
+
+
+Int[1/Sqrt[a_.*x_^2+b_.*x_^n_.],x_Symbol] :=
+  2/(2-n)*Subst[Int[1/(1-a*x^2),x],x,x/Sqrt[a*x^2+b*x^n]] /;
+FreeQ[{a,b,n},x] && NeQ[n-2]
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
+  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
+FreeQ[{a,b,j,n},x] && NegativeIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[j*p+1]]
+
+
+Int[1/Sqrt[a_.*x_^j_.+b_.*x_^n_.],x_Symbol] :=
+  -2*Sqrt[a*x^j+b*x^n]/(b*(n-2)*x^(n-1)) - 
+  a*(2*n-j-2)/(b*(n-2))*Int[1/(x^(n-j)*Sqrt[a*x^j+b*x^n]),x] /;
+FreeQ[{a,b},x] && RationalQ[j,n] && 2*(n-1)<j<n
+
+
+(* Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  x*(a*x^j+b*x^n)^p/(p*(n-j)*((a*x^j+b*x^n)/(b*x^n))^p)*Hypergeometric2F1[-p,-p,1-p,-a/(b*x^(n-j))] /;
+FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[j*p+1] *)
+
+
+(* Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  x*(a*x^j+b*x^n)^p/((j*p+1)*((a*x^j+b*x^n)/(a*x^j))^p)*
+    Hypergeometric2F1[-p,(j*p+1)/(n-j),(j*p+1)/(n-j)+1,-b*x^(n-j)/a] /;
+FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NeQ[j*p+1] *)
+
+
+Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^FracPart[p]/(x^(j*FracPart[p])*(a+b*x^(n-j))^FracPart[p])*Int[x^(j*p)*(a+b*x^(n-j))^p,x] /;
+FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && PosQ[n-j]
+
+
+Int[(a_.*u_^j_.+b_.*u_^n_.)^p_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a*x^j+b*x^n)^p,x],x,u] /;
+FreeQ[{a,b,j,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.4.2 (c x)^m (a x^j+b x^n)^p*)
+
+
+Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && EqQ[Simplify[m-n+1]]
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[m+n*p+n-j+1] && (IntegerQ[j] || PositiveQ[c])
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
+  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,j,m,n},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]] && 
+  RationalQ[p] && p<-1 && (IntegerQ[j] || PositiveQ[c])
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(m+j*p+1)) - 
+  b*(m+n*p+n-j+1)/(a*c^(n-j)*(m+j*p+1))*Int[(c*x)^(m+n-j)*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]] && 
+  NeQ[m+j*p+1] && (IntegersQ[j,n] || PositiveQ[c])
+
+
+Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]]
+
+
+Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[(m+1)/n]] && 
+  NeQ[n^2-1]
+
+
+Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[(m+1)/n]] && 
+  NeQ[n^2-1]
+
+
+Int[(c_.*x_)^m_*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*(m+j*p+1)) - 
+  b*p*(n-j)/(c^n*(m+j*p+1))*Int[(c*x)^(m+n)*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c},x] && Not[IntegerQ[p]] && RationalQ[j,m,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p>0 && m+j*p+1<0
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*(m+n*p+1)) + 
+  a*(n-j)*p/(c^j*(m+n*p+1))*Int[(c*x)^(m+j)*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p>0 && NeQ[m+n*p+1]
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^(n-1)*(c*x)^(m-n+1)*(a*x^j+b*x^n)^(p+1)/(b*(n-j)*(p+1)) - 
+  c^n*(m+j*p-n+j+1)/(b*(n-j)*(p+1))*Int[(c*x)^(m-n)*(a*x^j+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c},x] && Not[IntegerQ[p]] && RationalQ[j,m,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p<-1 && m+j*p+1>n-j
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
+  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p<-1
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^(n-1)*(c*x)^(m-n+1)*(a*x^j+b*x^n)^(p+1)/(b*(m+n*p+1)) - 
+  a*c^(n-j)*(m+j*p-n+j+1)/(b*(m+n*p+1))*Int[(c*x)^(m-(n-j))*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && Not[IntegerQ[p]] && RationalQ[j,n] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && PositiveQ[m+j*p+1-n+j] && 
+  NeQ[m+n*p+1]
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(m+j*p+1)) - 
+  b*(m+n*p+n-j+1)/(a*c^(n-j)*(m+j*p+1))*Int[(c*x)^(m+n-j)*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && Not[IntegerQ[p]] && RationalQ[j,n] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && NegativeQ[m+j*p+1]
+
+
+Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a*x^Simplify[j/(m+1)]+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && NeQ[m+1] && 
+  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && NeQ[m+1] && 
+  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*p*(n-j)) + a/c^j*Int[(c*x)^(m+j)*(a*x^j+b*x^n)^(p-1),x] /;
+FreeQ[{a,b,c,j,m,n},x] && PositiveIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]] && (IntegerQ[j] || PositiveQ[c])
+
+
+Int[x_^m_./Sqrt[a_.*x_^j_.+b_.*x_^n_.],x_Symbol] :=
+  -2/(n-j)*Subst[Int[1/(1-a*x^2),x],x,x^(j/2)/Sqrt[a*x^j+b*x^n]] /;
+FreeQ[{a,b,j,n},x] && EqQ[m-j/2+1] && NeQ[n-j]
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
+  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,c,j,m,n},x] && NegativeIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]] && (IntegerQ[j] || PositiveQ[c])
+
+
+Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && IntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]]
+
+
+(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^(p+1)/(b*p*(n-j)*x^(n+j*p))*Hypergeometric2F1[1,1,1-p,-a/(b*x^(n-j))] /;
+FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && EqQ[m+j*p+1] *)
+
+
+(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^n)^(p+1)/(b*(p-1)*(n-j)*x^(2*n+j*(p-1)))*Hypergeometric2F1[1,2,2-p,-a/(b*x^(n-j))] /;
+FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && EqQ[m+n+(p-1)*j+1] *)
+
+
+(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  (x^(m-j+1)*(a*x^j+b*x^n)^(p+1))/(a*(m+j*p+1))*Hypergeometric2F1[1,(m+n*p+1)/(n-j)+1,(m+j*p+1)/(n-j)+1,-b*x^(n-j)/a] /;
+FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && NeQ[m+j*p+1] && NeQ[m+n+(p-1)*j+1] *)
+
+
+Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]*(a*x^j+b*x^n)^FracPart[p]/
+    (x^(FracPart[m]+j*FracPart[p])*(a+b*x^(n-j))^FracPart[p])*
+    Int[x^(m+j*p)*(a+b*x^(n-j))^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && PosQ[n-j]
+
+
+Int[u_^m_.*(a_.*v_^j_.+b_.*v_^n_.)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a*x^j+b*x^n)^p,x],x,v] /;
+FreeQ[{a,b,j,m,n,p},x] && LinearPairQ[u,v,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.4.3 (e x)^m (a x^j+b x^k)^p (c+d x^n)^q*)
+
+
+Int[x_^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a*x^Simplify[j/n]+b*x^Simplify[k/n])^p*(c+d*x)^q,x],x,x^n] /;
+FreeQ[{a,b,c,d,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
+  IntegerQ[Simplify[(m+1)/n]] && NeQ[n^2-1]
+
+
+Int[(e_*x_)^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^k)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
+  IntegerQ[Simplify[(m+1)/n]] && NeQ[n^2-1]
+
+
+Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
+  c*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*(m+j*p+1)) /;
+FreeQ[{a,b,c,d,e,j,m,n,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && 
+  EqQ[a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1)] && (PositiveQ[e] || IntegersQ[j]) && NeQ[m+j*p+1]
+
+
+Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
+  -e^(j-1)*(b*c-a*d)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*b*n*(p+1)) - 
+  e^j*(a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(a*b*n*(p+1))*Int[(e*x)^(m-j)*(a*x^j+b*x^(j+n))^(p+1),x] /;
+FreeQ[{a,b,c,d,e,j,m,n},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && RationalQ[j,m,p] && p<-1 && 0<j<=m && 
+  (PositiveQ[e] || IntegerQ[j])
+
+
+Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
+  c*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*(m+j*p+1)) + 
+  (a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(a*e^n*(m+j*p+1))*Int[(e*x)^(m+n)*(a*x^j+b*x^(j+n))^p,x] /;
+FreeQ[{a,b,c,d,e,j,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && RationalQ[m,n] && n>0 && 
+  (m+j*p<-1 || IntegersQ[m-1/2,p-1/2] && p<0 && m<-n*p-1) && 
+  (PositiveQ[e] || IntegersQ[j,n]) && NeQ[m+j*p+1] && NeQ[m-n+j*p+1]
+
+
+Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
+  d*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(b*(m+n+p*(j+n)+1)) - 
+  (a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(b*(m+n+p*(j+n)+1))*Int[(e*x)^m*(a*x^j+b*x^(j+n))^p,x] /;
+FreeQ[{a,b,c,d,e,j,m,n,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && 
+  NeQ[m+n+p*(j+n)+1] && (PositiveQ[e] || IntegerQ[j])
+
+
+Int[x_^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a*x^Simplify[j/(m+1)]+b*x^Simplify[k/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
+  NeQ[m+1] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^k)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
+  NeQ[m+1] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]*(a*x^j+b*x^(j+n))^FracPart[p]/
+    (x^(FracPart[m]+j*FracPart[p])*(a+b*x^n)^FracPart[p])*
+    Int[x^(m+j*p)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,e,j,m,n,p,q},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && Not[EqQ[n-1] && EqQ[j-1]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.4.4 (c x)^m Pq(x) (a x^j+b x^n)^p*)
+
+
+Int[Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{d=Denominator[n]},
+  d*Subst[Int[x^(d-1)*ReplaceAll[SubstFor[x^n,Pq,x],x->x^(d*n)]*(a*x^(d*j)+b*x^(d*n))^p,x],x,x^(1/d)]] /;
+FreeQ[{a,b,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && RationalQ[j,n] && IntegerQ[j/n] && -1<n<1
+
+
+Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(c_*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  c^(Sign[m]*Quotient[m,Sign[m]])*(c*x)^Mod[m,Sign[m]]/x^Mod[m,Sign[m]]*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[(m+1)/n]] && RationalQ[m] && m^2>1
+
+
+Int[(c_*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^m/x^m*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{g=GCD[m+1,n]},
+  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a*x^(j/g)+b*x^(n/g))^p,x],x,x^g] /;
+ g!=1] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && PositiveIntegerQ[j,n,j/n] && IntegerQ[m]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    Pqq*(c*x)^(m+q-n+1)*(a*x^j+b*x^n)^(p+1)/(b*c^(q-n+1)*(m+q+n*p+1)) + 
+    Int[(c*x)^m*ExpandToSum[Pq-Pqq*x^q-a*Pqq*(m+q-n+1)*x^(q-n)/(b*(m+q+n*p+1)),x]*(a*x^j+b*x^n)^p,x]] /;
+  q>n-1 && m+q+n*p+1!=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
+FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && Not[IntegerQ[p]] && PositiveIntegerQ[j,n] && j<n
+
+
+Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  1/(m+1)*Subst[
+    Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a*x^Simplify[j/(m+1)]+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_*x_)^m_*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  c^(Sign[m]*Quotient[m,Sign[m]])*(c*x)^Mod[m,Sign[m]]/x^Mod[m,Sign[m]]*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]] && RationalQ[m] && m^2>1
+
+
+Int[(c_*x_)^m_*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  (c*x)^m/x^m*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
+  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*Pq*(a*x^j+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,j,m,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n]) && Not[IntegerQ[p]] && NeQ[n-j]
+
+
+Int[Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a*x^j+b*x^n)^p,x],x] /;
+FreeQ[{a,b,j,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n]) && Not[IntegerQ[p]] && NeQ[n-j]
+
+
+
+`)
+
+func resourcesRubi114ImproperBinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi114ImproperBinomialProductsM, nil
+}
+
+func resourcesRubi114ImproperBinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi114ImproperBinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.1.4 Improper binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi121QuadraticTrinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Quadratic Product Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.1 (a+b x+c x^2)^p*)
+
+
+Int[1/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (b/2+c*x)/Sqrt[a+b*x+c*x^2]*Int[1/(b/2+c*x),x] /;
+FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (b+2*c*x)*(a+b*x+c*x^2)^p/(2*c*(2*p+1)) /;
+FreeQ[{a,b,c,p},x] && EqQ[b^2-4*a*c,0] && NeQ[p,-1/2]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  1/c^p*Int[Simp[b/2-q/2+c*x,x]^p*Simp[b/2+q/2+c*x,x]^p,x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && IGtQ[p,0] && PerfectSquareQ[b^2-4*a*c]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && IGtQ[p,0] && Not[PerfectSquareQ[b^2-4*a*c]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (b+2*c*x)*(a+b*x+c*x^2)^p/(2*c*(2*p+1)) -
+  p*(b^2-4*a*c)/(2*c*(2*p+1))*Int[(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && GtQ[p,0] && IntegerQ[4*p]
+
+
+Int[1/(a_.+b_.*x_+c_.*x_^2)^(3/2),x_Symbol] :=
+  -2*(b+2*c*x)/((b^2-4*a*c)*Sqrt[a+b*x+c*x^2]) /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) -
+  2*c*(2*p+3)/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && NeQ[p,-3/2] && IntegerQ[4*p]
+
+
+Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  c/q*Int[1/Simp[b/2-q/2+c*x,x],x] - c/q*Int[1/Simp[b/2+q/2+c*x,x],x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && PosQ[b^2-4*a*c] && PerfectSquareQ[b^2-4*a*c]
+
+
+Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
+  With[{q=1-4*Simplify[a*c/b^2]},
+  -2/b*Subst[Int[1/(q-x^2),x],x,1+2*c*x/b] /;
+ RationalQ[q] && (EqQ[q^2,1] || Not[RationalQ[b^2-4*a*c]])] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
+  -2*Subst[Int[1/Simp[b^2-4*a*c-x^2,x],x],x,b+2*c*x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  1/(2*c*(-4*c/(b^2-4*a*c))^p)*Subst[Int[Simp[1-x^2/(b^2-4*a*c),x]^p,x],x,b+2*c*x] /;
+FreeQ[{a,b,c,p},x] && PositiveQ[4*a-b^2/c]
+
+
+Int[1/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
+  2*Subst[Int[1/(1-c*x^2),x],x,x/Sqrt[b*x+c*x^2]] /;
+FreeQ[{b,c},x]
+
+
+Int[1/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
+  2*Subst[Int[1/(4*c-x^2),x],x,(b+2*c*x)/Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (b*x+c*x^2)^p/(-c*(b*x+c*x^2)/(b^2))^p*Int[(-c*x/b-c^2*x^2/b^2)^p,x] /;
+FreeQ[{b,c},x] && RationalQ[p] && 3<=Denominator[p]<=4
+
+
+(* Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^p/(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*Int[(-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c))^p,x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && 3<=Denominator[p]<=4 *)
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{d=Denominator[p]},
+  d*Sqrt[(b+2*c*x)^2]/(b+2*c*x)*Subst[Int[x^(d*(p+1)-1)/Sqrt[b^2-4*a*c+4*c*x^d],x],x,(a+b*x+c*x^2)^(1/d)] /;
+ 3<=d<=4] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && RationalQ[p]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -(a+b*x+c*x^2)^(p+1)/(q*(p+1)*((q-b-2*c*x)/(2*q))^(p+1))*Hypergeometric2F1[-p,p+1,p+2,(b+q+2*c*x)/(2*q)]] /;
+FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[4*p]]
+
+
+Int[(a_.+b_.*u_+c_.*u_^2)^p_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p,x],x,u] /;
+FreeQ[{a,b,c,p},x] && LinearQ[u,x] && NeQ[u,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.2 (d+e x)^m (a+b x+c x^2)^p*)
+
+
+Int[(d_+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(p+1)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && IGtQ[p,0]
+
+
+Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && IGtQ[p,0]
+
+
+Int[(d_.+e_.*x_)/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (c*d-e*(b/2-q/2))/q*Int[1/(b/2-q/2+c*x),x] - (c*d-e*(b/2+q/2))/q*Int[1/(b/2+q/2+c*x),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NiceSqrtQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (e/2+c*d/(2*q))*Int[1/(-q+c*x),x] + (e/2-c*d/(2*q))*Int[1/(q+c*x),x]] /;
+FreeQ[{a,c,d,e},x] && NiceSqrtQ[-a*c]
+
+
+Int[(d_.+e_.*x_)/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
+(* (d-b*e/(2*c))*Int[1/(a+b*x+c*x^2),x] + *)
+  (2*c*d-b*e)/(2*c)*Int[1/(a+b*x+c*x^2),x] + e/(2*c)*Int[(b+2*c*x)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && Not[NiceSqrtQ[b^2-4*a*c]]
+
+
+Int[(d_+e_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  d*Int[1/(a+c*x^2),x] + e*Int[x/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e},x] && Not[NiceSqrtQ[-a*c]]
+
+
+Int[(d_.+e_.*x_)/(a_.+b_.*x_+c_.*x_^2)^(3/2),x_Symbol] :=
+  -2*(b*d-2*a*e+(2*c*d-b*e)*x)/((b^2-4*a*c)*Sqrt[a+b*x+c*x^2]) /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_)/(a_+c_.*x_^2)^(3/2),x_Symbol] :=
+  (-a*e+c*d*x)/(a*c*Sqrt[a+c*x^2]) /;
+FreeQ[{a,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (b*d-2*a*e+(2*c*d-b*e)*x)/((p+1)*(b^2-4*a*c))*(a+b*x+c*x^2)^(p+1) - 
+  (2*p+3)*(2*c*d-b*e)/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1]
+
+
+Int[(d_+e_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (a*e-c*d*x)/(2*a*c*(p+1))*(a+c*x^2)^(p+1) + 
+  d*(2*p+3)/(2*a*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && LtQ[p,-1]
+
+
+Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(a+b*x+c*x^2)^(p+1)/(2*c*(p+1)) + (2*c*d-b*e)/(2*c)*Int[(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p,-1]
+
+
+Int[(d_.+e_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  e*(a+c*x^2)^(p+1)/(2*c*(p+1)) + d*Int[(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,p},x] && NeQ[p,-1]
+
+
+Int[(d_+e_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^p/(d+e*x)^(2*p)*Int[(d+e*x)^(m+2*p),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(b/2+c*x)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && IntegerQ[m+p])
+
+
+(* Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(a+b*x+c*x^2)^(m+p),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]] *)
+
+
+(* Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(a+c*x^2)^(m+p),x] /;
+FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]] *)
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+p,0]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(p+1)) /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+p,0]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((p+1)*(2*c*d-b*e)) /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+2*p+2,0]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+2*p+2,0]
+
+
+Int[(d_.+e_.*x_)^2*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - e^2*(p+2)/(c*(p+1))*Int[(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
+
+
+Int[(d_+e_.*x_)^2*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)*(a+c*x^2)^(p+1)/(c*(p+1)) - e^2*(p+2)/(c*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(a+b*x+c*x^2)^(m+p)/(a/d+c*x/e)^m,x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && IntegerQ[m] && 
+  RationalQ[p] && (0<-m<p || p<-m<0) && m!=2 && m!=-1
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  d^(2*m)/a^m*Int[(a+c*x^2)^(m+p)/(d-e*x)^m,x] /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && IntegerQ[m] && 
+  RationalQ[p] && (0<-m<p || p<-m<0) && m!=2 && m!=-1
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  Simplify[m+p]*(2*c*d-b*e)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && PositiveIntegerQ[Simplify[m+p]]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  2*c*d*Simplify[m+p]/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && PositiveIntegerQ[Simplify[m+p]]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((m+p+1)*(2*c*d-b*e)) + 
+  c*Simplify[m+2*p+2]/((m+p+1)*(2*c*d-b*e))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && 
+  NegativeIntegerQ[Simplify[m+2*p+2]]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
+  Simplify[m+2*p+2]/(2*d*(m+p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && NegativeIntegerQ[Simplify[m+2*p+2]]
+
+
+Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  2*e*Subst[Int[1/(2*c*d-b*e+e^2*x^2),x],x,Sqrt[a+b*x+c*x^2]/Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[1/(Sqrt[d_+e_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  2*e*Subst[Int[1/(2*c*d+e^2*x^2),x],x,Sqrt[a+c*x^2]/Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+p+1)) - 
+  c*p/(e^2*(m+p+1))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p>0 && 
+  (m<-2 || EqQ[m+2*p+1]) && NeQ[m+p+1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+p+1)) - 
+  c*p/(e^2*(m+p+1))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p>0 && 
+  (m<-2 || EqQ[m+2*p+1]) && NeQ[m+p+1] && IntegerQ[2*p]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
+  p*(2*c*d-b*e)/(e^2*(m+2*p+1))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p>0 && 
+  (-2<=m<0 || m+p+1==0) && NeQ[m+2*p+1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+2*p+1)) - 
+  2*c*d*p/(e^2*(m+2*p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p>0 && 
+  (-2<=m<0 || m+p+1==0) && NeQ[m+2*p+1] && IntegerQ[2*p]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (2*c*d-b*e)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) - 
+  (2*c*d-b*e)*(m+2*p+2)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && 0<m<=1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -d*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*a*e*(p+1)) + 
+  d*(m+2*p+2)/(2*a*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && 0<m<=1 && IntegerQ[2*p]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - 
+  e^2*(m+p)/(c*(p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(p+1)) - 
+  e^2*(m+p)/(c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  (m+p)*(2*c*d-b*e)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m>=1 && 
+  NeQ[m+2*p+1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  2*c*d*(m+p)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m] && m>=1 && NeQ[m+2*p+1] && IntegerQ[2*p]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((m+p+1)*(2*c*d-b*e)) + 
+  c*(m+2*p+2)/((m+p+1)*(2*c*d-b*e))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m<0 && NeQ[m+p+1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
+  (m+2*p+2)/(2*d*(m+p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m] && m<0 && NeQ[m+p+1] && IntegerQ[2*p]
+
+
+Int[(e_.*x_)^m_*(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (e*x)^m*(b*x+c*x^2)^p/(x^(m+p)*(b+c*x)^p)*Int[x^(m+p)*(b+c*x)^p,x] /;
+FreeQ[{b,c,e,m},x] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && PositiveQ[a] && PositiveQ[d]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,m},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]]
+
+
+Int[1/((d_+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  -4*b*c/(d*(b^2-4*a*c))*Int[1/(b+2*c*x),x] + 
+  b^2/(d^2*(b^2-4*a*c))*Int[(d+e*x)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  2*c*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && EqQ[m+2*p+3] && NeQ[p+1]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && PositiveIntegerQ[p] && Not[EqQ[m-3] && p!=1]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+1)) - 
+  b*p/(d*e*(m+1))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m,p] && p>0 && m<-1 && 
+  Not[EvenQ[m] && m+2*p+3<0] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
+  d*p*(b^2-4*a*c)/(b*e*(m+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[p] && p>0 && 
+  Not[RationalQ[m] && m<-1] && Not[PositiveIntegerQ[(m-1)/2] && (Not[IntegerQ[p]] || m<2*p)] && RationalQ[m] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  d*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(b*(p+1)) - 
+  d*e*(m-1)/(b*(p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m,p] && p<-1 && m>1 && 
+  IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  2*c*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) - 
+  2*c*e*(m+2*p+3)/(e*(p+1)*(b^2-4*a*c))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[p] && p<-1 && 
+  Not[RationalQ[m] && m>1] && RationalQ[m] && IntegerQ[2*p]
+
+
+Int[1/((d_+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  4*c*Subst[Int[1/(b^2*e-4*a*c*e+4*c*e*x^2),x],x,Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
+
+
+Int[1/(Sqrt[d_+e_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  4/e*Sqrt[-c/(b^2-4*a*c)]*Subst[Int[1/Sqrt[Simp[1-b^2*x^4/(d^2*(b^2-4*a*c)),x]],x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NegativeQ[c/(b^2-4*a*c)]
+
+
+Int[Sqrt[d_+e_.*x_]/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  4/e*Sqrt[-c/(b^2-4*a*c)]*Subst[Int[x^2/Sqrt[Simp[1-b^2*x^4/(d^2*(b^2-4*a*c)),x]],x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NegativeQ[c/(b^2-4*a*c)]
+
+
+Int[(d_+e_.*x_)^m_/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Sqrt[-c*(a+b*x+c*x^2)/(b^2-4*a*c)]/Sqrt[a+b*x+c*x^2]*
+    Int[(d+e*x)^m/Sqrt[-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c)],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && EqQ[m^2,1/4]
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  2*d*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(b*(m+2*p+1)) + 
+  d^2*(m-1)*(b^2-4*a*c)/(b^2*(m+2*p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m] && m>1 && 
+  NeQ[m+2*p+1] && (IntegerQ[2*p] || IntegerQ[m] && RationalQ[p] || OddQ[m])
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -2*b*d*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(d^2*(m+1)*(b^2-4*a*c)) + 
+  b^2*(m+2*p+3)/(d^2*(m+1)*(b^2-4*a*c))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m] && m<-1 && 
+  (IntegerQ[2*p] || IntegerQ[m] && RationalQ[p] || IntegerQ[(m+2*p+3)/2])
+
+
+Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  1/e*Subst[Int[x^m*(a-b^2/(4*c)+(c*x^2)/e^2)^p,x],x,d+e*x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[p] && Not[EqQ[m-1] && p>1] 
+
+
+(* Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[(c*d^2-b*d*e+a*e^2)/c,2]},
+  1/2*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x] + 
+  1/2*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  NegativeQ[b^2-4*a*c] *)
+
+
+(* Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[(c*d^2+a*e^2)/c,2]},
+  1/2*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x] + 
+  1/2*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeQ[-a*c] *)
+
+
+(* Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*d-b*e+e*q)/q*Int[1/(Sqrt[d+e*x]*(b-q+2*c*x)),x] - 
+  (2*c*d-b*e-e*q)/q*Int[1/(Sqrt[d+e*x]*(b+q+2*c*x)),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] (* && 
+  Not[NegativeQ[b^2-4*a*c]] *) *)
+
+
+(* Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (c*d+e*q)/(2*q)*Int[1/(Sqrt[d+e*x]*(-q+c*x)),x] - 
+  (c*d-e*q)/(2*q)*Int[1/(Sqrt[d+e*x]*(+q+c*x)),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] (* && Not[NegativeQ[-a*c]] *) *)
+
+
+Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  2*e*Subst[Int[x^2/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
+
+
+Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
+  2*e*Subst[Int[x^2/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[PolynomialDivide[(d+e*x)^m,a+b*x+c*x^2,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  IntegerQ[m] && m>1 && (NeQ[d] || m>2)
+
+
+Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
+  Int[PolynomialDivide[(d+e*x)^m,a+c*x^2,x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && IntegerQ[m] && m>1 && (NeQ[d] || m>2)
+
+
+Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m-1)/(c*(m-1)) + 
+  1/c*Int[(d+e*x)^(m-2)*Simp[c*d^2-a*e^2+e*(2*c*d-b*e)*x,x]/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[m] && m>1
+
+
+Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m-1)/(c*(m-1)) + 
+  1/c*Int[(d+e*x)^(m-2)*Simp[c*d^2-a*e^2+2*c*d*e*x,x]/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m] && m>1
+
+
+Int[1/((d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  e^2/(c*d^2-b*d*e+a*e^2)*Int[1/(d+e*x),x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(c*d-b*e-c*e*x)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
+
+
+Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)),x_Symbol] :=
+  e^2/(c*d^2+a*e^2)*Int[1/(d+e*x),x] + 
+  1/(c*d^2+a*e^2)*Int[(c*d-c*e*x)/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+(* Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  With[{q=Rt[(c*d^2-b*d*e+a*e^2)/c,2]},
+  1/(2*q)*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x] - 
+  1/(2*q)*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  NegativeQ[b^2-4*a*c] *)
+
+
+(* Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
+  With[{q=Rt[(c*d^2+a*e^2)/c,2]},
+  1/(2*q)*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x] - 
+  1/(2*q)*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeQ[-a*c] *)
+
+
+(* Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(Sqrt[d+e*x]*(b-q+2*c*x)),x] - 
+  2*c/q*Int[1/(Sqrt[d+e*x]*(b+q+2*c*x)),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] (* && 
+  Not[NegativeQ[b^2-4*a*c]] *) *)
+
+
+(* Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  c/(2*q)*Int[1/(Sqrt[d+e*x]*(-q+c*x)),x] - 
+  c/(2*q)*Int[1/(Sqrt[d+e*x]*(q+c*x)),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] (* && Not[NegativeQ[-a*c]] *) *)
+
+
+Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  2*e*Subst[Int[1/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
+
+
+Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
+  2*e*Subst[Int[1/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d-b*e-c*e*x,x]/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[m] && m<-1
+
+
+Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m+1)/((m+1)*(c*d^2+a*e^2)) + 
+  c/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(d-e*x)/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[m] && m<-1
+
+
+Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m,1/(a+b*x+c*x^2),x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[m]]
+
+
+Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m,1/(a+c*x^2),x],x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]]
+
+
+Int[(d_.+e_.*x_)^m_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(d+e*x)^(m-p)*(a*d+c*e*x^3)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b*d+a*e] && EqQ[c*d+b*e] && PositiveIntegerQ[m-p+1] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
+  Int[(d+e*x)^m/(Sqrt[b*x]*Sqrt[1+c/b*x]),x] /;
+FreeQ[{b,c,d,e},x] && NeQ[c*d-b*e] && NeQ[2*c*d-b*e] && RationalQ[m] && m^2==1/4 && NegativeQ[c] && RationalQ[b]
+
+
+Int[(d_.+e_.*x_)^m_/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
+  Sqrt[x]*Sqrt[b+c*x]/Sqrt[b*x+c*x^2]*Int[(d+e*x)^m/(Sqrt[x]*Sqrt[b+c*x]),x] /;
+FreeQ[{b,c,d,e},x] && NeQ[c*d-b*e] && NeQ[2*c*d-b*e] && RationalQ[m] && m^2==1/4
+
+
+Int[x_^m_/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
+  2*Subst[Int[x^(2*m+1)/Sqrt[a+b*x^2+c*x^4],x],x,Sqrt[x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && EqQ[m^2-1/4]
+
+
+Int[(e_*x_)^m_/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (e*x)^m/x^m*Int[x^m/Sqrt[a+b*x+c*x^2], x] /;
+FreeQ[{a,b,c,e},x] && NeQ[b^2-4*a*c,0] && EqQ[m^2-1/4]
+
+
+Int[(d_.+e_.*x_)^m_/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  2*Rt[b^2-4*a*c,2]*(d+e*x)^m*Sqrt[-c*(a+b*x+c*x^2)/(b^2-4*a*c)]/
+    (c*Sqrt[a+b*x+c*x^2]*(2*c*(d+e*x)/(2*c*d-b*e-e*Rt[b^2-4*a*c,2]))^m)*
+    Subst[Int[(1+2*e*Rt[b^2-4*a*c,2]*x^2/(2*c*d-b*e-e*Rt[b^2-4*a*c,2]))^m/Sqrt[1-x^2],x],x,
+      Sqrt[(b+Rt[b^2-4*a*c,2]+2*c*x)/(2*Rt[b^2-4*a*c,2])]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m^2-1/4]
+
+
+Int[(d_+e_.*x_)^m_/Sqrt[a_+c_.*x_^2],x_Symbol] :=
+  2*a*Rt[-c/a,2]*(d+e*x)^m*Sqrt[1+c*x^2/a]/(c*Sqrt[a+c*x^2]*(c*(d+e*x)/(c*d-a*e*Rt[-c/a,2]))^m)*
+    Subst[Int[(1+2*a*e*Rt[-c/a,2]*x^2/(c*d-a*e*Rt[-c/a,2]))^m/Sqrt[1-x^2],x],x,Sqrt[(1-Rt[-c/a,2]*x)/2]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && EqQ[m^2-1/4]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^(m+1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^p/(2*(m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  p*(b^2-4*a*c)/(2*(m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  RationalQ[m,p] && m+2*p+2==0 && p>0
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^(m+1)*(-2*a*e+(2*c*d)*x)*(a+c*x^2)^p/(2*(m+1)*(c*d^2+a*e^2)) - 
+  4*a*c*p/(2*(m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && m+2*p+2==0 && p>0
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m-1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) - 
+  2*(2*p+3)*(c*d^2-b*d*e+a*e^2)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  RationalQ[m,p] && m+2*p+2==0 && p<-1
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m-1)*(a*e-c*d*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
+  (2*p+3)*(c*d^2+a*e^2)/(2*a*c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && m+2*p+2==0 && p<-1
+
+
+Int[1/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  -2*Subst[Int[1/(4*c*d^2-4*b*d*e+4*a*e^2-x^2),x],x,(2*a*e-b*d-(2*c*d-b*e)*x)/Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[2*c*d-b*e]
+
+
+Int[1/((d_+e_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  -Subst[Int[1/(c*d^2+a*e^2-x^2),x],x,(a*e-c*d*x)/Sqrt[a+c*x^2]] /;
+FreeQ[{a,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(b-Rt[b^2-4*a*c,2]+2*c*x)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^p/
+    ((m+1)*(2*c*d-b*e+e*Rt[b^2-4*a*c,2])*
+      ((2*c*d-b*e+e*Rt[b^2-4*a*c,2])*(b+Rt[b^2-4*a*c,2]+2*c*x)/((2*c*d-b*e-e*Rt[b^2-4*a*c,2])*(b-Rt[b^2-4*a*c,2]+2*c*x)))^p)*
+    Hypergeometric2F1[m+1,-p,m+2,-4*c*Rt[b^2-4*a*c,2]*(d+e*x)/((2*c*d-b*e-e*Rt[b^2-4*a*c,2])*(b-Rt[b^2-4*a*c,2]+2*c*x))] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]] && 
+  EqQ[m+2*p+2]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (Rt[-a*c,2]-c*x)*(d+e*x)^(m+1)*(a+c*x^2)^p/
+    ((m+1)*(c*d+e*Rt[-a*c,2])*((c*d+e*Rt[-a*c,2])*(Rt[-a*c,2]+c*x)/((c*d-e*Rt[-a*c,2])*(-Rt[-a*c,2]+c*x)))^p)*
+    Hypergeometric2F1[m+1,-p,m+2,2*c*Rt[-a*c,2]*(d+e*x)/((c*d-e*Rt[-a*c,2])*(Rt[-a*c,2]-c*x))] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
+  m*(2*c*d-b*e)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m+2*p+3] && 
+  RationalQ[p] && p<-1
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^m*(2*c*x)*(a+c*x^2)^(p+1)/(4*a*c*(p+1)) - 
+  m*(2*c*d)/(4*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && EqQ[m+2*p+3] && RationalQ[p] && p<-1
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  (2*c*d-b*e)/(2*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m+2*p+3]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
+  c*d/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && EqQ[m+2*p+3]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+1)) - 
+  p/(e*(m+1))*Int[(d+e*x)^(m+1)*(b+2*c*x)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[p] && p>0 && 
+  (IntegerQ[p] || RationalQ[m] && m<-1) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+1)) - 
+  2*c*p/(e*(m+1))*Int[x*(d+e*x)^(m+1)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p>0 && 
+  (IntegerQ[p] || RationalQ[m] && m<-1) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
+  p/(e*(m+2*p+1))*Int[(d+e*x)^m*Simp[b*d-2*a*e+(2*c*d-b*e)*x,x]*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[p] && p>0 && 
+  NeQ[m+2*p+1] && (Not[RationalQ[m]] || m<1) && Not[NegativeIntegerQ[m+2*p]] && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+2*p+1)) + 
+  2*p/(e*(m+2*p+1))*Int[(d+e*x)^m*Simp[a*e-c*d*x,x]*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p>0 && 
+  NeQ[m+2*p+1] && (Not[RationalQ[m]] || m<1) && Not[NegativeIntegerQ[m+2*p]] && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) - 
+  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(b*e*m+2*c*d*(2*p+3)+2*c*e*(m+2*p+3)*x)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  RationalQ[m,p] && p<-1 && m>0 && (m<1 || NegativeIntegerQ[m+2*p+3] && m!=2) && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -x*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*a*(p+1)) + 
+  1/(2*a*(p+1))*Int[(d+e*x)^(m-1)*(d*(2*p+3)+e*(m+2*p+3)*x)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && 
+  RationalQ[m,p] && p<-1 && m>0 && (m<1 || NegativeIntegerQ[m+2*p+3] && m!=2) && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m-1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
+  1/((p+1)*(b^2-4*a*c))*
+    Int[(d+e*x)^(m-2)*
+      Simp[e*(2*a*e*(m-1)+b*d*(2*p-m+4))-2*c*d^2*(2*p+3)+e*(b*e-2*d*c)*(m+2*p+2)*x,x]*
+      (a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  RationalQ[m,p] && p<-1 && m>1 && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m-1)*(a*e-c*d*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
+  1/((p+1)*(-2*a*c))*
+    Int[(d+e*x)^(m-2)*Simp[a*e^2*(m-1)-c*d^2*(2*p+3)-d*c*e*(m+2*p+2)*x,x]*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && p<-1 && m>1 && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(b*c*d-b^2*e+2*a*c*e+c*(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*
+    Int[(d+e*x)^m*
+      Simp[b*c*d*e*(2*p-m+2)+b^2*e^2*(m+p+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3)-c*e*(2*c*d-b*e)*(m+2*p+4)*x,x]*
+      (a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  RationalQ[p] && p<-1 && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^(m+1)*(a*e+c*d*x)*(a+c*x^2)^(p+1)/(2*a*(p+1)*(c*d^2+a*e^2)) + 
+  1/(2*a*(p+1)*(c*d^2+a*e^2))*
+    Int[(d+e*x)^m*Simp[c*d^2*(2*p+3)+a*e^2*(m+2*p+3)+c*e*d*(m+2*p+4)*x,x]*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p<-1 && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  1/(c*(m+2*p+1))*
+    Int[(d+e*x)^(m-2)*
+      Simp[c*d^2*(m+2*p+1)-e*(a*e*(m-1)+b*d*(p+1))+e*(2*c*d-b*e)*(m+p)*x,x]*
+      (a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  If[RationalQ[m], m>1, SumSimplerQ[m,-2]] && NeQ[m+2*p+1] && IntQuadraticQ[a,b,c,d,e,m,p,x]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
+  1/(c*(m+2*p+1))*
+    Int[(d+e*x)^(m-2)*Simp[c*d^2*(m+2*p+1)-a*e^2*(m-1)+2*c*d*e*(m+p)*x,x]*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && 
+  If[RationalQ[m], m>1, SumSimplerQ[m,-2]] && NeQ[m+2*p+1] && IntQuadraticQ[a,0,c,d,e,m,p,x]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((m+1)*(c*d^2-b*d*e+a*e^2))*
+    Int[(d+e*x)^(m+1)*Simp[c*d*(m+1)-b*e*(m+p+2)-c*e*(m+2*p+3)*x,x]*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
+  (RationalQ[m] && m<-1 && IntQuadraticQ[a,b,c,d,e,m,p,x] || 
+   SumSimplerQ[m,1] && IntegerQ[p] && NeQ[m+1] || 
+   NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1])
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
+  c/((m+1)*(c*d^2+a*e^2))*
+    Int[(d+e*x)^(m+1)*Simp[d*(m+1)-e*(m+2*p+3)*x,x]*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && 
+  (RationalQ[m] && m<-1 && IntQuadraticQ[a,0,c,d,e,m,p,x] || 
+   SumSimplerQ[m,1] && IntegerQ[p] && NeQ[m+1] || 
+   NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1])
+
+
+Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
+  With[{q=Rt[3*c*e^2*(2*c*d-b*e),3]},
+  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]+2*(c*d-b*e-c*e*x)/(Sqrt[3]*q*(a+b*x+c*x^2)^(1/3))]/q^2 - 
+  3*c*e*Log[d+e*x]/(2*q^2) + 
+  3*c*e*Log[c*d-b*e-c*e*x-q*(a+b*x+c*x^2)^(1/3)]/(2*q^2)] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e] && EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] && PosQ[c*e^2*(2*c*d-b*e)]
+
+
+Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/3)),x_Symbol] :=
+  With[{q=Rt[6*c^2*e^2/d^2,3]},
+  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]+2*c*(d-e*x)/(Sqrt[3]*d*q*(a+c*x^2)^(1/3))]/(d^2*q^2) - 
+  3*c*e*Log[d+e*x]/(2*d^2*q^2) + 
+  3*c*e*Log[c*d-c*e*x-d*q*(a+c*x^2)^(1/3)]/(2*d^2*q^2)] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2-3*a*e^2]
+
+
+Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
+  With[{q=Rt[-3*c*e^2*(2*c*d-b*e),3]},
+  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]-2*(c*d-b*e-c*e*x)/(Sqrt[3]*q*(a+b*x+c*x^2)^(1/3))]/q^2 - 
+  3*c*e*Log[d+e*x]/(2*q^2) + 
+  3*c*e*Log[c*d-b*e-c*e*x+q*(a+b*x+c*x^2)^(1/3)]/(2*q^2)] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e] && EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] && NegQ[c*e^2*(2*c*d-b*e)]
+
+
+(* Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/3)),x_Symbol] :=
+  With[{q=Rt[-6*c^2*d*e^2,3]},
+  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]-2*(c*d-c*e*x)/(Sqrt[3]*q*(a+c*x^2)^(1/3))]/q^2 - 
+  3*c*e*Log[d+e*x]/(2*q^2) + 
+  3*c*e*Log[c*d-c*e*x+q*(a+c*x^2)^(1/3)]/(2*q^2)] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2-3*a*e^2] && NegQ[c^2*d*e^2] *)
+
+
+Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (b+q+2*c*x)^(1/3)*(b-q+2*c*x)^(1/3)/(a+b*x+c*x^2)^(1/3)*Int[1/((d+e*x)*(b+q+2*c*x)^(1/3)*(b-q+2*c*x)^(1/3)),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c^2*d^2-b*c*d*e-2*b^2*e^2+9*a*c*e^2]
+
+
+Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/4)),x_Symbol] :=
+  d*Int[1/((d^2-e^2*x^2)*(a+c*x^2)^(1/4)),x] - e*Int[x/((d^2-e^2*x^2)*(a+c*x^2)^(1/4)),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(3/4)),x_Symbol] :=
+  d*Int[1/((d^2-e^2*x^2)*(a+c*x^2)^(3/4)),x] - e*Int[x/((d^2-e^2*x^2)*(a+c*x^2)^(3/4)),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  1/(-4*c/(b^2-4*a*c))^p*Subst[Int[Simp[1-x^2/(b^2-4*a*c),x]^p/Simp[2*c*d-b*e+e*x,x],x],x,b+2*c*x] /;
+FreeQ[{a,b,c,d,e,p},x] && PositiveQ[4*a-b^2/c] && IntegerQ[4*p]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  (a+b*x+c*x^2)^p/(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*
+    Int[(-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c))^p/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e,p},x] && Not[PositiveQ[4*a-b^2/c]] && IntegerQ[4*p]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(d+e*x)^m*(Rt[a,2]+Rt[-c,2]*x)^p*(Rt[a,2]-Rt[-c,2]*x)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && PositiveQ[a] && NegativeQ[c]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -(1/(d+e*x))^(2*p)*(a+b*x+c*x^2)^p/(e*(e*(b-q+2*c*x)/(2*c*(d+e*x)))^p*(e*(b+q+2*c*x)/(2*c*(d+e*x)))^p)*
+    Subst[Int[x^(-m-2*(p+1))*Simp[1-(d-e*(b-q)/(2*c))*x,x]^p*Simp[1-(d-e*(b+q)/(2*c))*x,x]^p,x],x,1/(d+e*x)]] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]] && 
+  NegativeIntegerQ[m]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  -(1/(d+e*x))^(2*p)*(a+c*x^2)^p/(e*(-e*(q-c*x)/(c*(d+e*x)))^p*(e*(q+c*x)/(c*(d+e*x)))^p)*
+    Subst[Int[x^(-m-2*(p+1))*Simp[1-(d+e*q/c)*x,x]^p*Simp[1-(d-e*q/c)*x,x]^p,x],x,1/(d+e*x)]] /;
+FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && NegativeIntegerQ[m]
+
+
+Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (a+b*x+c*x^2)^p/(e*(1-(d+e*x)/(d-e*(b-q)/(2*c)))^p*(1-(d+e*x)/(d-e*(b+q)/(2*c)))^p)*
+    Subst[Int[x^m*Simp[1-x/(d-e*(b-q)/(2*c)),x]^p*Simp[1-x/(d-e*(b+q)/(2*c)),x]^p,x],x,d+e*x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (a+c*x^2)^p/(e*(1-(d+e*x)/(d+e*q/c))^p*(1-(d+e*x)/(d-e*q/c))^p)*
+    Subst[Int[x^m*Simp[1-x/(d+e*q/c),x]^p*Simp[1-x/(d-e*q/c),x]^p,x],x,d+e*x]] /;
+FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*u_)^m_.*(a_+b_.*u_+c_.*u_^2)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x,u] /;
+FreeQ[{a,b,c,d,e,m,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(d_.+e_.*u_)^m_.*(a_+c_.*u_^2)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(a+c*x^2)^p,x],x,u] /;
+FreeQ[{a,c,d,e,m,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+(* IntQuadraticQ[a,b,c,d,e,m,p,x] returns True iff (d+e*x)^m*(a+b*x+c*x^2)^p is integrable wrt x in terms of non-Appell functions. *)
+IntQuadraticQ[a_,b_,c_,d_,e_,m_,p_,x_] :=
+  IntegerQ[p] || PositiveIntegerQ[m] || IntegersQ[2*m,2*p] || IntegersQ[m,4*p] || 
+  IntegersQ[m,p+1/3] && (EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] || EqQ[c^2*d^2-b*c*d*e-2*b^2*e^2+9*a*c*e^2])
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.3 (d+e x)^m (f+g x) (a+b x+c x^2)^p*)
+
+
+Int[x_^n_.*(f_+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  f*Int[x^n*(a+c*x^2)^p,x] + g*Int[x^(n+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,f,g,p},x] && IntegerQ[n] && Not[IntegerQ[2*p]]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -f*g*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(b*(p+1)*(e*f-d*g)) /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[m+2*p+3,0] && EqQ[2*c*f-b*g,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (2*c*f-b*g)/(2*c*d-b*e)*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] - 
+  (e*f-d*g)/(2*c*d-b*e)*Int[(d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[m+2*p+3,0] && NeQ[2*c*f-b*g,0] && NeQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(2*c*(p+1)) - 
+  e*g*m/(2*c*(p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[2*c*f-b*g,0] && LtQ[p,-1] && GtQ[m,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(f+g*x)*(b/2+c*x)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(f+g*x)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(f+g*x)*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && EqQ[c*d^2+a*e^2,0] && 
+  (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && EqQ[m+p,0])
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_.*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+b*x+c*x^2)^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_.*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+c*x^2)^(m+p),x] /;
+FreeQ[{a,c,d,e,f,g,n,p},x] && EqQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
+  EqQ[m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g),0]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && EqQ[m*(d*g+e*f)+2*e*f*(p+1),0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (g*(c*d-b*e)+c*e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(2*c*d-b*e)) - 
+  e*(m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*(p+1)*(2*c*d-b*e))*
+    Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d*g+e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) - 
+  e*(m*(d*g+e*f)+2*e*f*(p+1))/(2*c*d*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (g*(c*d-b*e)+c*e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(2*c*d-b*e)) - 
+  e*(m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*(p+1)*(2*c*d-b*e))*
+    Int[(d+e*x)^Simplify[m-1]*(a+b*x+c*x^2)^Simplify[p+1],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
+  SumSimplerQ[p,1] && SumSimplerQ[m,-1] && NeQ[p+1]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d*g+e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) - 
+  e*(m*(d*g+e*f)+2*e*f*(p+1))/(2*c*d*(p+1))*Int[(d+e*x)^Simplify[m-1]*(a+c*x^2)^Simplify[p+1],x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && SumSimplerQ[p,1] && SumSimplerQ[m,-1] && NeQ[p+1]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d*g-e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((2*c*d-b*e)*(m+p+1)) + 
+  (m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(e*(2*c*d-b*e)*(m+p+1))*
+    Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
+  (RationalQ[m] && m<-1 && Not[PositiveIntegerQ[m+p+1]] || RationalQ[m,p] && m<0 && p<-1 || EqQ[m+2*p+2]) && NeQ[m+p+1]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d*g-e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
+  (m*(g*c*d+c*e*f)+2*e*c*f*(p+1))/(e*(2*c*d)*(m+p+1))*
+    Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && 
+  (RationalQ[m] && m<-1 && Not[PositiveIntegerQ[m+p+1]] || RationalQ[m,p] && m<0 && p<-1 || EqQ[m+2*p+2]) && NeQ[m+p+1]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
+  (m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*e*(m+2*p+2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && NeQ[m+2*p+2]
+
+
+Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
+  (m*(d*g+e*f)+2*e*f*(p+1))/(e*(m+2*p+2))*Int[(d+e*x)^m*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && NeQ[m+2*p+2]
+
+
+Int[x_^2*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  x^2*(a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) - 
+  1/(2*a*c*(p+1))*Int[x*Simp[2*a*g-c*f*(2*p+5)*x,x]*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,f,g},x] && EqQ[a*g^2+f^2*c] && RationalQ[p] && p<-2
+
+
+Int[x_^2*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  1/c*Int[(f+g*x)*(a+c*x^2)^(p+1),x] - f^2/c*Int[(a+c*x^2)^(p+1)/(f-g*x),x] /;
+FreeQ[{a,c,f,g,p},x] && EqQ[a*g^2+f^2*c]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && IGtQ[p,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && IGtQ[p,0]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)/(a+b*x+c*x^2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[m]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)/(a+c*x^2),x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && IntegerQ[m]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(2*(p+1)*(c*d^2-b*d*e+a*e^2)) /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  EqQ[Simplify[m+2*p+3]] && EqQ[b*(e*f+d*g)-2*(c*d*f+a*e*g)]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(2*(p+1)*(c*d^2+a*e^2)) /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[Simplify[m+2*p+3]] && EqQ[c*d*f+a*e*g]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(b*f-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) - 
+  m*(b*(e*f+d*g)-2*(c*d*f+a*e*g))/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  EqQ[Simplify[m+2*p+3]] && RationalQ[p] && p<-1 && Not[m==1 && (EqQ[d] || EqQ[2*c*d-b*e])]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) - 
+  m*(c*d*f+a*e*g)/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
+  EqQ[Simplify[m+2*p+3]] && RationalQ[p] && p<-1 && Not[m==1 && EqQ[d]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(2*(p+1)*(c*d^2-b*d*e+a*e^2)) - 
+  (b*(e*f+d*g)-2*(c*d*f+a*e*g))/(2*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  EqQ[Simplify[m+2*p+3]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(2*(p+1)*(c*d^2+a*e^2)) + 
+  (c*d*f+a*e*g)/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[Simplify[m+2*p+3]]
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(b*e*g*(p+2)-c*(e*f+d*g)*(2*p+3)-2*c*e*g*(p+1)*x)*(a+b*x+c*x^2)^(p+1)/(2*c^2*(p+1)*(2*p+3)) /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  EqQ[b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3)]
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  ((e*f+d*g)*(2*p+3)+2*e*g*(p+1)*x)*(a+c*x^2)^(p+1)/(2*c*(p+1)*(2*p+3)) /;
+FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[a*e*g-c*d*f*(2*p+3)]
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g)-(b^2*e*g-b*c*(e*f+d*g)+2*c*(c*d*f-a*e*g))*x)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(b^2-4*a*c)) - 
+  (b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3))/(c*(p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[p] && p<-1
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(c*d*f*x-a*(d*g+e*(f+g*x)))*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) - 
+  (a*e*g-c*d*f*(2*p+3))/(2*a*c*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[p] && p<-1
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(b*e*g*(p+2)-c*(e*f+d*g)*(2*p+3)-2*c*e*g*(p+1)*x)*(a+b*x+c*x^2)^(p+1)/(2*c^2*(p+1)*(2*p+3)) + 
+  (b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3))/(2*c^2*(2*p+3))*Int[(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && Not[RationalQ[p] && p<=-1]
+
+
+Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  ((e*f+d*g)*(2*p+3)+2*e*g*(p+1)*x)*(a+c*x^2)^(p+1)/(2*c*(p+1)*(2*p+3)) - 
+  (a*e*g-c*d*f*(2*p+3))/(c*(2*p+3))*Int[(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && Not[RationalQ[p] && p<=-1]
+
+
+Int[(e_.*x_)^m_*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  f*Int[(e*x)^m*(a+c*x^2)^p,x] + g/e*Int[(e*x)^(m+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,e,f,g,p},x] && Not[RationalQ[m]] && Not[PositiveIntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(f+g*x)*(a*d+c*e*x^3)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[m-p] && EqQ[b*d+a*e] && EqQ[c*d+b*e]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e^2*(m+1)*(m+2)*(c*d^2-b*d*e+a*e^2))*
+    ((d*g-e*f*(m+2))*(c*d^2-b*d*e+a*e^2)-d*p*(2*c*d-b*e)*(e*f-d*g)-e*(g*(m+1)*(c*d^2-b*d*e+a*e^2)+p*(2*c*d-b*e)*(e*f-d*g))*x) - 
+  p/(e^2*(m+1)*(m+2)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1)*
+    Simp[2*a*c*e*(e*f-d*g)*(m+2)+b^2*e*(d*g*(p+1)-e*f*(m+p+2))+b*(a*e^2*g*(m+1)-c*d*(d*g*(2*p+1)-e*f*(m+2*p+2)))-
+      c*(2*c*d*(d*g*(2*p+1)-e*f*(m+2*p+2))-e*(2*a*e*g*(m+1)-b*(d*g*(m-2*p)+e*f*(m+2*p+2))))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  RationalQ[m,p] && p>0 && m<-2 && m+2*p<0 && Not[NegativeIntegerQ[m+2*p+3]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(d+e*x)^(m+1)*(a+c*x^2)^p/(e^2*(m+1)*(m+2)*(c*d^2+a*e^2))*
+    ((d*g-e*f*(m+2))*(c*d^2+a*e^2)-2*c*d^2*p*(e*f-d*g)-e*(g*(m+1)*(c*d^2+a*e^2)+2*c*d*p*(e*f-d*g))*x) - 
+  p/(e^2*(m+1)*(m+2)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1)*
+    Simp[2*a*c*e*(e*f-d*g)*(m+2)-c*(2*c*d*(d*g*(2*p+1)-e*f*(m+2*p+2))-2*a*e^2*g*(m+1))*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
+  RationalQ[m,p] && p>0 && m<-2 && m+2*p<0 && Not[NegativeIntegerQ[m+2*p+3]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(e*f*(m+2*p+2)-d*g*(2*p+1)+e*g*(m+1)*x)*(a+b*x+c*x^2)^p/(e^2*(m+1)*(m+2*p+2)) + 
+  p/(e^2*(m+1)*(m+2*p+2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p-1)*
+    Simp[g*(b*d+2*a*e+2*a*e*m+2*b*d*p)-f*b*e*(m+2*p+2)+(g*(2*c*d+b*e+b*e*m+4*c*d*p)-2*c*e*f*(m+2*p+2))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[p] && p>0 && 
+  (RationalQ[m] && m<-1 || p==1 || IntegerQ[p] && Not[RationalQ[m]]) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && 
+  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(e*f*(m+2*p+2)-d*g*(2*p+1)+e*g*(m+1)*x)*(a+c*x^2)^p/(e^2*(m+1)*(m+2*p+2)) + 
+  p/(e^2*(m+1)*(m+2*p+2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^(p-1)*
+    Simp[g*(2*a*e+2*a*e*m)+(g*(2*c*d+4*c*d*p)-2*c*e*f*(m+2*p+2))*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[p] && p>0 && 
+  (RationalQ[m] && m<-1 || p==1 || IntegerQ[p] && Not[RationalQ[m]]) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && 
+  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(c*e*f*(m+2*p+2)-g*(c*d+2*c*d*p-b*e*p)+g*c*e*(m+2*p+1)*x)*(a+b*x+c*x^2)^p/
+    (c*e^2*(m+2*p+1)*(m+2*p+2)) - 
+  p/(c*e^2*(m+2*p+1)*(m+2*p+2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p-1)*
+    Simp[c*e*f*(b*d-2*a*e)*(m+2*p+2)+g*(a*e*(b*e-2*c*d*m+b*e*m)+b*d*(b*e*p-c*d-2*c*d*p))+
+      (c*e*f*(2*c*d-b*e)*(m+2*p+2)+g*(b^2*e^2*(p+m+1)-2*c^2*d^2*(1+2*p)-c*e*(b*d*(m-2*p)+2*a*e*(m+2*p+1))))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  RationalQ[p] && p>0 && (IntegerQ[p] || Not[RationalQ[m]] || -1<=m<0) && Not[NegativeIntegerQ[m+2*p]] && 
+  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(c*e*f*(m+2*p+2)-g*c*d*(2*p+1)+g*c*e*(m+2*p+1)*x)*(a+c*x^2)^p/
+    (c*e^2*(m+2*p+1)*(m+2*p+2)) + 
+  2*p/(c*e^2*(m+2*p+1)*(m+2*p+2))*Int[(d+e*x)^m*(a+c*x^2)^(p-1)*
+    Simp[f*a*c*e^2*(m+2*p+2)+a*c*d*e*g*m-(c^2*f*d*e*(m+2*p+2)-g*(c^2*d^2*(2*p+1)+a*c*e^2*(m+2*p+1)))*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && 
+  RationalQ[p] && p>0 && (IntegerQ[p] || Not[RationalQ[m]] || -1<=m<0) && Not[NegativeIntegerQ[m+2*p]] && 
+  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(a+b*x+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*(f+g*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && ILtQ[p,-1] && IGtQ[m,0] && RationalQ[a,b,c,d,e,f,g]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(a+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*(f+g*x),x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && ILtQ[p,-1] && IGtQ[m,0] && RationalQ[a,c,d,e,f,g]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  -(d+e*x)^(m-1)*(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g)-(2*c^2*d*f+b^2*e*g-c*(b*e*f+b*d*g+2*a*e*g))*x)*
+    (a+b*x+c*x^2)^(p+1)/(c*(p+1)*(b^2-4*a*c)) - 
+  1/(c*(p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1)*
+    Simp[2*c^2*d^2*f*(2*p+3)+b*e*g*(a*e*(m-1)+b*d*(p+2))-c*(2*a*e*(e*f*(m-1)+d*g*m)+b*d*(d*g*(2*p+3)-e*f*(m-2*p-4))) + 
+      e*(b^2*e*g*(m+p+1)+2*c^2*d*f*(m+2*p+2)-c*(2*a*e*g*m+b*(e*f+d*g)*(m+2*p+2)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && GtQ[m,1] && 
+  (EqQ[m,2] && EqQ[p,-3] && RationalQ[a,b,c,d,e,f,g] || Not[ILtQ[m+2*p+3,0]])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^(m-1)*(2*a*(e*f+d*g)-(2*c*d*f-2*a*e*g)*x)*(a+c*x^2)^(p+1)/(4*a*c*(p+1)) - 
+  1/(4*a*c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1)*
+    Simp[2*a*e*(e*f*(m-1)+d*g*m)-2*c*d^2*f*(2*p+3)+e*(2*a*e*g*m-2*c*d*f*(m+2*p+2))*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && GtQ[m,1] && 
+  (EqQ[m,2] && EqQ[p,-3] && RationalQ[a,c,d,e,f,g] || Not[ILtQ[m+2*p+3,0]])
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(f*b-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) + 
+  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)*
+    Simp[g*(2*a*e*m+b*d*(2*p+3))-f*(b*e*m+2*c*d*(2*p+3))-e*(2*c*f-b*g)*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  RationalQ[m,p] && p<-1 && m>0 && Not[m==1 && SimplerQ[d+e*x,f+g*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) - 
+  1/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1)*Simp[a*e*g*m-c*d*f*(2*p+3)-c*e*f*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
+  RationalQ[m,p] && p<-1 && m>0 && Not[m==1 && SimplerQ[d+e*x,f+g*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^(m+1)*(f*(b*c*d-b^2*e+2*a*c*e)-a*g*(2*c*d-b*e)+c*(f*(2*c*d-b*e)-g*(b*d-2*a*e))*x)*(a+b*x+c*x^2)^(p+1)/
+    ((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
+    Simp[f*(b*c*d*e*(2*p-m+2)+b^2*e^2*(p+m+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3))-
+      g*(a*e*(b*e-2*c*d*m+b*e*m)-b*d*(3*c*d-b*e+2*c*d*p-b*e*p))+
+      c*e*(g*(b*d-2*a*e)-f*(2*c*d-b*e))*(m+2*p+4)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  RationalQ[p] && p<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^(m+1)*(f*a*c*e-a*g*c*d+c*(c*d*f+a*e*g)*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)*(c*d^2+a*e^2)) + 
+  1/(2*a*c*(p+1)*(c*d^2+a*e^2))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
+    Simp[f*(c^2*d^2*(2*p+3)+a*c*e^2*(m+2*p+3))-a*c*d*e*g*m+c*e*(c*d*f+a*e*g)*(m+2*p+4)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
+  RationalQ[p] && p<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  g*(d+e*x)^m/(c*m) + 
+  1/c*Int[(d+e*x)^(m-1)*Simp[c*d*f-a*e*g+(g*c*d-b*e*g+c*e*f)*x,x]/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && FractionQ[m] && m>0
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  g*(d+e*x)^m/(c*m) + 
+  1/c*Int[(d+e*x)^(m-1)*Simp[c*d*f-a*e*g+(g*c*d+c*e*f)*x,x]/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && FractionQ[m] && m>0
+
+
+Int[(f_.+g_.*x_)/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  2*Subst[Int[(e*f-d*g+g*x^2)/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[(f_.+g_.*x_)/(Sqrt[d_.+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
+  2*Subst[Int[(e*f-d*g+g*x^2)/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d*f-f*b*e+a*e*g-c*(e*f-d*g)*x,x]/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && FractionQ[m] && m<-1
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)/((m+1)*(c*d^2+a*e^2)) + 
+  1/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d*f+a*e*g-c*(e*f-d*g)*x,x]/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && FractionQ[m] && m<-1
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m,(f+g*x)/(a+b*x+c*x^2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && Not[RationalQ[m]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m,(f+g*x)/(a+c*x^2),x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && Not[RationalQ[m]]
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
+  1/(c*(m+2*p+2))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p*
+    Simp[m*(c*d*f-a*e*g)+d*(2*c*f-b*g)*(p+1)+(m*(c*e*f+c*d*g-b*e*g)+e*(p+1)*(2*c*f-b*g))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m>0 && 
+  NeQ[m+2*p+2] && Not[m==1 && SimplerQ[f+g*x,d+e*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
+  1/(c*(m+2*p+2))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p*
+    Simp[c*d*f*(m+2*p+2)-a*e*g*m+c*(e*f*(m+2*p+2)+d*g*m)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[m] && m>0 && 
+  NeQ[m+2*p+2] && Not[m==1 && SimplerQ[f+g*x,d+e*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
+    Simp[(c*d*f-f*b*e+a*e*g)*(m+1)+b*(d*g-e*f)*(p+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  RationalQ[m] && m<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
+  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*Simp[(c*d*f+a*e*g)*(m+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && 
+  RationalQ[m] && m<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
+    Simp[(c*d*f-f*b*e+a*e*g)*(m+1)+b*(d*g-e*f)*(p+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
+  NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  (e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
+  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*Simp[(c*d*f+a*e*g)*(m+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m+2*p+3] && NeQ[m+1]
+
+
+Int[(f_+g_.*x_)/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  4*f*(a-d)/(b*d-a*e)*Subst[Int[1/(4*(a-d)-x^2),x],x,(2*(a-d)+(b-e)*x)/Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[4*c*(a-d)-(b-e)^2] && EqQ[e*f*(b-e)-2*g*(b*d-a*e)] && NeQ[b*d-a*e]
+
+
+Int[(f_+g_.*x_)/(Sqrt[x_]*Sqrt[a_+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  2*Subst[Int[(f+g*x^2)/Sqrt[a+b*x^2+c*x^4],x],x,Sqrt[x]] /;
+FreeQ[{a,b,c,f,g},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(f_+g_.*x_)/(Sqrt[x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  2*Subst[Int[(f+g*x^2)/Sqrt[a+c*x^4],x],x,Sqrt[x]] /;
+FreeQ[{a,c,f,g},x]
+
+
+Int[(f_+g_.*x_)/(Sqrt[e_*x_]*Sqrt[a_+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  Sqrt[x]/Sqrt[e*x]*Int[(f+g*x)/(Sqrt[x]*Sqrt[a+b*x+c*x^2]),x] /;
+FreeQ[{a,b,c,e,f,g},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(f_+g_.*x_)/(Sqrt[e_*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  Sqrt[x]/Sqrt[e*x]*Int[(f+g*x)/(Sqrt[x]*Sqrt[a+c*x^2]),x] /;
+FreeQ[{a,c,e,f,g},x]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  g/e*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] + (e*f-d*g)/e*Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  g/e*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] + (e*f-d*g)/e*Int[(d+e*x)^m*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.4 (d+e x)^m (f+g x)^n (a+b x+c x^2)^p*)
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(f+g*x)^n*(b/2+c*x)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && EqQ[m+p])
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+b*x+c*x^2)^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+c*x^2)^(m+p),x] /;
+FreeQ[{a,c,d,e,f,g,n,p},x] && EqQ[c*d^2+a*e^2] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(f+g*x)^n*(a+b*x+c*x^2)^(m+p)/(a/d+c*x/e)^m,x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
+  IntegersQ[m,n] && RationalQ[p] && (0<-m<p+1 || p<-m<0)
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  d^(2*m)/a^m*Int[(f+g*x)^n*(a+c*x^2)^(m+p)/(d-e*x)^m,x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
+  IntegersQ[m,n] && RationalQ[p] && (0<-m<p+1 || p<-m<0)
+
+
+Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  -(f+g*x)^n*(a+b*x+c*x^2)^p*(a*(2*c*d-b*e)+c*(b*d-2*a*e)*x)/(d*e*p*(b^2-4*a*c)) - 
+  1/(d*e*p*(b^2-4*a*c))*Int[(f+g*x)^(n-1)*(a+b*x+c*x^2)^p*
+    Simp[b*(a*e*g*n-c*d*f*(2*p+1))-2*a*c*(d*g*n-e*f*(2*p+1))-c*g*(b*d-2*a*e)*(n+2*p+1)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
+  PositiveIntegerQ[n] && NegativeIntegerQ[n+2*p]
+
+
+Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  (f+g*x)^n*(a+c*x^2)^p*(d-e*x)/(2*d*e*p) - 
+  1/(2*d*e*p)*Int[(f+g*x)^(n-1)*(a+c*x^2)^p*Simp[d*g*n-e*f*(2*p+1)-e*g*(n+2*p+1)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
+  PositiveIntegerQ[n] && NegativeIntegerQ[n+2*p]
+
+
+Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  -(f+g*x)^(n+1)*(a+b*x+c*x^2)^p*(a*c*d*(2*c*f-b*g)-a*e*(b*c*f-b^2*g+2*a*c*g)+c*(c*d*(b*f-2*a*g)-a*e*(2*c*f-b*g))*x)/
+    (d*e*p*(b^2-4*a*c)*(c*f^2-b*f*g+a*g^2)) - 
+  (1/(d*e*p*(b^2-4*a*c)*(c*f^2-b*f*g+a*g^2)))*Int[(f+g*x)^n*(a+b*x+c*x^2)^p*
+    Simp[b^2*g*(c*d*f*p-a*e*g*(n+p+1))+b*c*(a*g*(d*g*(n+1)+e*f*(n-2*p))-c*d*f^2*(2*p+1))+
+      2*a*c*(a*e*g^2*(n+2*p+1)+c*f*(e*f-d*g*n+2*e*f*p))+
+      c*g*(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g))*(n+2*p+2)*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
+  NegativeIntegerQ[n] && NegativeIntegerQ[n+2*p]
+
+
+Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  (f+g*x)^(n+1)*(a+c*x^2)^p*(c*d*f-a*e*g-c*(e*f+d*g)*x)/(2*d*e*p*(c*f^2+a*g^2)) + 
+  (1/(2*d*e*p*(c*f^2+a*g^2)))*Int[(f+g*x)^n*(a+c*x^2)^p*
+    Simp[(a*e*g^2*(n+2*p+1)-c*f*(d*g*n-e*(f+2*f*p)))+c*g*(e*f+d*g)*(n+2*p+2)*x,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
+  NegativeIntegerQ[n] && NegativeIntegerQ[n+2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(m-n-1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[c*e*f+c*d*g-b*e*g] && NeQ[m-n-1]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(m-n-1)) /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[e*f+d*g] && NeQ[m-n-1]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g-b*e*g)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[m-n-2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*(n+1)*(e*f+d*g)) /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[m-n-2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p/(g*(n+1)) + 
+  c*m/(e*g*(n+1))*Int[(d+e*x)^(m+1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && n<-1 && Not[IntegerQ[n+p] && n+p+2<=0]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p/(g*(n+1)) + 
+  c*m/(e*g*(n+1))*Int[(d+e*x)^(m+1)*(f+g*x)^(n+1)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && n<-1 && Not[IntegerQ[n+p] && n+p+2<=0]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p/(g*(m-n-1)) - 
+  m*(c*e*f+c*d*g-b*e*g)/(e^2*g*(m-n-1))*Int[(d+e*x)^(m+1)*(f+g*x)^n*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && NeQ[m-n-1] && Not[PositiveIntegerQ[n]] && 
+  Not[IntegerQ[n+p] && n+p+2<0]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -(d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p/(g*(m-n-1)) - 
+  c*m*(e*f+d*g)/(e^2*g*(m-n-1))*Int[(d+e*x)^(m+1)*(f+g*x)^n*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && NeQ[m-n-1] && Not[PositiveIntegerQ[n]] && 
+  Not[IntegerQ[n+p] && n+p+2<0]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - 
+  e*g*n/(c*(p+1))*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1)*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1 && n>0
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(p+1)) - 
+  e*g*n/(c*(p+1))*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1)*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1 && n>0
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((p+1)*(c*e*f+c*d*g-b*e*g)) + 
+  e^2*g*(m-n-2)/((p+1)*(c*e*f+c*d*g-b*e*g))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*(p+1)*(e*f+d*g)) + 
+  e^2*g*(m-n-2)/(c*(p+1)*(e*f+d*g))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(m-n-1)) - 
+  n*(c*e*f+c*d*g-b*e*g)/(c*e*(m-n-1))*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n>0 && NeQ[m-n-1] && (IntegerQ[2*p] || IntegerQ[n])
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(m-n-1)) - 
+  n*(e*f+d*g)/(e*(m-n-1))*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n>0 && NeQ[m-n-1] && (IntegerQ[2*p] || IntegerQ[n])
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g-b*e*g)) - 
+  c*e*(m-n-2)/((n+1)*(c*e*f+c*d*g-b*e*g))*Int[(d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n<-1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g)) - 
+  e*(m-n-2)/((n+1)*(e*f+d*g))*Int[(d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n<-1 && IntegerQ[2*p]
+
+
+Int[Sqrt[d_+e_.*x_]/((f_.+g_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  2*e^2*Subst[Int[1/(c*(e*f+d*g)-b*e*g+e^2*g*x^2),x],x,Sqrt[a+b*x+c*x^2]/Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[Sqrt[d_+e_.*x_]/((f_.+g_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  2*e^2*Subst[Int[1/(c*(e*f+d*g)+e^2*g*x^2),x],x,Sqrt[a+c*x^2]/Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(c*g*(n+p+2)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && EqQ[b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3)] && NeQ[n+p+2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+p+2)) /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && EqQ[e*f*(p+1)-d*g*(2*n+p+3)] && NeQ[n+p+2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(e*f-d*g)*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(g*(n+1)*(c*e*f+c*d*g-b*e*g)) - 
+  e*(b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3))/(g*(n+1)*(c*e*f+c*d*g-b*e*g))*
+    Int[(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && RationalQ[n] && n<-1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(e*f-d*g)*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+1)*(e*f+d*g)) - 
+  e*(e*f*(p+1)-d*g*(2*n+p+3))/(g*(n+1)*(e*f+d*g))*Int[(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && RationalQ[n] && n<-1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(c*g*(n+p+2)) - 
+  (b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3))/(c*g*(n+p+2))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && Not[RationalQ[n] && n<-1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+p+2)) - 
+  (e*f*(p+1)-d*g*(2*n+p+3))/(g*(n+p+2))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[p]] && EqQ[m+p-1] && Not[RationalQ[n] && n<-1] && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[p]] && (PositiveIntegerQ[m] || IntegersQ[m,n])
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[1/Sqrt[a+c*x^2],(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && IntegerQ[p-1/2] && IntegersQ[m,n] && Not[m<0 && p<0] && p!=1/2
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && (PositiveIntegerQ[m] || IntegersQ[m,n])
+
+
+Int[x_^2*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  d^2/e^2*Int[(a+b*x+c*x^2)^p/(d+e*x),x] - 1/e^2*Int[(d-e*x)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[x_^2*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
+  d^2/e^2*Int[(a+c*x^2)^p/(d+e*x),x] - 1/e^2*Int[(d-e*x)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^2*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(f+g*x)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+3)) - 
+  1/(c*e^2*(m+2*p+3))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*
+    Simp[b*e*g*(d*g+e*f*(m+p+1))-c*(d^2*g^2+d*e*f*g*m+e^2*f^2*(m+2*p+3))+
+      e*g*(b*e*g*(m+p+2)-c*(d*g*m+e*f*(m+2*p+4)))*x,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
+  NeQ[m+2*p+3]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^2*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  g*(d+e*x)^m*(f+g*x)*(a+c*x^2)^(p+1)/(c*(m+2*p+3)) - 
+  1/(c*e^2*(m+2*p+3))*Int[(d+e*x)^m*(a+c*x^2)^p*
+    Simp[-c*(d^2*g^2+d*e*f*g*m+e^2*f^2*(m+2*p+3))-c*e*g*(d*g*m+e*f*(m+2*p+4))*x,x],x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && NeQ[m+2*p+3]
+
+
+Int[(e_.*x_)^m_*(f_.+g_.*x_)^n_*(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (e*x)^m*(b*x+c*x^2)^p/(x^(m+p)*(b+c*x)^p)*Int[x^(m+p)*(f+g*x)^n*(b+c*x)^p,x] /;
+FreeQ[{b,c,e,f,g,m,n},x] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && PositiveQ[a] && PositiveQ[d]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+(*(a+b*x+c*x^2)^p/((d+e*x)^p*(a*e+c*d*x)^p)*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a*e+c*d*x)^p,x] /; *)
+  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegersQ[m,n,p]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && IntegersQ[m,n,p]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_/((d_.+e_.*x_)*(f_.+g_.*x_)),x_Symbol] :=
+  (c*d^2-b*d*e+a*e^2)/(e*(e*f-d*g))*Int[(a+b*x+c*x^2)^(p-1)/(d+e*x),x] - 
+  1/(e*(e*f-d*g))*Int[Simp[c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x,x]*(a+b*x+c*x^2)^(p-1)/(f+g*x),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && FractionQ[p] && p>0
+
+
+Int[(a_+c_.*x_^2)^p_/((d_.+e_.*x_)*(f_.+g_.*x_)),x_Symbol] :=
+  (c*d^2+a*e^2)/(e*(e*f-d*g))*Int[(a+c*x^2)^(p-1)/(d+e*x),x] - 
+  1/(e*(e*f-d*g))*Int[Simp[c*d*f+a*e*g-c*(e*f-d*g)*x,x]*(a+c*x^2)^(p-1)/(f+g*x),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && FractionQ[p] && p>0
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{q=Denominator[m]},
+  q/e*Subst[Int[x^(q*(m+1)-1)*((e*f-d*g)/e+g*x^q/e)^n*
+    ((c*d^2-b*d*e+a*e^2)/e^2-(2*c*d-b*e)*x^q/e^2+c*x^(2*q)/e^2)^p,x],x,(d+e*x)^(1/q)]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegersQ[n,p] && FractionQ[m]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{q=Denominator[m]},
+  q/e*Subst[Int[x^(q*(m+1)-1)*((e*f-d*g)/e+g*x^q/e)^n*((c*d^2+a*e^2)/e^2-2*c*d*x^q/e^2+c*x^(2*q)/e^2)^p,x],x,(d+e*x)^(1/q)]] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && IntegersQ[n,p] && FractionQ[m]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d*f+e*g*x^2)^m*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(d*f+e*g*x^2)^m*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[(a+b*x)*(d+e*x)^m*(f+g*x)^n,x] + c*Int[x^2*(d+e*x)^m*(f+g*x)^n,x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[m,n]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2),x_Symbol] :=
+  a*Int[(d+e*x)^m*(f+g*x)^n,x] + c*Int[x^2*(d+e*x)^m*(f+g*x)^n,x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,n]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  g/c^2*Int[Simp[2*c*e*f+c*d*g-b*e*g+c*e*g*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2),x] + 
+  1/c^2*Int[Simp[c^2*d*f^2-2*a*c*e*f*g-a*c*d*g^2+a*b*e*g^2+(c^2*e*f^2+2*c^2*d*f*g-2*b*c*e*f*g-b*c*d*g^2+b^2*e*g^2-a*c*e*g^2)*x,x]*
+    (d+e*x)^(m-1)*(f+g*x)^(n-2)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>1
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
+  g/c*Int[Simp[2*e*f+d*g+e*g*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2),x] + 
+  1/c*Int[Simp[c*d*f^2-2*a*e*f*g-a*d*g^2+(c*e*f^2+2*c*d*f*g-a*e*g^2)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2)/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>1
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*g/c*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1),x] + 
+  1/c*Int[Simp[c*d*f-a*e*g+(c*e*f+c*d*g-b*e*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-1)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>0
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
+  e*g/c*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1),x] + 
+  1/c*Int[Simp[c*d*f-a*e*g+(c*e*f+c*d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-1)/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>0
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  -g*(e*f-d*g)/(c*f^2-b*f*g+a*g^2)*Int[(d+e*x)^(m-1)*(f+g*x)^n,x] + 
+  1/(c*f^2-b*f*g+a*g^2)*
+    Int[Simp[c*d*f-b*d*g+a*e*g+c*(e*f-d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n+1)/(a+b*x+c*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
+  -g*(e*f-d*g)/(c*f^2+a*g^2)*Int[(d+e*x)^(m-1)*(f+g*x)^n,x] + 
+  1/(c*f^2+a*g^2)*
+    Int[Simp[c*d*f+a*e*g+c*(e*f-d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n+1)/(a+c*x^2),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(d_.+e_.*x_)^m_/(Sqrt[f_.+g_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
+  Int[ExpandIntegrand[1/(Sqrt[d+e*x]*Sqrt[f+g*x]),(d+e*x)^(m+1/2)/(a+b*x+c*x^2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[m+1/2]
+
+
+Int[(d_.+e_.*x_)^m_/(Sqrt[f_.+g_.*x_]*(a_.+c_.*x_^2)),x_Symbol] :=
+  Int[ExpandIntegrand[1/(Sqrt[d+e*x]*Sqrt[f+g*x]),(d+e*x)^(m+1/2)/(a+c*x^2),x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[m+1/2]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n,1/(a+b*x+c*x^2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n,1/(a+c*x^2),x],x] /;
+FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  (IntegerQ[p] || IntegersQ[m,n])
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && (IntegerQ[p] || IntegersQ[m,n])
+
+
+Int[(g_.*x_)^n_*(d_.+e_.*x_)^m_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(g*x)^n*(a*d+c*e*x^3)^p,x] /;
+FreeQ[{a,b,c,d,e,g,m,n,p},x] && EqQ[m-p] && EqQ[b*d+a*e] && EqQ[c*d+b*e]
+
+
+Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  (c*d^2-b*d*e+a*e^2)/(e*(e*f-d*g))*Int[(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p-1)/(d+e*x),x] - 
+  1/(e*(e*f-d*g))*Int[(f+g*x)^n*(c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x)*(a+b*x+c*x^2)^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p>0 && n<-1
+
+
+Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  (c*d^2+a*e^2)/(e*(e*f-d*g))*Int[(f+g*x)^(n+1)*(a+c*x^2)^(p-1)/(d+e*x),x] - 
+  1/(e*(e*f-d*g))*Int[(f+g*x)^n*(c*d*f+a*e*g-c*(e*f-d*g)*x)*(a+c*x^2)^(p-1),x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p>0 && n<-1
+
+
+Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  e*(e*f-d*g)/(c*d^2-b*d*e+a*e^2)*Int[(f+g*x)^(n-1)*(a+b*x+c*x^2)^(p+1)/(d+e*x),x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(f+g*x)^(n-1)*(c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p<-1 && n>0
+
+
+Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
+  e*(e*f-d*g)/(c*d^2+a*e^2)*Int[(f+g*x)^(n-1)*(a+c*x^2)^(p+1)/(d+e*x),x] + 
+  1/(c*d^2+a*e^2)*Int[(f+g*x)^(n-1)*(c*d*f+a*e*g-c*(e*f-d*g)*x)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && 
+  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p<-1 && n>0
+
+
+Int[1/((d_.+e_.*x_)*Sqrt[f_.+g_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -2*Sqrt[-g*(b-q+2*c*x)/(2*c*f-b*g+g*q)]*Sqrt[-g*(b+q+2*c*x)/(2*c*f-b*g-g*q)]/
+    ((e*f-d*g)*Sqrt[2*c/(2*c*f-b*g+g*q)]*Sqrt[a+b*x+c*x^2])*
+    EllipticPi[e*(2*c*f-b*g+g*q)/(2*c*(e*f-d*g)),ArcSin[Sqrt[2*c/(2*c*f-b*g+g*q)]*Sqrt[f+g*x]],(2*c*f-b*g+g*q)/(2*c*f-b*g-g*q)]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[1/((d_.+e_.*x_)*Sqrt[f_.+g_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  -2*Sqrt[g*(q-c*x)/(c*f+g*q)]*Sqrt[-g*(q+c*x)/(c*f-g*q)]/((e*f-d*g)*Sqrt[c/(c*f+g*q)]*Sqrt[a+c*x^2])*
+    EllipticPi[e*(c*f+g*q)/(c*(e*f-d*g)),ArcSin[Sqrt[c/(c*f+g*q)]*Sqrt[f+g*x]],(c*f+g*q)/(c*f-g*q)]] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2]
+
+
+Int[(f_.+g_.*x_)^n_/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  Int[ExpandIntegrand[1/(Sqrt[f+g*x]*Sqrt[a+b*x+c*x^2]),(f+g*x)^(n+1/2)/(d+e*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[n+1/2]
+
+
+Int[(f_.+g_.*x_)^n_/((d_.+e_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  Int[ExpandIntegrand[1/(Sqrt[f+g*x]*Sqrt[a+c*x^2]),(f+g*x)^(n+1/2)/(d+e*x),x],x] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && IntegerQ[n+1/2]
+
+
+Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[f_.+g_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  -2*(d+e*x)*Sqrt[(e*f-d*g)^2*(a+b*x+c*x^2)/((c*f^2-b*f*g+a*g^2)*(d+e*x)^2)]/((e*f-d*g)*Sqrt[a+b*x+c*x^2])*
+  Subst[
+    Int[1/Sqrt[1-(2*c*d*f-b*e*f-b*d*g+2*a*e*g)*x^2/(c*f^2-b*f*g+a*g^2)+(c*d^2-b*d*e+a*e^2)*x^4/(c*f^2-b*f*g+a*g^2)],x],
+    x,
+    Sqrt[f+g*x]/Sqrt[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[f_.+g_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
+  -2*(d+e*x)*Sqrt[(e*f-d*g)^2*(a+c*x^2)/((c*f^2+a*g^2)*(d+e*x)^2)]/((e*f-d*g)*Sqrt[a+c*x^2])*
+  Subst[
+    Int[1/Sqrt[1-(2*c*d*f+2*a*e*g)*x^2/(c*f^2+a*g^2)+(c*d^2+a*e^2)*x^4/(c*f^2+a*g^2)],x],x,Sqrt[f+g*x]/Sqrt[d+e*x]] /;
+FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2]
+
+
+Int[(e_.*x_)^m_*(f_+g_.*x_)^2*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  2*f*g/e*Int[(e*x)^(m+1)*(a+c*x^2)^p,x] + Int[(e*x)^m*(f^2+g^2*x^2)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,e,f,g,m,p},x]
+
+
+Int[(e_.*x_)^m_*(f_+g_.*x_)^3*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  f*Int[(e*x)^m*(f^2+3*g^2*x^2)*(a+c*x^2)^p,x] + g/e*Int[(e*x)^(m+1)*(3*f^2+g^2*x^2)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,e,f,g,m,p},x]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  g/e*Int[(d+e*x)^(m+1)*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] + 
+  (e*f-d*g)/e*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  g/e*Int[(d+e*x)^(m+1)*(f+g*x)^(n-1)*(a+c*x^2)^p,x] + 
+  (e*f-d*g)/e*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x]
+
+
+Int[(d_.+e_.*u_)^m_.*(f_.+g_.*u_)^n_.*(a_+b_.*u_+c_.*u_^2)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(d_.+e_.*u_)^m_.*(f_.+g_.*u_)^n_.*(a_+c_.*u_^2)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x,u] /;
+FreeQ[{a,c,d,e,f,g,m,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.5 (a+b x+c x^2)^p (d+e x+f x^2)^q*)
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
+  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
+  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
+  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_.,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,f,p,q},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  1/(2^(2*p+2*q+1)*c*(-c/(b^2-4*a*c))^p*(-f/(e^2-4*d*f))^q)*
+    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && 
+  (IntegerQ[p] || PositiveQ[-c/(b^2-4*a*c)]) && (IntegerQ[q] || PositiveQ[-f/(e^2-4*d*f)]) *)
+
+
+(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (d+e*x+f*x^2)^q/(2^(2*p+2*q+1)*c*(-c/(b^2-4*a*c))^p*(-f*(d+e*x+f*x^2)/(e^2-4*d*f))^q)*
+    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && 
+  (IntegerQ[p] || PositiveQ[-c/(b^2-4*a*c)]) && Not[IntegerQ[q] || PositiveQ[-f/(e^2-4*d*f)]] *)
+
+
+(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q/(2^(2*p+2*q+1)*c*(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*(-f*(d+e*x+f*x^2)/(e^2-4*d*f))^q)*
+    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] *)
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
+  (1/((b^2-4*a*c)*(p+1)))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[2*c*d*(2*p+3)+b*e*q+(2*b*f*q+2*c*e*(2*p+q+3))*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
+  (1/((b^2-4*a*c)*(p+1)))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
+      Simp[2*c*d*(2*p+3)+(2*b*f*q)*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (2*c*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((-4*a*c)*(p+1)) - 
+  (1/((-4*a*c)*(p+1)))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[2*c*d*(2*p+3)+(2*c*e*(2*p+q+3))*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (2*a*c^2*e-b^2*c*e+b^3*f+b*c*(c*d-3*a*f)+c*(2*c^2*d+b^2*f-c*(b*e+2*a*f))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/
+    ((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)) - 
+  (1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[2*c*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)-
+        (2*c^2*d+b^2*f-c*(b*e+2*a*f))*(a*f*(p+1)-c*d*(p+2))-
+        e*(b^2*c*e-2*a*c^2*e-b^3*f-b*c*(c*d-3*a*f))*(p+q+2)+
+       (2*f*(2*a*c^2*e-b^2*c*e+b^3*f+b*c*(c*d-3*a*f))*(p+q+2)-(2*c^2*d+b^2*f-c*(b*e+2*a*f))*(b*f*(p+1)-c*e*(2*p+q+4)))*x+
+       c*f*(2*c^2*d+b^2*f-c*(b*e+2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
+  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  (b^3*f+b*c*(c*d-3*a*f)+c*(2*c^2*d+b^2*f-c*(2*a*f))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/
+    ((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1)) - 
+  (1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1)))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
+      Simp[2*c*(b^2*d*f+(c*d-a*f)^2)*(p+1)-
+        (2*c^2*d+b^2*f-c*(2*a*f))*(a*f*(p+1)-c*d*(p+2))+
+       (2*f*(b^3*f+b*c*(c*d-3*a*f))*(p+q+2)-(2*c^2*d+b^2*f-c*(2*a*f))*(b*f*(p+1)))*x+
+       c*f*(2*c^2*d+b^2*f-c*(2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,f,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (2*a*c^2*e+c*(2*c^2*d-c*(2*a*f))*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/
+    ((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1)) - 
+  (1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1)))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[2*c*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)-(2*c^2*d-c*(2*a*f))*(a*f*(p+1)-c*d*(p+2))-e*(-2*a*c^2*e)*(p+q+2)+
+       (2*f*(2*a*c^2*e)*(p+q+2)-(2*c^2*d-c*(2*a*f))*(-c*e*(2*p+q+4)))*x+
+       c*f*(2*c^2*d-c*(2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,c,d,e,f,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (b*f*(3*p+2*q)-c*e*(2*p+q)+2*c*f*(p+q)*x)*(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^(q+1)/(2*f^2*(p+q)*(2*p+2*q+1)) - 
+  1/(2*f^2*(p+q)*(2*p+2*q+1))*
+    Int[(a+b*x+c*x^2)^(p-2)*(d+e*x+f*x^2)^q*
+      Simp[(b*d-a*e)*(c*e-b*f)*(1-p)*(2*p+q)-
+        (p+q)*(b^2*d*f*(1-p)-a*(f*(b*e-2*a*f)*(2*p+2*q+1)+c*(2*d*f-e^2*(2*p+q))))+
+        (2*(c*d-a*f)*(c*e-b*f)*(1-p)*(2*p+q)-
+          (p+q)*((b^2-4*a*c)*e*f*(1-p)+b*(c*(e^2-4*d*f)*(2*p+q)+f*(2*c*d-b*e+2*a*f)*(2*p+2*q+1))))*x+
+        ((c*e-b*f)^2*(1-p)*p+c*(p+q)*(f*(b*e-2*a*f)*(4*p+2*q-1)-c*(2*d*f*(1-2*p)+e^2*(3*p+q-1))))*x^2,x],x]/;
+FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,1] && 
+  NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  (b*(3*p+2*q)+2*c*(p+q)*x)*(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^(q+1)/(2*f*(p+q)*(2*p+2*q+1)) - 
+  1/(2*f*(p+q)*(2*p+2*q+1))*
+    Int[(a+b*x+c*x^2)^(p-2)*(d+f*x^2)^q*
+      Simp[b^2*d*(p-1)*(2*p+q)-(p+q)*(b^2*d*(1-p)-2*a*(c*d-a*f*(2*p+2*q+1)))-
+        (2*b*(c*d-a*f)*(1-p)*(2*p+q)-2*(p+q)*b*(2*c*d*(2*p+q)-(c*d+a*f)*(2*p+2*q+1)))*x+
+        (b^2*f*p*(1-p)+2*c*(p+q)*(c*d*(2*p-1)-a*f*(4*p+2*q-1)))*x^2,x],x]/;
+FreeQ[{a,b,c,d,f,q},x] && NeQ[b^2-4*a*c] && GtQ[p,1] && NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  -c*(e*(2*p+q)-2*f*(p+q)*x)*(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^(q+1)/(2*f^2*(p+q)*(2*p+2*q+1)) - 
+  1/(2*f^2*(p+q)*(2*p+2*q+1))*
+    Int[(a+c*x^2)^(p-2)*(d+e*x+f*x^2)^q*
+      Simp[-a*c*e^2*(1-p)*(2*p+q)+a*(p+q)*(-2*a*f^2*(2*p+2*q+1)+c*(2*d*f-e^2*(2*p+q)))+
+        (2*(c*d-a*f)*(c*e)*(1-p)*(2*p+q)+4*a*c*e*f*(1-p)*(p+q))*x+
+        (p*c^2*e^2*(1-p)-c*(p+q)*(2*a*f^2*(4*p+2*q-1)+c*(2*d*f*(1-2*p)+e^2*(3*p+q-1))))*x^2,x],x]/;
+FreeQ[{a,c,d,e,f,q},x] && NeQ[e^2-4*d*f] && GtQ[p,1] && NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[1/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
+  1/q*Int[(c^2*d-b*c*e+b^2*f-a*c*f-(c^2*e-b*c*f)*x)/(a+b*x+c*x^2),x] + 
+  1/q*Int[(c*e^2-c*d*f-b*e*f+a*f^2+(c*e*f-b*f^2)*x)/(d+e*x+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[1/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
+  1/q*Int[(c^2*d+b^2*f-a*c*f+b*c*f*x)/(a+b*x+c*x^2),x] - 
+  1/q*Int[(c*d*f-a*f^2+b*f^2*x)/(d+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
+
+
+Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -2*e*Subst[Int[1/(e*(b*e-4*a*f)-(b*d-a*e)*x^2),x],x,(e+2*f*x)/Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f]
+
+
+(* Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{k=Rt[(a/c-d/f)^2+(b/c-e/f)*(b*d/(c*f)-a*e/(c*f)),2]},
+  -2*(c*d-a*f+c*f*k+(c*e-b*f)*x)*Sqrt[(d+e*x+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k+(c*e-b*f)*x))^2]/(c*Sqrt[d+e*x+f*x^2])*
+    Subst[Int[(1-x)/(
+      (b*d-a*e-b*f*k-(c*d-a*f-c*f*k)^2/(c*e-b*f)+(b*d-a*e+b*f*k-(a*f-c*d-c*f*k)^2/(c*e-b*f))*x^2)*
+      Sqrt[-f*((b*d-a*e-c*e*k)/(c*e-b*f)-(c*d-a*f-c*f*k)^2/(c*e-b*f)^2)-f*((b*d-a*e+c*e*k)/(c*e-b*f)-(a*f-c*d-c*f*k)^2/(c*e-b*f)^2)*x^2]),x],x,
+        (c*d-a*f-c*f*k+(c*e-b*f)*x)/(c*d-a*f+c*f*k+(c*e-b*f)*x)]] /;
+FreeQ[{a,b,c,d,e,f},x] && RationalQ[a,b,c,d,e,f] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && NegativeQ[b^2-4*a*c] *)
+
+
+(* Int[1/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{k=Rt[(a/c-d/f)^2+a*e^2/(c*f^2),2]},
+  -2*(c*d-a*f+c*f*k+c*e*x)*Sqrt[(d+e*x+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k+c*e*x))^2]/(c*Sqrt[d+e*x+f*x^2])*
+    Subst[Int[(1-x)/(
+      (-a*e-(c*d-a*f-c*f*k)^2/(c*e)+(-a*e-(a*f-c*d-c*f*k)^2/(c*e))*x^2)*
+      Sqrt[-f*((-a*e-c*e*k)/(c*e)-(c*d-a*f-c*f*k)^2/(c*e)^2)-f*((-a*e+c*e*k)/(c*e)-(a*f-c*d-c*f*k)^2/(c*e)^2)*x^2]),x],x,
+        (c*d-a*f-c*f*k+(c*e)*x)/(c*d-a*f+c*f*k+(c*e)*x)]] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[a,c,d,e,f] && NeQ[e^2-4*d*f] && NegativeQ[-a*c] *)
+
+
+(* Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  With[{k=Rt[(a/c-d/f)^2+b^2*d/(c^2*f),2]},
+  -2*(c*d-a*f+c*f*k-b*f*x)*Sqrt[(d+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k-b*f*x))^2]/(c*Sqrt[d+f*x^2])*
+    Subst[Int[(1-x)/(
+      (b*d-b*f*k+(c*d-a*f-c*f*k)^2/(b*f)+(b*d+b*f*k+(a*f-c*d-c*f*k)^2/(b*f))*x^2)*
+      Sqrt[-f*(-d/f-(c*d-a*f-c*f*k)^2/(b*f)^2)-f*(-d/f-(a*f-c*d-c*f*k)^2/(b*f)^2)*x^2]),x],x,
+        (c*d-a*f-c*f*k+(-b*f)*x)/(c*d-a*f+c*f*k+(-b*f)*x)]] /;
+FreeQ[{a,b,c,d,f},x] && RationalQ[a,b,c,d,f] && NeQ[b^2-4*a*c] && NegativeQ[b^2-4*a*c] *)
+
+
+Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/((b-q+2*c*x)*Sqrt[d+e*x+f*x^2]),x] -
+  2*c/q*Int[1/((b+q+2*c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && PosQ[b^2-4*a*c]
+
+
+Int[1/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  1/2*Int[1/((a-Rt[-a*c,2]*x)*Sqrt[d+e*x+f*x^2]),x] +
+  1/2*Int[1/((a+Rt[-a*c,2]*x)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && PosQ[-a*c]
+
+
+Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/((b-q+2*c*x)*Sqrt[d+f*x^2]),x] -
+  2*c/q*Int[1/((b+q+2*c*x)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
+
+
+Int[1/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f),2]},
+  1/(2*q)*Int[(c*d-a*f+q+(c*e-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
+  1/(2*q)*Int[(c*d-a*f-q+(c*e-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && NegQ[b^2-4*a*c]
+
+
+Int[1/((a_.+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2+a*c*e^2,2]},
+  1/(2*q)*Int[(c*d-a*f+q+c*e*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
+  1/(2*q)*Int[(c*d-a*f-q+c*e*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && NegQ[-a*c]
+
+
+Int[1/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2+b^2*d*f,2]},
+  1/(2*q)*Int[(c*d-a*f+q+(-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] - 
+  1/(2*q)*Int[(c*d-a*f-q+(-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
+
+
+Int[Sqrt[a_+b_.*x_+c_.*x_^2]/(d_+e_.*x_+f_.*x_^2),x_Symbol] :=
+  c/f*Int[1/Sqrt[a+b*x+c*x^2],x] - 
+  1/f*Int[(c*d-a*f+(c*e-b*f)*x)/(Sqrt[a+b*x+c*x^2]*(d+e*x+f*x^2)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[Sqrt[a_+b_.*x_+c_.*x_^2]/(d_+f_.*x_^2),x_Symbol] :=
+  c/f*Int[1/Sqrt[a+b*x+c*x^2],x] - 
+  1/f*Int[(c*d-a*f-b*f*x)/(Sqrt[a+b*x+c*x^2]*(d+f*x^2)),x] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
+
+
+Int[Sqrt[a_+c_.*x_^2]/(d_+e_.*x_+f_.*x_^2),x_Symbol] :=
+  c/f*Int[1/Sqrt[a+c*x^2],x] - 
+  1/f*Int[(c*d-a*f+c*e*x)/(Sqrt[a+c*x^2]*(d+e*x+f*x^2)),x] /;
+FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f]
+
+
+Int[1/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]/Sqrt[a+b*x+c*x^2]*Int[1/(Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[1/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]/Sqrt[a+b*x+c*x^2]*Int[1/(Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Defer[Int][(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Defer[Int][(a+c*x^2)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,c,d,e,f,p,q},x] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
+FreeQ[{a,c,d,e,f,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.6 (g+h x)^m (a+b x+c x^2)^p (d+e x+f x^2)^q*)
+
+
+Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (c/f)^p*Int[(g+h*x)^m*(d+e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
+  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
+
+
+Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(g+h*x)^m*(d+e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(g+h*x)^m*(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(g+h*x)^m*(b+2*c*x)^(2*p)*(d+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,f,g,h,m,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(g_+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^m_.,x_Symbol] :=
+  Int[(d*g/a+f*h*x/c)^m*(a+b*x+c*x^2)^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p},x] && EqQ[c*g^2-b*g*h+a*h^2] && EqQ[c^2*d*g^2-a*c*e*g*h+a^2*f*h^2] && IntegerQ[m]
+
+
+Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^m_.,x_Symbol] :=
+  Int[(d*g/a+f*h*x/c)^m*(a+c*x^2)^(m+p),x] /;
+FreeQ[{a,c,d,e,f,g,h,p},x] && EqQ[c*g^2+a*h^2] && EqQ[c^2*d*g^2-a*c*e*g*h+a^2*f*h^2] && IntegerQ[m]
+
+
+Int[(g_+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^m_.,x_Symbol] :=
+  Int[(d*g/a+f*h*x/c)^m*(a+b*x+c*x^2)^(m+p),x] /;
+FreeQ[{a,b,c,d,f,g,h,p},x] && EqQ[c*g^2-b*g*h+a*h^2] && EqQ[c^2*d*g^2+a^2*f*h^2] && IntegerQ[m]
+
+
+Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^m_.,x_Symbol] :=
+  Int[(d*g/a+f*h*x/c)^m*(a+c*x^2)^(m+p),x] /;
+FreeQ[{a,c,d,f,g,h,p},x] && EqQ[c*g^2+a*h^2] && EqQ[c^2*d*g^2+a^2*f*h^2] && IntegerQ[m]
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,q},x] && EqQ[c*g^2-b*g*h+a*h^2] && IntegerQ[p] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,c,d,e,f,g,h,m,q},x] && NeQ[e^2-4*d*f] && EqQ[c*g^2+a*h^2] && IntegerQ[p] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,f,g,h,m,q},x] && NeQ[b^2-4*a*c] && EqQ[c*g^2-b*g*h+a*h^2] && IntegerQ[p] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
+FreeQ[{a,c,d,f,g,h,m,q},x] && EqQ[c*g^2+a*h^2] && IntegerQ[p] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,q},x] && EqQ[c*g^2-b*g*h+a*h^2] && Not[IntegerQ[p]] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  (a+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
+FreeQ[{a,c,d,e,f,g,h,m,q},x] && NeQ[e^2-4*d*f] && EqQ[c*g^2+a*h^2] && Not[IntegerQ[p]] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
+FreeQ[{a,b,c,d,f,g,h,m,q},x] && NeQ[b^2-4*a*c] && EqQ[c*g^2-b*g*h+a*h^2] && Not[IntegerQ[p]] *)
+
+
+(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
+  (a+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
+FreeQ[{a,c,d,f,g,h,m,q},x] && EqQ[c*g^2+a*h^2] && Not[IntegerQ[p]] *)
+
+
+Int[x_^p_*(a_.+b_.*x_+c_.*x_^2)^p_*(e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(a/e+c/f*x)^p*(e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,b,c,e,f,q},x] && NeQ[b^2-4*a*c] && EqQ[c*e^2-b*e*f+a*f^2] && IntegerQ[p]
+
+
+Int[x_^p_*(a_+c_.*x_^2)^p_*(e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
+  Int[(a/e+c/f*x)^p*(e*x+f*x^2)^(p+q),x] /;
+FreeQ[{a,c,e,f,q},x] && EqQ[c*e^2+a*f^2] && IntegerQ[p]
+
+
+Int[(g_+h_.*x_)/((a_+c_.*x_^2)^(1/3)*(d_+f_.*x_^2)),x_Symbol] :=
+  Sqrt[3]*h*ArcTan[1/Sqrt[3]-2^(2/3)*(1-3*h*x/g)^(2/3)/(Sqrt[3]*(1+3*h*x/g)^(1/3))]/(2^(2/3)*a^(1/3)*f) + 
+  h*Log[d+f*x^2]/(2^(5/3)*a^(1/3)*f) - 
+  3*h*Log[(1-3*h*x/g)^(2/3)+2^(1/3)*(1+3*h*x/g)^(1/3)]/(2^(5/3)*a^(1/3)*f) /;
+FreeQ[{a,c,d,f,g,h},x] && EqQ[c*d+3*a*f] && EqQ[c*g^2+9*a*h^2] && PositiveQ[a]
+
+
+Int[(g_+h_.*x_)/((a_+c_.*x_^2)^(1/3)*(d_+f_.*x_^2)),x_Symbol] :=
+  (1+c*x^2/a)^(1/3)/(a+c*x^2)^(1/3)*Int[(g+h*x)/((1+c*x^2/a)^(1/3)*(d+f*x^2)),x] /;
+FreeQ[{a,c,d,f,g,h},x] && EqQ[c*d+3*a*f] && EqQ[c*g^2+9*a*h^2] && Not[PositiveQ[a]]
+
+
+Int[(g_+h_.*x_)*(a_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_,x_Symbol] :=
+  g*Int[(a+c*x^2)^p*(d+f*x^2)^q,x] + h*Int[x*(a+c*x^2)^p*(d+f*x^2)^q,x] /;
+FreeQ[{a,c,d,f,g,h,p,q},x]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && IntegersQ[p,q] && p>0
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  Int[ExpandIntegrand[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x],x] /;
+FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && IntegersQ[p,q] && (p>0 || q>0)
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (g*b-2*a*h-(b*h-2*g*c)*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
+  1/((b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[e*q*(g*b-2*a*h)-d*(b*h-2*g*c)*(2*p+3)+
+        (2*f*q*(g*b-2*a*h)-e*(b*h-2*g*c)*(2*p+q+3))*x-
+        f*(b*h-2*g*c)*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p,q] && p<-1 && q>0
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (a*h-g*c*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) + 
+  2/(4*a*c*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[g*c*d*(2*p+3)-a*(h*e*q)+(g*c*e*(2*p+q+3)-a*(2*h*f*q))*x+g*c*f*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && RationalQ[p,q] && p<-1 && q>0
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (g*b-2*a*h-(b*h-2*g*c)*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
+  1/((b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
+      Simp[-d*(b*h-2*g*c)*(2*p+3)+(2*f*q*(g*b-2*a*h))*x-f*(b*h-2*g*c)*(2*p+2*q+3)*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && RationalQ[p,q] && p<-1 && q>0
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    (g*c*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
+      c*(g*(2*c^2*d+b^2*f-c*(b*e+2*a*f))-h*(b*c*d-2*a*c*e+a*b*f))*x) + 
+  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(b*h-2*g*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
+        (b^2*(g*f)-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((g*c)*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+        (2*f*((g*c)*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+          (b^2*g*f-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)-a*(-h*c*e)))*
+          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
+        c*f*(b^2*(g*f)-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)+a*h*c*e))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,e,f,g,h,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p] && p<-1 && 
+  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    (g*c*(2*a*c*e)+(-a*h)*(2*c^2*d-c*(2*a*f))+
+      c*(g*(2*c^2*d-c*(2*a*f))-h*(-2*a*c*e))*x) + 
+  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(-2*g*c)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
+        (2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((g*c)*(2*a*c*e)+(-a*h)*(2*c^2*d-c*(+2*a*f)))*(p+q+2)-
+        (2*f*((g*c)*(2*a*c*e)+(-a*h)*(2*c^2*d+-c*(+2*a*f)))*(p+q+2)-(2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(-c*e*(2*p+q+4)))*x-
+        c*f*(2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,c,d,e,f,g,h,q},x] && NeQ[e^2-4*d*f] && RationalQ[p] && p<-1 && NeQ[a*c*e^2+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    ((g*c)*(-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(2*a*f))+
+      c*(g*(2*c^2*d+b^2*f-c*(2*a*f))-h*(b*c*d+a*b*f))*x) + 
+  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
+      Simp[(b*h-2*g*c)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
+        (b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*(a*f*(p+1)-c*d*(p+2))-
+        (2*f*((g*c)*(-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
+          (b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*
+          (b*f*(p+1)))*x-
+        c*f*(b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,f,g,h,q},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && NeQ[b^2*d*f+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  h*(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*f*(p+q+1)) - 
+  (1/(2*f*(p+q+1)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[h*p*(b*d-a*e)+a*(h*e-2*g*f)*(p+q+1)+
+        (2*h*p*(c*d-a*f)+b*(h*e-2*g*f)*(p+q+1))*x+
+        (h*p*(c*e-b*f)+c*(h*e-2*g*f)*(p+q+1))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p] && p>0 && NeQ[p+q+1]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  h*(a+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*f*(p+q+1)) + 
+  (1/(2*f*(p+q+1)))*
+    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[a*h*e*p-a*(h*e-2*g*f)*(p+q+1)-2*h*p*(c*d-a*f)*x-(h*c*e*p+c*(h*e-2*g*f)*(p+q+1))*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,g,h,q},x] && NeQ[e^2-4*d*f] && RationalQ[p] && p>0 && NeQ[p+q+1]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  h*(a+b*x+c*x^2)^p*(d+f*x^2)^(q+1)/(2*f*(p+q+1)) - 
+  (1/(2*f*(p+q+1)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
+      Simp[h*p*(b*d)+a*(-2*g*f)*(p+q+1)+
+        (2*h*p*(c*d-a*f)+b*(-2*g*f)*(p+q+1))*x+
+        (h*p*(-b*f)+c*(-2*g*f)*(p+q+1))*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,g,h,q},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && NeQ[p+q+1]
+
+
+Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=Simplify[c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2]},
+  1/q*Int[Simp[g*c^2*d-g*b*c*e+a*h*c*e+g*b^2*f-a*b*h*f-a*g*c*f+c*(h*c*d-g*c*e+g*b*f-a*h*f)*x,x]/(a+b*x+c*x^2),x] + 
+  1/q*Int[Simp[-h*c*d*e+g*c*e^2+b*h*d*f-g*c*d*f-g*b*e*f+a*g*f^2-f*(h*c*d-g*c*e+g*b*f-a*h*f)*x,x]/(d+e*x+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
+  With[{q=Simplify[c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2]},
+  1/q*Int[Simp[g*c^2*d+g*b^2*f-a*b*h*f-a*g*c*f+c*(h*c*d+g*b*f-a*h*f)*x,x]/(a+b*x+c*x^2),x] + 
+  1/q*Int[Simp[b*h*d*f-g*c*d*f+a*g*f^2-f*(h*c*d+g*b*f-a*h*f)*x,x]/(d+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c]
+
+
+Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -2*g*Subst[Int[1/(b*d-a*e-b*x^2),x],x,Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && EqQ[h*e-2*g*f]
+
+
+Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -(h*e-2*g*f)/(2*f)*Int[1/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] + 
+  h/(2*f)*Int[(e+2*f*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && NeQ[h*e-2*g*f]
+
+
+Int[x_/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -2*e*Subst[Int[(1-d*x^2)/(c*e-b*f-e*(2*c*d-b*e+2*a*f)*x^2+d^2*(c*e-b*f)*x^4),x],x,
+    (1+(e+Sqrt[e^2-4*d*f])*x/(2*d))/Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e]
+
+
+Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  g*Subst[Int[1/(a+(c*d-a*f)*x^2),x],x,x/Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e] && EqQ[2*h*d-g*e]
+
+
+Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -(2*h*d-g*e)/e*Int[1/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] + 
+  h/e*Int[(2*d+e*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e] && NeQ[2*h*d-g*e]
+
+
+Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -2*g*(g*b-2*a*h)*
+    Subst[Int[1/Simp[g*(g*b-2*a*h)*(b^2-4*a*c)-(b*d-a*e)*x^2,x],x],x,Simp[g*b-2*a*h-(b*h-2*g*c)*x,x]/Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[b*d-a*e] && 
+  EqQ[h^2*(b*d-a*e)-2*g*h*(c*d-a*f)+g^2*(c*e-b*f)]
+
+
+Int[(g_+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  -2*a*g*h*Subst[Int[1/Simp[2*a^2*g*h*c+a*e*x^2,x],x],x,Simp[a*h-g*c*x,x]/Sqrt[d+e*x+f*x^2]] /;
+FreeQ[{a,c,d,e,f,g,h},x] && EqQ[a*h^2*e+2*g*h*(c*d-a*f)-g^2*c*e]
+
+
+Int[(g_+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  -2*g*(g*b-2*a*h)*Subst[Int[1/Simp[g*(g*b-2*a*h)*(b^2-4*a*c)-b*d*x^2,x],x],x,Simp[g*b-2*a*h-(b*h-2*g*c)*x,x]/Sqrt[d+f*x^2]] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && EqQ[b*h^2*d-2*g*h*(c*d-a*f)-g^2*b*f]
+
+
+Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*g-h*(b-q))/q*Int[1/((b-q+2*c*x)*Sqrt[d+e*x+f*x^2]),x] -
+  (2*c*g-h*(b+q))/q*Int[1/((b+q+2*c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && PosQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (h/2+c*g/(2*q))*Int[1/((-q+c*x)*Sqrt[d+e*x+f*x^2]),x] +
+  (h/2-c*g/(2*q))*Int[1/((q+c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && PosQ[-a*c]
+
+
+Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*g-h*(b-q))/q*Int[1/((b-q+2*c*x)*Sqrt[d+f*x^2]),x] -
+  (2*c*g-h*(b+q))/q*Int[1/((b+q+2*c*x)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f),2]},
+  1/(2*q)*Int[Simp[h*(b*d-a*e)-g*(c*d-a*f-q)-(g*(c*e-b*f)-h*(c*d-a*f+q))*x,x]/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
+  1/(2*q)*Int[Simp[h*(b*d-a*e)-g*(c*d-a*f+q)-(g*(c*e-b*f)-h*(c*d-a*f-q))*x,x]/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[b*d-a*e] && NegQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2+a*c*e^2,2]},
+  1/(2*q)*Int[Simp[-a*h*e-g*(c*d-a*f-q)+(h*(c*d-a*f+q)-g*c*e)*x,x]/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
+  1/(2*q)*Int[Simp[-a*h*e-g*(c*d-a*f+q)+(h*(c*d-a*f-q)-g*c*e)*x,x]/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && NegQ[-a*c]
+
+
+Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  With[{q=Rt[(c*d-a*f)^2+b^2*d*f,2]},
+  1/(2*q)*Int[Simp[h*b*d-g*(c*d-a*f-q)+(h*(c*d-a*f+q)+g*b*f)*x,x]/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] - 
+  1/(2*q)*Int[Simp[h*b*d-g*(c*d-a*f+q)+(h*(c*d-a*f-q)+g*b*f)*x,x]/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{s=Rt[b^2-4*a*c,2],t=Rt[e^2-4*d*f,2]},
+  Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[e+t+2*f*x]*Sqrt[2*d+(e+t)*x]/(Sqrt[a+b*x+c*x^2]*Sqrt[d+e*x+f*x^2])*
+    Int[(g+h*x)/(Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[e+t+2*f*x]*Sqrt[2*d+(e+t)*x]),x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(g_.+h_.*x_)/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
+  With[{s=Rt[b^2-4*a*c,2],t=Rt[-4*d*f,2]},
+  Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[t+2*f*x]*Sqrt[2*d+t*x]/(Sqrt[a+b*x+c*x^2]*Sqrt[d+f*x^2])*
+    Int[(g+h*x)/(Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[t+2*f*x]*Sqrt[2*d+t*x]),x]] /;
+FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c]
+
+
+Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)^(1/3)*(d_.+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=(-9*c*h^2/(2*c*g-b*h)^2)^(1/3)},
+  Sqrt[3]*h*q*ArcTan[1/Sqrt[3]-2^(2/3)*(1-(3*h*(b+2*c*x))/(2*c*g-b*h))^(2/3)/(Sqrt[3]*(1+(3*h*(b+2*c*x))/(2*c*g-b*h))^(1/3))]/f + 
+  h*q*Log[d+e*x+f*x^2]/(2*f) - 
+  3*h*q*Log[(1-3*h*(b+2*c*x)/(2*c*g-b*h))^(2/3)+2^(1/3)*(1+3*h*(b+2*c*x)/(2*c*g-b*h))^(1/3)]/(2*f)] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[c*e-b*f] && EqQ[c^2*d-f*(b^2-3*a*c)] && EqQ[c^2*g^2-b*c*g*h-2*b^2*h^2+9*a*c*h^2] && 
+  PositiveQ[-9*c*h^2/(2*c*g-b*h)^2]
+
+
+Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)^(1/3)*(d_.+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=-c/(b^2-4*a*c)},
+  (q*(a+b*x+c*x^2))^(1/3)/(a+b*x+c*x^2)^(1/3)*Int[(g+h*x)/((q*a+b*q*x+c*q*x^2)^(1/3)*(d+e*x+f*x^2)),x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[c*e-b*f] && EqQ[c^2*d-f*(b^2-3*a*c)] && EqQ[c^2*g^2-b*c*g*h-2*b^2*h^2+9*a*c*h^2] && 
+  Not[PositiveQ[4*a-b^2/c]]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  Defer[Int][(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x]
+
+
+Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
+  Defer[Int][(a+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x] /;
+FreeQ[{a,c,d,e,f,g,h,p,q},x]
+
+
+Int[(g_.+h_.*u_)^m_.*(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(g+h*x)^m*(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(g_.+h_.*u_)^m_.*(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(g+h*x)^m*(a+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
+FreeQ[{a,c,d,e,f,g,h,m,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^n_.*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(h+i*x)^q*(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && EqQ[e*f+d*g] && EqQ[m-n] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
+
+
+Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)^n_.*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(h+i*x)^q*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && PositiveIntegerQ[p] && NegativeIntegerQ[m]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(h+i*x)^q*(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && EqQ[e*f+d*g] && EqQ[m-n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.7 (a+b x+c x^2)^p (d+e x+f x^2)^q (A+B x+C x^2)*)
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q)*(A+B*x+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
+  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
+  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q)*(A+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
+  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q)*(A+B*x+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
+  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q)*(A+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q*(A+C*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q*(A+B*x+C*x^2),x] /;
+FreeQ[{a,b,c,d,f,A,B,C,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q*(A+C*x^2),x] /;
+FreeQ[{a,b,c,d,f,A,C,p,q},x] && EqQ[b^2-4*a*c]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (A*b*c-2*a*B*c+a*b*C-(c*(b*B-2*A*c)-C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
+  1/(c*(b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[e*q*(A*b*c-2*a*B*c+a*b*C)-d*(c*(b*B-2*A*c)*(2*p+3)+C*(2*a*c-b^2*(p+2)))+
+        (2*f*q*(A*b*c-2*a*B*c+a*b*C)-e*(c*(b*B-2*A*c)*(2*p+q+3)+C*(2*a*c*(q+1)-b^2*(p+q+2))))*x-
+        f*(c*(b*B-2*A*c)*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (A*b*c+a*b*C+(2*A*c^2+C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
+  1/(c*(b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[A*c*(2*c*d*(2*p+3)+b*e*q)-C*(2*a*c*d-b^2*d*(p+2)-a*b*e*q)+
+        (C*(2*a*b*f*q-2*a*c*e*(q+1)+b^2*e*(p+q+2))+2*A*c*(b*f*q+c*e*(2*p+q+3)))*x-
+        f*(-2*A*c^2*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a*B-(A*c-a*C)*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) - 
+  2/((-4*a*c)*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[A*c*d*(2*p+3)-a*(C*d+B*e*q)+(A*c*e*(2*p+q+3)-a*(2*B*f*q+C*e*(q+1)))*x-f*(a*C*(2*q+1)-A*c*(2*p+2*q+3))*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,A,B,C},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  -(A*c-a*C)*x*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) + 
+  2/(4*a*c*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
+      Simp[A*c*d*(2*p+3)-a*C*d+(A*c*e*(2*p+q+3)-a*C*e*(q+1))*x-f*(a*C*(2*q+1)-A*c*(2*p+2*q+3))*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,A,C},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (A*b*c-2*a*B*c+a*b*C-(c*(b*B-2*A*c)-C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
+  1/(c*(b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
+      Simp[-d*(c*(b*B-2*A*c)*(2*p+3)+C*(2*a*c-b^2*(p+2)))+
+        (2*f*q*(A*b*c-2*a*B*c+a*b*C))*x-
+        f*(c*(b*B-2*A*c)*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (A*b*c+a*b*C+(2*A*c^2+C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
+  1/(c*(b^2-4*a*c)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
+      Simp[A*c*(2*c*d*(2*p+3))-C*(2*a*c*d-b^2*d*(p+2))+
+        (C*(2*a*b*f*q)+2*A*c*(b*f*q))*x-
+        f*(-2*A*c^2*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    ((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
+      c*(A*(2*c^2*d+b^2*f-c*(b*e+2*a*f))-B*(b*c*d-2*a*c*e+a*b*f)+C*(b^2*d-a*b*e-2*a*(c*d-a*f)))*x) + 
+  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(b*B-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
+        (b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+        (2*f*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+          (b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*
+          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
+        c*f*(b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,e,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
+  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    ((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
+      c*(A*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+C*(b^2*d-a*b*e-2*a*(c*d-a*f)))*x) + 
+  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
+        (b^2*(C*d+A*f)-b*(+A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+        (2*f*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
+          (b^2*(C*d+A*f)-b*(A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
+          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
+        c*f*(b^2*(C*d+A*f)-b*(A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,e,f,A,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
+  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    ((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d-c*(2*a*f))+
+      c*(A*(2*c^2*d-c*(2*a*f))-B*(-2*a*c*e)+C*(-2*a*(c*d-a*f)))*x) + 
+  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
+        (2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d-c*(+2*a*f)))*(p+q+2)-
+        (2*f*((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d+-c*(+2*a*f)))*(p+q+2)-
+          (2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*
+          (-c*e*(2*p+q+4)))*x-
+        c*f*(2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,c,d,e,f,A,B,C,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    ((A*c-a*C)*(2*a*c*e)+c*(A*(2*c^2*d-c*(2*a*f))+C*(-2*a*(c*d-a*f)))*x) + 
+  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
+    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
+      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
+        (2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        e*((A*c-a*C)*(2*a*c*e))*(p+q+2)-
+        (2*f*((A*c-a*C)*(2*a*c*e))*(p+q+2)-(2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(-c*e*(2*p+q+4)))*x-
+        c*f*(2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,c,d,e,f,A,C,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    ((A*c-a*C)*(-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(2*a*f))+
+      c*(A*(2*c^2*d+b^2*f-c*(2*a*f))-B*(b*c*d+a*b*f)+C*(b^2*d-2*a*(c*d-a*f)))*x) + 
+  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
+      Simp[(b*B-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
+        (b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        (2*f*((A*c-a*C)*(-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
+          (b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
+          (b*f*(p+1)))*x-
+        c*f*(b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    ((A*c-a*C)*(-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(2*a*f))+
+      c*(A*(2*c^2*d+b^2*f-c*(2*a*f))+C*(b^2*d-2*a*(c*d-a*f)))*x) + 
+  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
+    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
+      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
+        (b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
+        (2*f*((A*c-a*C)*(-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
+          (b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
+          (b*f*(p+1)))*x-
+        c*f*(b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
+FreeQ[{a,b,c,d,f,A,C,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
+  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (B*c*f*(2*p+2*q+3)+C*(b*f*p-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
+    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[p*(b*d-a*e)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(B*e-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(C*e*f*p*(b^2-4*a*c)-b*c*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x+
+        (p*(c*e-b*f)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,0] && 
+  NeQ[p+q+1] && NeQ[2*p+2*q+3] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (C*(b*f*p-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
+    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[p*(b*d-a*e)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
+          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
+          (p+q+1)*(C*e*f*p*(b^2-4*a*c)-b*c*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
+        (p*(c*e-b*f)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
+          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,0] && 
+  NeQ[p+q+1] && NeQ[2*p+2*q+3] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (B*c*f*(2*p+2*q+3)+C*(-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+c*x^2)^p*
+    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[p*(-a*e)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(B*e-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(C*e*f*p*(-4*a*c)))*x+
+        (p*(c*e)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(C*f^2*p*(-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,A,B,C,q},x] && NeQ[e^2-4*d*f] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
+ Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (C*(-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
+      Simp[p*(-a*e)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+(p+q+1)*(a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+(p+q+1)*(C*e*f*p*(-4*a*c)))*x+
+        (p*(c*e)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+
+          (p+q+1)*(C*f^2*p*(-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,A,C,q},x] && NeQ[e^2-4*d*f] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
+ Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  (B*c*f*(2*p+2*q+3)+C*(b*f*p)+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
+    (d+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
+      Simp[p*(b*d)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f)+f*(-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(-b*c*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
+        (p*(-b*f)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
+          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
+ Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
+  (C*(b*f*p)+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
+    (d+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
+  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
+    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
+      Simp[p*(b*d)*(C*(-b*f)*(q+1))+
+          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f)+f*(-2*A*f)*(2*p+2*q+3)))+
+        (2*p*(c*d-a*f)*(C*(-b*f)*(q+1))+
+          (p+q+1)*(-b*c*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
+        (p*(-b*f)*(C*(-b*f)*(q+1))+
+          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
+FreeQ[{a,b,c,d,f,A,C,q},x] && NeQ[b^2-4*a*c] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
+ Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
+  1/q*Int[(A*c^2*d-a*c*C*d-A*b*c*e+a*B*c*e+A*b^2*f-a*b*B*f-a*A*c*f+a^2*C*f+
+    c*(B*c*d-b*C*d-A*c*e+a*C*e+A*b*f-a*B*f)*x)/(a+b*x+c*x^2),x] + 
+  1/q*Int[(c*C*d^2-B*c*d*e+A*c*e^2+b*B*d*f-A*c*d*f-a*C*d*f-A*b*e*f+a*A*f^2-
+    f*(B*c*d-b*C*d-A*c*e+a*C*e+A*b*f-a*B*f)*x)/(d+e*x+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
+  1/q*Int[(A*c^2*d-a*c*C*d-A*b*c*e+A*b^2*f-a*A*c*f+a^2*C*f+
+    c*(-b*C*d-A*c*e+a*C*e+A*b*f)*x)/(a+b*x+c*x^2),x] + 
+  1/q*Int[(c*C*d^2+A*c*e^2-A*c*d*f-a*C*d*f-A*b*e*f+a*A*f^2-
+    f*(-b*C*d-A*c*e+a*C*e+A*b*f)*x)/(d+e*x+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
+  1/q*Int[(A*c^2*d-a*c*C*d+A*b^2*f-a*b*B*f-a*A*c*f+a^2*C*f+c*(B*c*d-b*C*d+A*b*f-a*B*f)*x)/(a+b*x+c*x^2),x] + 
+  1/q*Int[(c*C*d^2+b*B*d*f-A*c*d*f-a*C*d*f+a*A*f^2-f*(B*c*d-b*C*d+A*b*f-a*B*f)*x)/(d+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
+  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
+  1/q*Int[(A*c^2*d-a*c*C*d+A*b^2*f-a*A*c*f+a^2*C*f+c*(-b*C*d+A*b*f)*x)/(a+b*x+c*x^2),x] + 
+  1/q*Int[(c*C*d^2-A*c*d*f-a*C*d*f+a*A*f^2-f*(-b*C*d+A*b*f)*x)/(d+f*x^2),x] /;
+ NeQ[q]] /;
+FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 
+  1/c*Int[(A*c-a*C+(B*c-b*C)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 1/c*Int[(A*c-a*C-b*C*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 1/c*Int[(A*c-a*C+B*c*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,c,d,e,f,A,B,C},x] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+C_.*x_^2)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + (A*c-a*C)/c*Int[1/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
+FreeQ[{a,c,d,e,f,A,C},x] && NeQ[e^2-4*d*f]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+f*x^2],x] + 1/c*Int[(A*c-a*C+(B*c-b*C)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] /;
+FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  C/c*Int[1/Sqrt[d+f*x^2],x] + 1/c*Int[(A*c-a*C-b*C*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] /;
+FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c]
+
+
+Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_+C_.*u_^2),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x],x,u] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x),x],x,u] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+C_.*u_^2),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+C*x^2),x],x,u] /;
+FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_+C_.*u_^2),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x],x,u] /;
+FreeQ[{a,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x),x],x,u] /;
+FreeQ[{a,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+C_.*u_^2),x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+C*x^2),x],x,u] /;
+FreeQ[{a,c,d,e,f,A,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.9 (d+e x)^m Pq(x) (a+b x+c x^2)^p*)
+
+
+Int[x_^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  1/2*Subst[Int[x^((m-1)/2)*SubstFor[x^2,Pq,x]*(a+c*x)^p,x],x,x^2] /;
+FreeQ[{a,c,p},x] && PolyQ[Pq,x^2] && IntegerQ[(m-1)/2]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+1)*PolynomialQuotient[Pq,d+e*x,x]*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,d+e*x,x]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+1)*PolynomialQuotient[Pq,d+e*x,x]*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,d+e*x,x]]
+
+
+Int[(d_.+e_.*x_)^m_.*P2_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{f=Coeff[P2,x,0],g=Coeff[P2,x,1],h=Coeff[P2,x,2]},
+  h*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(c*e*(m+2*p+3)) /;
+ EqQ[b*e*h*(m+p+2)+2*c*d*h*(p+1)-c*e*g*(m+2*p+3)] && EqQ[b*d*h*(p+1)+a*e*h*(m+1)-c*e*f*(m+2*p+3)]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[P2,x,2] && NeQ[m+2*p+3]
+
+
+Int[(d_.+e_.*x_)^m_.*P2_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{f=Coeff[P2,x,0],g=Coeff[P2,x,1],h=Coeff[P2,x,2]},
+  h*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(c*e*(m+2*p+3)) /;
+ EqQ[2*d*h*(p+1)-e*g*(m+2*p+3)] && EqQ[a*h*(m+1)-c*f*(m+2*p+3)]] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[P2,x,2] && NeQ[m+2*p+3]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*Pq*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && IGtQ[p,-2]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*Pq*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && IGtQ[p,-2]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*Pq*(b+2*c*x)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[b^2-4*a*c,0]
+
+
+Int[(e_.*x_)^m_.*Pq_*(b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(e*x)^(m-1)*ExpandToSum[e*Pq/(b+c*x),x]*(b*x+c*x^2)^(p+1),x] /;
+FreeQ[{b,c,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,b+c*x,x]]
+
+
+Int[(d_+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m-1)*ExpandToSum[d*e*Pq/(a*e+c*d*x),x]*(a+b*x+c*x^2)^(p+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && EqQ[PolynomialRemainder[Pq,a*e+c*d*x,x]]
+
+
+Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m-1)*ExpandToSum[d*e*Pq/(a*e+c*d*x),x]*(a+c*x^2)^(p+1),x] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && EqQ[PolynomialRemainder[Pq,a*e+c*d*x,x]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
+  f*(d+e*x)^(m+q-1)*(a+b*x+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
+  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*
+    ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q+e*f*(m+p+q)*(d+e*x)^(q-2)*(b*d-2*a*e+(2*c*d-b*e)*x),x],x] /;
+ NeQ[m+q+2*p+1]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
+  f*(d+e*x)^(m+q-1)*(a+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
+  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+c*x^2)^p*
+    ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-2*e*f*(m+p+q)*(d+e*x)^(q-2)*(a*e-c*d*x),x],x] /;
+ NeQ[m+q+2*p+1]] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
+FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
+FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && IntegerQ[p]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(a+b*x+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*Pq,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && IGtQ[m,0] && RationalQ[a,b,c,d,e] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[(a+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*Pq,x],x] /;
+FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && IGtQ[m,0] && RationalQ[a,c,d,e] && Not[IntegerQ[p]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
+  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(f*b-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) + 
+  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)*
+    ExpandToSum[(p+1)*(b^2-4*a*c)*(d+e*x)*Q+g*(2*a*e*m+b*d*(2*p+3))-f*(b*e*m+2*c*d*(2*p+3))-e*(2*c*f-b*g)*(m+2*p+3)*x,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && GtQ[m,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
+  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) + 
+  1/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1)*
+    ExpandToSum[2*a*c*(p+1)*(d+e*x)*Q-a*e*g*m+c*d*f*(2*p+3)+c*e*f*(m+2*p+3)*x,x],x]] /;
+FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && GtQ[m,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[(d+e*x)^m*Pq,a+b*x+c*x^2,x],
+        f=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+b*x+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+b*x+c*x^2,x],x,1]},
+  (b*f-2*a*g+(2*c*f-b*g)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
+  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
+    ExpandToSum[(p+1)*(b^2-4*a*c)*(d+e*x)^(-m)*Q-(2*p+3)*(2*c*f-b*g)*(d+e*x)^(-m),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && ILtQ[m,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[(d+e*x)^m*Pq,a+c*x^2,x],
+        f=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+c*x^2,x],x,1]},
+  (a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
+  1/(2*a*c*(p+1))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
+    ExpandToSum[2*a*c*(p+1)*(d+e*x)^(-m)*Q+c*f*(2*p+3)*(d+e*x)^(-m),x],x]] /;
+FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && ILtQ[m,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
+  (d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)*(f*(b*c*d-b^2*e+2*a*c*e)-a*g*(2*c*d-b*e)+c*(f*(2*c*d-b*e)-g*(b*d-2*a*e))*x)/
+    ((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
+   ExpandToSum[(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)*Q+
+      f*(b*c*d*e*(2*p-m+2)+b^2*e^2*(p+m+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3))-
+      g*(a*e*(b*e-2*c*d*m+b*e*m)-b*d*(3*c*d-b*e+2*c*d*p-b*e*p))+
+      c*e*(g*(b*d-2*a*e)-f*(2*c*d-b*e))*(m+2*p+4)*x,x],x]] /;
+FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && Not[GtQ[m,0]]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
+  -(d+e*x)^(m+1)*(a+c*x^2)^(p+1)*(a*(e*f-d*g)+(c*d*f+a*e*g)*x)/(2*a*(p+1)*(c*d^2+a*e^2)) + 
+  1/(2*a*(p+1)*(c*d^2+a*e^2))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
+   ExpandToSum[2*a*(p+1)*(c*d^2+a*e^2)*Q+c*d^2*f*(2*p+3)-a*e*(d*g*m-e*f*(m+2*p+3))+e*(c*d*f+a*e*g)*(m+2*p+4)*x,x],x]] /;
+FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && Not[GtQ[m,0]]
+
+
+Int[(d_.+e_.*x_)^m_*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,d+e*x,x], R=PolynomialRemainder[Pq,d+e*x,x]},
+  (e*R*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1))/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
+  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
+     ExpandToSum[(m+1)*(c*d^2-b*d*e+a*e^2)*Q+c*d*R*(m+1)-b*e*R*(m+p+2)-c*e*R*(m+2*p+3)*x,x],x]] /;
+FreeQ[{a,b,c,d,e,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)^m_*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,d+e*x,x], R=PolynomialRemainder[Pq,d+e*x,x]},
+  (e*R*(d+e*x)^(m+1)*(a+c*x^2)^(p+1))/((m+1)*(c*d^2+a*e^2)) + 
+  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*
+     ExpandToSum[(m+1)*(c*d^2+a*e^2)*Q+c*d*R*(m+1)-c*e*R*(m+2*p+3)*x,x],x]] /;
+FreeQ[{a,c,d,e,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  Coeff[Pq,x,q]/e^q*Int[(d+e*x)^(m+q)*(a+b*x+c*x^2)^p,x] + 
+  1/e^q*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*ExpandToSum[e^q*Pq-Coeff[Pq,x,q]*(d+e*x)^q,x],x] /;
+ EqQ[m+q+2*p+1,0]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  Coeff[Pq,x,q]/e^q*Int[(d+e*x)^(m+q)*(a+c*x^2)^p,x] + 
+  1/e^q*Int[(d+e*x)^m*(a+c*x^2)^p*ExpandToSum[e^q*Pq-Coeff[Pq,x,q]*(d+e*x)^q,x],x] /;
+ EqQ[m+q+2*p+1,0]] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
+  f*(d+e*x)^(m+q-1)*(a+b*x+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
+  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-
+    f*(d+e*x)^(q-2)*(b*d*e*(p+1)+a*e^2*(m+q-1)-c*d^2*(m+q+2*p+1)-e*(2*c*d-b*e)*(m+q+p)*x),x],x] /;
+ NeQ[m+q+2*p+1,0]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
+
+
+Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
+  f*(d+e*x)^(m+q-1)*(a+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
+  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+c*x^2)^p*ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-
+    f*(d+e*x)^(q-2)*(a*e^2*(m+q-1)-c*d^2*(m+q+2*p+1)-2*c*d*e*(m+q+p)*x),x],x] /;
+ NeQ[m+q+2*p+1,0]] /;
+FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.1.8 Pq(x) (a+b x+c x^2)^p*)
+
+
+Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],k},
+  Int[Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2}]*(a+c*x^2)^p,x] + 
+  Int[x*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2}]*(a+c*x^2)^p,x]] /;
+FreeQ[{a,c,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]] && NeQ[p,-1]
+
+
+Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x+c*x^2)^p,x],x] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && PositiveIntegerQ[p+2]
+
+
+Int[Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+c*x^2)^p,x],x] /;
+FreeQ[{a,c},x] && PolyQ[Pq,x] && PositiveIntegerQ[p+2]
+
+
+Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[x*ExpandToSum[Pq/x,x]*(a+b*x+c*x^2)^p,x] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  Int[x*ExpandToSum[Pq/x,x]*(a+c*x^2)^p,x] /;
+FreeQ[{a,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[Pq*(b+2*c*x)^(2*p),x] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[b^2-4*a*c]
+
+
+Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
+  (b*f-2*a*g+(2*c*f-b*g)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
+  1/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1)*ExpandToSum[(p+1)*(b^2-4*a*c)*Q-(2*p+3)*(2*c*f-b*g),x],x]] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && LtQ[p,-1]
+
+
+Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
+        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
+        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
+  (a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
+  1/(2*a*c*(p+1))*Int[(a+c*x^2)^(p+1)*ExpandToSum[2*a*c*(p+1)*Q+c*f*(2*p+3),x],x]] /;
+FreeQ[{a,c},x] && PolyQ[Pq,x] && LtQ[p,-1]
+
+
+Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],e=Coeff[Pq,x,Expon[Pq,x]]},
+  e*x^(q-1)*(a+b*x+c*x^2)^(p+1)/(c*(q+2*p+1)) + 
+  1/(c*(q+2*p+1))*Int[(a+b*x+c*x^2)^p*
+    ExpandToSum[c*(q+2*p+1)*Pq-a*e*(q-1)*x^(q-2)-b*e*(q+p)*x^(q-1)-c*e*(q+2*p+1)*x^q,x],x]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && Not[LeQ[p,-1]]
+
+
+Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x],e=Coeff[Pq,x,Expon[Pq,x]]},
+  e*x^(q-1)*(a+c*x^2)^(p+1)/(c*(q+2*p+1)) + 
+  1/(c*(q+2*p+1))*Int[(a+c*x^2)^p*
+    ExpandToSum[c*(q+2*p+1)*Pq-a*e*(q-1)*x^(q-2)-c*e*(q+2*p+1)*x^q,x],x]] /;
+FreeQ[{a,c,p},x] && PolyQ[Pq,x] && Not[LeQ[p,-1]]
+
+
+
+`)
+
+func resourcesRubi121QuadraticTrinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi121QuadraticTrinomialProductsM, nil
+}
+
+func resourcesRubi121QuadraticTrinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi121QuadraticTrinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.2.1 Quadratic trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi122QuarticTrinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.2.2 Quartic Trinomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.1 (a+b x^2+c x^4)^p*)
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^p/(b+2*c*x^2)^(2*p)*Int[(b+2*c*x^2)^(2*p),x] /;
+FreeQ[{a,b,c,p},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  x*(a+b*x^2+c*x^4)^p/(4*p+1) + 
+  2*p/(4*p+1)*Int[(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && IntegerQ[2*p]
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  -x*(b^2-2*a*c+b*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*(p+1)*(b^2-4*a*c)) +
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(b^2-2*a*c+2*(p+1)*(b^2-4*a*c)+b*c*(4*p+7)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[1/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  c/q*Int[1/(b/2-q/2+c*x^2),x] - c/q*Int[1/(b/2+q/2+c*x^2),x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
+
+
+Int[1/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*q*r)*Int[(r-x)/(q-r*x+x^2),x] + 1/(2*c*q*r)*Int[(r+x)/(q+r*x+x^2),x]]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*Sqrt[-c]*Int[1/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  (1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^2+c*x^4])*EllipticF[2*ArcTan[q*x],1/2-b*q^2/(4*c)]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[-2*a-(b-q)*x^2]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*Sqrt[-a]*Sqrt[a+b*x^2+c*x^4])*
+    EllipticF[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)] /;
+  IntegerQ[q]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*Sqrt[a+b*x^2+c*x^4]*Sqrt[a/(2*a+(b+q)*x^2)])*
+    EllipticF[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*a+(b+q)*x^2)*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]/(2*a*Rt[(b+q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
+    EllipticF[ArcTan[Rt[(b+q)/(2*a),2]*x],2*q/(b+q)] /;
+ PosQ[(b+q)/a] && Not[PosQ[(b-q)/a] && SimplerSqrtQ[(b-q)/(2*a),(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*a+(b-q)*x^2)*Sqrt[(2*a+(b+q)*x^2)/(2*a+(b-q)*x^2)]/(2*a*Rt[(b-q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
+    EllipticF[ArcTan[Rt[(b-q)/(2*a),2]*x],-2*q/(b-q)] /;
+ PosQ[(b-q)/a]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+(b+q)*x^2/(2*a)]*Sqrt[1+(b-q)*x^2/(2*a)]/(Rt[-(b+q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
+    EllipticF[ArcSin[Rt[-(b+q)/(2*a),2]*x],(b-q)/(b+q)] /;
+ NegQ[(b+q)/a] && Not[NegQ[(b-q)/a] && SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+(b-q)*x^2/(2*a)]*Sqrt[1+(b+q)*x^2/(2*a)]/(Rt[-(b-q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
+    EllipticF[ArcSin[Rt[-(b-q)/(2*a),2]*x],(b+q)/(b-q)] /;
+ NegQ[(b-q)/a]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  (1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^2+c*x^4])*EllipticF[2*ArcTan[q*x],1/2-b*q^2/(4*c)]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
+
+
+Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
+    Int[1/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^2+c*x^4)^FracPart[p]/
+    ((1+2*c*x^2/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^2/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
+    Int[(1+2*c*x^2/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^2/(b-Sqrt[b^2-4*a*c]))^p,x] /;
+FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.2 (d x)^m (a+b x^2+c x^4)^p*)
+
+
+Int[x_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,p},x]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p] && Not[IntegerQ[Simplify[(m+1)/2]]]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(2*a*d*n*(p+1)*(2*p+1)) - 
+  (d*x)^(m+1)*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^p/(2*a*d*n*(2*p+1)) /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0] && EqQ[m+2*n(p+1)+1,0] && NeQ[2*p+1,0]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*Int[(d*x)^m*(b/2+c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
+
+
+Int[x_^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[x^(Simplify[(m+1)/2]-1)*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c] && IntegerQ[(m+1)/2]
+
+
+Int[(d_.*x_)^m_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/d*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(2*k)/d^2+c*x^(4*k)/d^4)^p,x],x,(d*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  d*(d*x)^(m-1)*(2*b*p+c*(m+4*p-1)*x^2)*(a+b*x^2+c*x^4)^p/(c*(m+4*p+1)*(m+4*p-1)) - 
+  2*p*d^2/(c*(m+4*p+1)*(m+4*p-1))*
+    Int[(d*x)^(m-2)*(a+b*x^2+c*x^4)^(p-1)*Simp[a*b*(m-1)-(2*a*c*(m+4*p-1)-b^2*(m+2*p-1))*x^2,x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p>0 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^2+c*x^4)^p/(d*(m+1)) - 
+  2*p/(d^2*(m+1))*Int[(d*x)^(m+2)*(b+2*c*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p>0 && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^2+c*x^4)^p/(d*(m+4*p+1)) + 
+  2*p/(m+4*p+1)*Int[(d*x)^m*(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && NeQ[m+4*p+1] && IntegerQ[2*p] && 
+  (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  d*(d*x)^(m-1)*(b+2*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*(p+1)*(b^2-4*a*c)) - 
+  d^2/(2*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^(m-2)*(b*(m-1)+2*c*(m+4*(p+1)+1)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p<-1 && 1<m<=3 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  -d^3*(d*x)^(m-3)*(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*(p+1)*(b^2-4*a*c)) + 
+  d^4/(2*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^(m-4)*(2*a*(m-3)+b*(m+4*p+3)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p<-1 && m>3 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*d*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^m*(a+b*x^2+c*x^4)^(p+1)*Simp[b^2*(m+2*p+3)-2*a*c*(m+4*(p+1)+1)+b*c*(m+4*p+7)*x^2,x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  d^3*(d*x)^(m-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(m+4*p+1)) - 
+  d^4/(c*(m+4*p+1))*
+    Int[(d*x)^(m-4)*Simp[a*(m-3)+b*(m+2*p-1)*x^2,x]*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>3 && NeQ[m+4*p+1] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*d*(m+1)) - 
+  1/(a*d^2*(m+1))*Int[(d*x)^(m+2)*(b*(m+2*p+3)+c*(m+4*p+5)*x^2)*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  (d*x)^(m+1)/(a*d*(m+1)) -
+  1/(a*d^2)*Int[(d*x)^(m+2)*(b+c*x^2)/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m<-1
+
+
+Int[x_^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[PolynomialDivide[x^m,(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && IntegerQ[m] && m>5
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  d^3*(d*x)^(m-3)/(c*(m-3)) - d^4/c*Int[(d*x)^(m-4)*(a+b*x^2)/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>3
+
+
+Int[x_^2/(a_+b_.*x_^2+c_.*x_^4), x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  1/2*Int[(q+x^2)/(a+b*x^2+c*x^4),x] - 1/2*Int[(q-x^2)/(a+b*x^2+c*x^4),x]] /;
+FreeQ[{a,b,c},x] && NegativeQ[b^2-4*a*c] && PosQ[a*c]
+
+
+Int[x_^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*r)*Int[x^(m-3)*(q+r*x)/(q+r*x+x^2),x] - 
+  1/(2*c*r)*Int[x^(m-3)*(q-r*x)/(q-r*x+x^2),x]]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && 3<=m<4 && NegQ[b^2-4*a*c]
+
+
+Int[x_^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*r)*Int[x^(m-1)/(q-r*x+x^2),x] - 1/(2*c*r)*Int[x^(m-1)/(q+r*x+x^2),x]]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && 1<=m<3 && NegQ[b^2-4*a*c]
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  d^2/2*(b/q+1)*Int[(d*x)^(m-2)/(b/2+q/2+c*x^2),x] - 
+  d^2/2*(b/q-1)*Int[(d*x)^(m-2)/(b/2-q/2+c*x^2),x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>=2
+
+
+Int[(d_.*x_)^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  c/q*Int[(d*x)^m/(b/2-q/2+c*x^2),x] - c/q*Int[(d*x)^m/(b/2+q/2+c*x^2),x]] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*Sqrt[-c]*Int[x^2/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,2]},
+  1/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -(b-q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  x*(b+q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
+  Rt[(b+q)/(2*a),2]*(2*a+(b+q)*x^2)*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]/(2*c*Sqrt[a+b*x^2+c*x^4])*
+    EllipticE[ArcTan[Rt[(b+q)/(2*a),2]*x],2*q/(b+q)] /;
+ PosQ[(b+q)/a] && Not[PosQ[(b-q)/a] && SimplerSqrtQ[(b-q)/(2*a),(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  x*(b-q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
+  Rt[(b-q)/(2*a),2]*(2*a+(b-q)*x^2)*Sqrt[(2*a+(b+q)*x^2)/(2*a+(b-q)*x^2)]/(2*c*Sqrt[a+b*x^2+c*x^4])*
+    EllipticE[ArcTan[Rt[(b-q)/(2*a),2]*x],-2*q/(b-q)] /;
+ PosQ[(b-q)/a]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -(b+q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b+q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NegQ[(b+q)/a] && Not[NegQ[(b-q)/a] && SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -(b-q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NegQ[(b-q)/a]] /;
+FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,2]},
+  1/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
+
+
+Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
+    Int[x^2/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^2+c*x^4)^FracPart[p]/
+    ((1+2*c*x^2/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^2/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
+    Int[(d*x)^m*(1+2*c*x^2/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^2/(b-Sqrt[b^2-4*a*c]))^p,x] /;
+FreeQ[{a,b,c,d,m,p},x]
+
+
+Int[u_^m_.*(a_.+b_.*v_^2+c_.*v_^4)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^2+c*x^(2*2))^p,x],x,v] /;
+FreeQ[{a,b,c,m,p},x] && LinearPairQ[u,v,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.3 (d+e x^2)^q (a+b x^2+c x^4)^p*)
+
+
+Int[(d_+e_.*x_^2)/(b_.*x_^2+c_.*x_^4)^(3/4),x_Symbol] :=
+  -2*(c*d-b*e)*(b*x^2+c*x^4)^(1/4)/(b*c*x) + e/c*Int[(b*x^2+c*x^4)^(1/4)/x^2,x] /;
+FreeQ[{b,c,d,e},x]
+
+
+Int[(d_+e_.*x_^2)*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  e*(b*x^2+c*x^4)^(p+1)/(c*(4*p+3)*x) /;
+FreeQ[{b,c,d,e,p},x] && Not[IntegerQ[p]] && NeQ[4*p+3] && EqQ[b*e*(2*p+1)-c*d*(4*p+3)]
+
+
+Int[(d_+e_.*x_^2)*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  e*(b*x^2+c*x^4)^(p+1)/(c*(4*p+3)*x) - ((b*e*(2*p+1)-c*d*(4*p+3))/(c*(4*p+3)))*Int[(b*x^2+c*x^4)^p,x] /;
+FreeQ[{b,c,d,e,p},x] && Not[IntegerQ[p]] && NeQ[4*p+3] && NeQ[b*e*(2*p+1)-c*d*(4*p+3)]
+
+
+Int[(d_+e_.*x_^2)^q_.*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (b*x^2+c*x^4)^FracPart[p]/(x^(2*FracPart[p])*(b+c*x^2)^FracPart[p])*Int[x^(2*p)*(d+e*x^2)^q*(b+c*x^2)^p,x] /;
+FreeQ[{b,c,d,e,p,q},x] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_.)^q_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^p/(d+e*x^n)^(2*p)*Int[(d+e*x^n)^(q+2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_+e_.*x_^n_.)^q_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*Int[(d+e*x^n)^q*(b/2+c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,c,d,e,q},x] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  (a+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,c,d,e,p,q},x] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[p,q]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[p,q]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  -(c*d^2-b*d*e+a*e^2)*x*(d+e*x^2)^(q+1)/(2*d*e^2*(q+1)) + 
+  1/(2*(q+1)*d*e^2)*Int[(d+e*x^2)^(q+1)*Simp[c*d^2-b*d*e+a*e^2*(2*(q+1)+1)+2*c*d*e*(q+1)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4),x_Symbol] :=
+  -(c*d^2+a*e^2)*x*(d+e*x^2)^(q+1)/(2*d*e^2*(q+1)) + 
+  1/(2*(q+1)*d*e^2)*Int[(d+e*x^2)^(q+1)*Simp[c*d^2+a*e^2*(2*(q+1)+1)+2*c*d*e*(q+1)*x^2,x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  c*x^(2+1)*(d+e*x^2)^(q+1)/(e*(2*(q+2)+1)) + 
+  1/(e*(2*(q+2)+1))*Int[(d+e*x^2)^q*(a*e*(2*(q+2)+1)-(3*c*d-b*e*(2*(q+2)+1))*x^2),x] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4),x_Symbol] :=
+  c*x^(2+1)*(d+e*x^2)^(q+1)/(e*(2*(q+2)+1)) + 
+  1/(e*(2*(q+2)+1))*Int[(d+e*x^2)^q*(a*e*(2*(q+2)+1)-3*c*d*x^2),x] /;
+FreeQ[{a,c,d,e,q},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[2*d/e-b/c,2]},
+  e/(2*c)*Int[1/Simp[d/e+q*x+x^2,x],x] + e/(2*c)*Int[1/Simp[d/e-q*x+x^2,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && 
+  (PositiveQ[2*d/e-b/c] || Not[NegativeQ[2*d/e-b/c]] && EqQ[d-e*Rt[a/c,2]])
+
+
+Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[2*d/e,2]},
+  e/(2*c)*Int[1/Simp[d/e+q*x+x^2,x],x] + e/(2*c)*Int[1/Simp[d/e-q*x+x^2,x],x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2-a*e^2] && PosQ[d*e]
+
+
+Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^2),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-2*d/e-b/c,2]},
+  e/(2*c*q)*Int[(q-2*x)/Simp[d/e+q*x-x^2,x],x] + 
+  e/(2*c*q)*Int[(q+2*x)/Simp[d/e-q*x-x^2,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && Not[PositiveQ[b^2-4*a*c]]
+
+
+Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-2*d/e,2]},
+  e/(2*c*q)*Int[(q-2*x)/Simp[d/e+q*x-x^2,x],x] + 
+  e/(2*c*q)*Int[(q+2*x)/Simp[d/e-q*x-x^2,x],x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[c*d^2-a*e^2] && NegQ[d*e]
+
+
+Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^2),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-a*e^2] && PosQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (e/2+c*d/(2*q))*Int[1/(-q+c*x^2),x] + (e/2-c*d/(2*q))*Int[1/(q+c*x^2),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2-a*e^2] && PosQ[-a*c]
+
+
+Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[a*c,2]},
+  (d*q+a*e)/(2*a*c)*Int[(q+c*x^2)/(a+c*x^4),x] +
+  (d*q-a*e)/(2*a*c)*Int[(q-c*x^2)/(a+c*x^4),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NeQ[c*d^2-a*e^2] && NegQ[-a*c]
+
+
+Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*q*r)*Int[(d*r-(d-e*q)*x)/(q-r*x+x^2),x] + 
+  1/(2*c*q*r)*Int[(d*r+(d-e*q)*x)/(q+r*x+x^2),x]]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q/(a+c*x^4),x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  e^2/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^2)^q,x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^2)^(q+1)*(c*d-b*e-c*e*x^2)/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  e^2/(c*d^2+a*e^2)*Int[(d+e*x^2)^q,x] + 
+  c/(c*d^2+a*e^2)*Int[(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  2*c/r*Int[(d+e*x^2)^q/(b-r+2*c*x^2),x] - 2*c/r*Int[(d+e*x^2)^q/(b+r+2*c*x^2),x]] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]]
+
+
+Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  With[{r=Rt[-a*c,2]},
+  -c/(2*r)*Int[(d+e*x^2)^q/(r-c*x^2),x] - c/(2*r)*Int[(d+e*x^2)^q/(r+c*x^2),x]] /;
+FreeQ[{a,c,d,e,q},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]]
+
+
+Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  x*(2*b*e*p+c*d*(4*p+3)+c*e*(4*p+1)*x^2)*(a+b*x^2+c*x^4)^p/(c*(4*p+1)*(4*p+3)) + 
+  2*p/(c*(4*p+1)*(4*p+3))*Int[Simp[2*a*c*d*(4*p+3)-a*b*e+(2*a*c*e*(4*p+1)+b*c*d*(4*p+3)-b^2*e*(2*p+1))*x^2,x]*
+    (a+b*x^2+c*x^4)^(p-1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && FractionQ[p] && p>0 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  x*(d*(4*p+3)+e*(4*p+1)*x^2)*(a+c*x^4)^p/((4*p+1)*(4*p+3)) + 
+  2*p/((4*p+1)*(4*p+3))*Int[Simp[2*a*d*(4*p+3)+(2*a*e*(4*p+1))*x^2,x]*(a+c*x^4)^(p-1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && FractionQ[p] && p>0 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  -x*(d*b^2-a*b*e-2*a*c*d+(b*d-2*a*e)*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[Simp[(2*p+3)*d*b^2-a*b*e-2*a*c*d*(4*p+5)+(4*p+7)*(d*b-2*a*e)*c*x^2,x]*
+    (a+b*x^2+c*x^4)^(p+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  -x*(d+e*x^2)*(a+c*x^4)^(p+1)/(4*a*(p+1)) + 
+  1/(4*a*(p+1))*Int[Simp[d*(4*p+5)+e*(4*p+7)*x^2,x]*(a+c*x^4)^(p+1),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*Sqrt[-c]*Int[(d+e*x^2)/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  Sqrt[-c]*Int[(d+e*x^2)/(Sqrt[q+c*x^2]*Sqrt[q-c*x^2]),x]] /;
+FreeQ[{a,c,d,e},x] && PositiveQ[a] && NegativeQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  -d*x*Sqrt[a+b*x^2+c*x^4]/(a*(1+q^2*x^2)) + 
+  d*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+b*x^2+c*x^4])*EllipticE[2*ArcTan[q*x],1/2-b*q^2/(4*c)] /;
+ EqQ[e+d*q^2]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,2]},
+  (e+d*q)/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NeQ[e+d*q]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  e*x*(b+q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
+  e*q*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*c*Sqrt[a+b*x^2+c*x^4]*Sqrt[a/(2*a+(b+q)*x^2)])*
+    EllipticE[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)] /;
+ EqQ[2*c*d-e*(b-q)]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  e*x*(q+c*x^2)/(c*Sqrt[a+c*x^4]) - 
+  Sqrt[2]*e*q*Sqrt[-a+q*x^2]*Sqrt[(a+q*x^2)/q]/(Sqrt[-a]*c*Sqrt[a+c*x^4])*
+    EllipticE[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
+ EqQ[c*d+e*q] && IntegerQ[q]] /;
+FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  e*x*(q+c*x^2)/(c*Sqrt[a+c*x^4]) - 
+  Sqrt[2]*e*q*Sqrt[(a-q*x^2)/(a+q*x^2)]*Sqrt[(a+q*x^2)/q]/(c*Sqrt[a+c*x^4]*Sqrt[a/(a+q*x^2)])*
+    EllipticE[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
+ EqQ[c*d+e*q]] /;
+FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*d-e*(b-q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NeQ[2*c*d-e*(b-q)]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (c*d+e*q)/c*Int[1/Sqrt[a+c*x^4],x] - e/c*Int[(q-c*x^2)/Sqrt[a+c*x^4],x] /;
+ NeQ[c*d+e*q]] /;
+FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  d*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e*Int[x^2/Sqrt[a+b*x^2+c*x^4],x] /;
+ PosQ[(b+q)/a] || PosQ[(b-q)/a]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  d*Int[1/Sqrt[a+c*x^4],x] + e*Int[x^2/Sqrt[a+c*x^4],x] /;
+FreeQ[{a,c,d,e},x] && PositiveQ[-a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -a*e*Rt[-(b+q)/(2*a),2]*Sqrt[1+(b+q)*x^2/(2*a)]*Sqrt[1+(b-q)*x^2/(2*a)]/(c*Sqrt[a+b*x^2+c*x^4])*
+    EllipticE[ArcSin[Rt[-(b+q)/(2*a),2]*x],(b-q)/(b+q)] /;
+ NegQ[(b+q)/a] && EqQ[2*c*d-e*(b+q)] && Not[SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*d-e*(b+q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b+q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NegQ[(b+q)/a] && NeQ[2*c*d-e*(b+q)] && Not[SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  -a*e*Rt[-(b-q)/(2*a),2]*Sqrt[1+(b-q)*x^2/(2*a)]*Sqrt[1+(b+q)*x^2/(2*a)]/(c*Sqrt[a+b*x^2+c*x^4])*
+    EllipticE[ArcSin[Rt[-(b-q)/(2*a),2]*x],(b+q)/(b-q)] /;
+ NegQ[(b-q)/a] && EqQ[2*c*d-e*(b-q)]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*d-e*(b-q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NegQ[(b-q)/a] && NeQ[2*c*d-e*(b-q)]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  -d*x*Sqrt[a+b*x^2+c*x^4]/(a*(1+q^2*x^2)) + 
+  d*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+b*x^2+c*x^4])*EllipticE[2*ArcTan[q*x],1/2-b*q^2/(4*c)] /;
+ EqQ[e+d*q^2]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  -d*x*Sqrt[a+c*x^4]/(a*(1+q^2*x^2)) + 
+  d*(1+q^2*x^2)*Sqrt[(a+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+c*x^4])*EllipticE[2*ArcTan[q*x],1/2] /;
+ EqQ[e+d*q^2]] /;
+FreeQ[{a,c,d,e},x] && PosQ[c/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,2]},
+  (e+d*q)/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+ NeQ[e+d*q]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[c/a,2]},
+  (e+d*q)/q*Int[1/Sqrt[a+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+c*x^4],x] /;
+ NeQ[e+d*q]] /;
+FreeQ[{a,c,d,e},x] && PosQ[c/a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  d/Sqrt[a]*Int[Sqrt[1+e*x^2/d]/Sqrt[1-e*x^2/d],x] /;
+FreeQ[{a,c,d,e},x] && NegQ[c/a] && EqQ[c*d^2+a*e^2] && PositiveQ[a]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  Sqrt[1+c*x^4/a]/Sqrt[a+c*x^4]*Int[(d+e*x^2)/Sqrt[1+c*x^4/a],x] /;
+FreeQ[{a,c,d,e},x] && NegQ[c/a] && EqQ[c*d^2+a*e^2] && Not[PositiveQ[a]]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[-c/a,2]},
+  (d*q-e)/q*Int[1/Sqrt[a+c*x^4],x] + e/q*Int[(1+q*x^2)/Sqrt[a+c*x^4],x]] /;
+FreeQ[{a,c,d,e},x] && NegQ[c/a] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
+    Int[(d+e*x^2)/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
+
+
+Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)*(a+c*x^4)^p,x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+(* Int[(d_+e_.*x_^2)^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  e^2*x*Sqrt[a+b*x^2+c*x^4]/(3*c) + 
+  2*(3*c*d-b*e)/(3*c)*Int[(d+e*x^2)/Sqrt[a+b*x^2+c*x^4],x] - 
+  (3*c*d^2-2*b*d*e+a*e^2)/(3*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] *)
+
+
+(* Int[(d_+e_.*x_^2)^2/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  e^2*x*Sqrt[a+c*x^4]/(3*c) + 
+  2*d*Int[(d+e*x^2)/Sqrt[a+c*x^4],x] - 
+  (3*c*d^2+a*e^2)/(3*c)*Int[1/Sqrt[a+c*x^4],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] *)
+
+
+(* Int[(d_+e_.*x_^2)^q_/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  e^2*x*(d+e*x^2)^(q-2)*Sqrt[a+b*x^2+c*x^4]/(c*(2*q-1)) + 
+  2*(q-1)*(3*c*d-b*e)/(c*(2*q-1))*Int[(d+e*x^2)^(q-1)/Sqrt[a+b*x^2+c*x^4],x] - 
+  (2*q-3)*(3*c*d^2-2*b*d*e+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-2)/Sqrt[a+b*x^2+c*x^4],x] + 
+  2*d*(q-2)*(c*d^2-b*d*e+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-3)/Sqrt[a+b*x^2+c*x^4],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[q-2] *)
+
+
+(* Int[(d_+e_.*x_^2)^q_/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  e^2*x*(d+e*x^2)^(q-2)*Sqrt[a+c*x^4]/(c*(2*q-1)) + 
+  6*d*(q-1)/(2*q-1)*Int[(d+e*x^2)^(q-1)/Sqrt[a+c*x^4],x] - 
+  (2*q-3)*(3*c*d^2+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-2)/Sqrt[a+c*x^4],x] + 
+  2*d*(q-2)*(c*d^2+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-3)/Sqrt[a+c*x^4],x] /;
+FreeQ[{a,c,d,e},x] && PositiveIntegerQ[q-2] *)
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{f=Coeff[PolynomialRemainder[(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
+        g=Coeff[PolynomialRemainder[(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
+    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
+      b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g+c*(4*p+7)*(b*f-2*a*g)*x^2,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q-1] && 
+  RationalQ[p] && p<-1
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  e^q*x^(2*q-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(4*p+2*q+1)) + 
+  1/(c*(4*p+2*q+1))*Int[(a+b*x^2+c*x^4)^p*
+    ExpandToSum[c*(4*p+2*q+1)*(d+e*x^2)^q-a*(2*q-3)*e^q*x^(2*q-4)-b*(2*p+2*q-1)*e^q*x^(2*q-2)-c*(4*p+2*q+1)*e^q*x^(2*q),x],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q-1]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  e^q*x^(2*q-3)*(a+c*x^4)^(p+1)/(c*(4*p+2*q+1)) + 
+  1/(c*(4*p+2*q+1))*Int[(a+c*x^4)^p*
+    ExpandToSum[c*(4*p+2*q+1)*(d+e*x^2)^q-a*(2*q-3)*e^q*x^(2*q-4)-c*(4*p+2*q+1)*e^q*x^(2*q),x],x] /;
+FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[q-1]
+
+
+Int[(a_+b_.*x_^2+c_.*x_^4)^p_/(d_+e_.*x_^2),x_Symbol] :=
+  -x*(b^2*c*d-b^3*e-2*a*c^2*d+3*a*b*c*e+c*(b*c*d-b^2*e+2*a*c*e)*x^2)*(a+b*x^2+c*x^4)^(p+1)/
+    (2*a*(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) - 
+  1/(2*a*(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[((a+b*x^2+c*x^4)^(p+1)/(d+e*x^2))*
+    Simp[b^3*d*e*(3+2*p)-a*b*c*d*e*(11+8*p)-b^2*(2*a*e^2*(p+1)+c*d^2*(3+2*p))+
+      2*a*c*(4*a*e^2*(p+1)+c*d^2*(5+4*p))-
+      (4*a*c^2*d*e-2*b^2*c*d*e*(2+p)-b^3*e^2*(3+2*p)+b*c*(c*d^2*(7+4*p)+a*e^2*(11+8*p)))*x^2-
+      c*e*(b*c*d-b^2*e+2*a*c*e)*(7+4*p)*x^4,x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[p+1/2]
+
+
+Int[(a_+c_.*x_^4)^p_/(d_+e_.*x_^2),x_Symbol] :=
+  -x*(-2*a*c^2*d+c*(2*a*c*e)*x^2)*(a+c*x^4)^(p+1)/(2*a*(p+1)*(-4*a*c)*(c*d^2+a*e^2)) - 
+  1/(2*a*(p+1)*(-4*a*c)*(c*d^2+a*e^2))*Int[((a+c*x^4)^(p+1)/(d+e*x^2))*
+    Simp[2*a*c*(4*a*e^2*(p+1)+c*d^2*(5+4*p))-(4*a*c^2*d*e)*x^2-c*e*(2*a*c*e)*(7+4*p)*x^4,x],x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[p+1/2]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^2),x_Symbol] :=
+  -1/e^2*Int[(c*d-b*e-c*e*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
+  (c*d^2-b*d*e+a*e^2)/e^2*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[Sqrt[a_+c_.*x_^4]/(d_+e_.*x_^2),x_Symbol] :=
+  -c/e^2*Int[(d-e*x^2)/Sqrt[a+c*x^4],x] + 
+  (c*d^2+a*e^2)/e^2*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*Sqrt[-c]*Int[1/((d+e*x^2)*Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  Sqrt[-c]*Int[1/((d+e*x^2)*Sqrt[q+c*x^2]*Sqrt[q-c*x^2]),x]] /;
+FreeQ[{a,c,d,e},x] && PositiveQ[a] && NegativeQ[c]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/(2*c*d-e*(b-q))*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/(2*c*d-e*(b-q))*Int[(b-q+2*c*x^2)/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && Not[NegativeQ[c]]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  c/(c*d+e*q)*Int[1/Sqrt[a+c*x^4],x] + e/(c*d+e*q)*Int[(q-c*x^2)/((d+e*x^2)*Sqrt[a+c*x^4]),x]] /;
+FreeQ[{a,c,d,e},x] && PositiveQ[-a*c] && Not[NegativeQ[c]]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  ArcTan[Sqrt[(c*d^2-b*d*e+a*e^2)/(d*e)]*x/Sqrt[a+b*x^2+c*x^4]]/(2*d*Sqrt[(c*d^2-b*d*e+a*e^2)/(d*e)]) + 
+  (e+d*q^2)*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(4*d*q*(e-d*q^2)*Sqrt[a+b*x^2+c*x^4])*
+    EllipticPi[-(e-d*q^2)^2/(4*d*e*q^2),2*ArcTan[q*x],1/2-b*q^2/(4*c)] - 
+  q^2/(e-d*q^2)*Int[1/Sqrt[a+b*x^2+c*x^4],x] /;
+ NeQ[e-d*q^2]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PosQ[c/a]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[c/a,4]},
+  ArcTan[Sqrt[(c*d^2+a*e^2)/(d*e)]*x/Sqrt[a+c*x^4]]/(2*d*Sqrt[(c*d^2+a*e^2)/(d*e)]) + 
+  (e+d*q^2)*(1+q^2*x^2)*Sqrt[(a+c*x^4)/(a*(1+q^2*x^2)^2)]/(4*d*q*(e-d*q^2)*Sqrt[a+c*x^4])*
+    EllipticPi[-(e-d*q^2)^2/(4*d*e*q^2),2*ArcTan[q*x],1/2] - 
+  q^2/(e-d*q^2)*Int[1/Sqrt[a+c*x^4],x] /;
+ NeQ[e-d*q^2]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PosQ[c/a]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[-c/a,4]},
+  1/(d*Sqrt[a]*q)*EllipticPi[-e/(d*q^2),ArcSin[q*x],-1]] /;
+FreeQ[{a,c,d,e},x] && NegQ[c/a] && PositiveQ[a]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  Sqrt[1+c*x^4/a]/Sqrt[a+c*x^4]*Int[1/((d+e*x^2)*Sqrt[1+c*x^4/a]),x] /;
+FreeQ[{a,c,d,e},x] && NegQ[c/a] && Not[PositiveQ[a]]
+
+
+Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
+    Int[1/((d+e*x^2)*Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*Sqrt[a+b*x^2+c*x^4]/(2*d*(d+e*x^2)) + 
+  c/(2*d*e^2)*Int[(d-e*x^2)/Sqrt[a+b*x^2+c*x^4],x] - 
+  (c*d^2-a*e^2)/(2*d*e^2)*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[Sqrt[a_+c_.*x_^4]/(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*Sqrt[a+c*x^4]/(2*d*(d+e*x^2)) + 
+  c/(2*d*e^2)*Int[(d-e*x^2)/Sqrt[a+c*x^4],x] - 
+  (c*d^2-a*e^2)/(2*d*e^2)*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[1/((d_+e_.*x_^2)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  e^2*x*Sqrt[a+b*x^2+c*x^4]/(2*d*(c*d^2-b*d*e+a*e^2)*(d+e*x^2)) - 
+  c/(2*d*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
+  (3*c*d^2-2*b*d*e+a*e^2)/(2*d*(c*d^2-b*d*e+a*e^2))*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[1/((d_+e_.*x_^2)^2*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  e^2*x*Sqrt[a+c*x^4]/(2*d*(c*d^2+a*e^2)*(d+e*x^2)) - 
+  c/(2*d*(c*d^2+a*e^2))*Int[(d+e*x^2)/Sqrt[a+c*x^4],x] + 
+  (3*c*d^2+a*e^2)/(2*d*(c*d^2+a*e^2))*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Module[{aa,bb,cc},
+  Int[ReplaceAll[ExpandIntegrand[1/Sqrt[aa+bb*x^2+cc*x^4],(d+e*x^2)^q*(aa+bb*x^2+cc*x^4)^(p+1/2),x],{aa->a,bb->b,cc->c}],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[q] && IntegerQ[p+1/2] && p!=-1/2
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  Module[{aa,cc},
+  Int[ReplaceAll[ExpandIntegrand[1/Sqrt[aa+cc*x^4],(d+e*x^2)^q*(aa+cc*x^4)^(p+1/2),x],{aa->a,cc->c}],x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && IntegerQ[p+1/2] && p!=-1/2
+
+
+Int[(d_+e_.*x_^2)^q_/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
+  -e^2*x*(d+e*x^2)^(q+1)*Sqrt[a+b*x^2+c*x^4]/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2)) + 
+  (2*q+3)*(3*c*d^2-2*b*d*e+a*e^2)/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+1)/Sqrt[a+b*x^2+c*x^4],x] - 
+  (q+2)*(3*c*d-b*e)/(d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+2)/Sqrt[a+b*x^2+c*x^4],x] + 
+  c*(2*q+5)/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+3)/Sqrt[a+b*x^2+c*x^4],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[q+2]
+
+
+Int[(d_+e_.*x_^2)^q_/Sqrt[a_+c_.*x_^4],x_Symbol] :=
+  -e^2*x*(d+e*x^2)^(q+1)*Sqrt[a+c*x^4]/(2*d*(q+1)*(c*d^2+a*e^2)) + 
+  (2*q+3)*(3*c*d^2+a*e^2)/(2*d*(q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+1)/Sqrt[a+c*x^4],x] - 
+  3*c*(q+2)/((q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+2)/Sqrt[a+c*x^4],x] + 
+  c*(2*q+5)/(2*d*(q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+3)/Sqrt[a+c*x^4],x] /;
+FreeQ[{a,c,d,e},x] && NegativeIntegerQ[q+2]
+
+
+Int[1/(Sqrt[d_+e_.*x_^2]*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  1/(2*Sqrt[a]*Sqrt[d]*Rt[-e/d,2])*EllipticF[2*ArcSin[Rt[-e/d,2]*x],b*d/(4*a*e)] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && PositiveQ[a] && PositiveQ[d]
+
+
+Int[1/(Sqrt[d_+e_.*x_^2]*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  Sqrt[(d+e*x^2)/d]*Sqrt[(a+b*x^2+c*x^4)/a]/(Sqrt[d+e*x^2]*Sqrt[a+b*x^2+c*x^4])*
+    Int[1/(Sqrt[1+e/d*x^2]*Sqrt[1+b/a*x^2+c/a*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && Not[PositiveQ[a] && PositiveQ[d]]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[a]/(2*Sqrt[d]*Rt[-e/d,2])*EllipticE[2*ArcSin[Rt[-e/d,2]*x],b*d/(4*a*e)] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && PositiveQ[a] && PositiveQ[d]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2+c*x^4]*Sqrt[(d+e*x^2)/d]/(Sqrt[d+e*x^2]*Sqrt[(a+b*x^2+c*x^4)/a])*
+    Int[Sqrt[1+b/a*x^2+c/a*x^4]/Sqrt[1+e/d*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && Not[PositiveQ[a] && PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  c^p*x^(4*p-1)*(d+e*x^2)^(q+1)/(e*(4*p+2*q+1)) + 
+  Int[(d+e*x^2)^q*ExpandToSum[(a+b*x^2+c*x^4)^p-c^p*x^(4*p)-d*c^p*(4*p-1)*x^(4*p-2)/(e*(4*p+2*q+1)),x],x] /;
+FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p] && 
+  NeQ[4*p+2*q+1] && Not[PositiveIntegerQ[q]]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  c^p*x^(4*p-1)*(d+e*x^2)^(q+1)/(e*(4*p+2*q+1)) + 
+  Int[(d+e*x^2)^q*ExpandToSum[(a+c*x^4)^p-c^p*x^(4*p)-d*c^p*(4*p-1)*x^(4*p-2)/(e*(4*p+2*q+1)),x],x] /;
+FreeQ[{a,c,d,e,q},x] && PositiveIntegerQ[p] && 
+  NeQ[4*p+2*q+1] && Not[PositiveIntegerQ[q]]
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b^2-4*a*c] && (IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q])
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
+FreeQ[{a,c,d,e,p,q},x] && (IntegersQ[p,q] || PositiveIntegerQ[p])
+
+
+Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+c*x^4)^p,(d/(d^2-e^2*x^4)-e*x^2/(d^2-e^2*x^4))^(-q),x],x] /;
+FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && Not[IntegersQ[2*p]]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,e,p,q},x]
+
+
+Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^q*(a+c*x^4)^p,x] /;
+FreeQ[{a,c,d,e,p,q},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.4 (f x)^m (d+e x^2)^q (a+b x^2+c x^4)^p*)
+
+
+Int[x_^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  1/(2*e^((m+1)/2-1))*Subst[Int[(e*x)^(q+(m+1)/2-1)*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,e,p,q},x] && IntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  1/(2*e^((m+1)/2-1))*Subst[Int[(e*x)^(q+(m+1)/2-1)*(a+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,c,e,p,q},x] && IntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  f^m*e^IntPart[q]*(e*x^2)^FracPart[q]/x^(2*FracPart[q])*Int[x^(m+2*q)*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,e,f,m,p,q},x] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[(m+1)/2]]
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  f^m*e^IntPart[q]*(e*x^2)^FracPart[q]/x^(2*FracPart[q])*Int[x^(m+2*q)*(a+c*x^4)^p,x] /;
+FreeQ[{a,c,e,f,m,p,q},x] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[(m+1)/2]]
+
+
+Int[(f_*x_)^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,e,f,m,p,q},x] && Not[IntegerQ[m]]
+
+
+Int[(f_*x_)^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^2)^q*(a+c*x^4)^p,x] /;
+FreeQ[{a,c,e,f,m,p,q},x] && Not[IntegerQ[m]]
+
+
+Int[x_*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,d,e,p,q},x]
+
+
+Int[x_*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[(d+e*x)^q*(a+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,c,d,e,p,q},x]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[b^2-4*a*c,0] && Not[IntegerQ[p]] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^FracPart[p]/(c^IntPart[p]*(b/2+c*x^2)^(2*FracPart[p]))*
+    Int[(f*x)^m*(d+e*x^2)^q*(b/2+c*x^2)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[b^2-4*a*c,0] && Not[IntegerQ[p]]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,d,e,m,p,q},x] && IntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,c,d,e,m,p,q},x] && IntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,q,m,q},x] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*
+    Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  (a+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
+  1/(2*e^(2*p+m/2)*(q+1))*Int[(d+e*x^2)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^2)*(2*e^(2*p+m/2)*(q+1)*x^m*(a+b*x^2+c*x^4)^p-
+      (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*(d+e*(2*q+3)*x^2))],x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m>0
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  (-d)^(m/2-1)*(c*d^2+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
+  1/(2*e^(2*p+m/2)*(q+1))*Int[(d+e*x^2)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^2)*(2*e^(2*p+m/2)*(q+1)*x^m*(a+c*x^4)^p-
+      (-d)^(m/2-1)*(c*d^2+a*e^2)^p*(d+e*(2*q+3)*x^2))],x],x] /;
+FreeQ[{a,c,d,e},x] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m>0
+
+
+Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
+  (-d)^(m/2-1)/(2*e^(2*p)*(q+1))*Int[x^m*(d+e*x^2)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^2)*(2*(-d)^(-m/2+1)*e^(2*p)*(q+1)*(a+b*x^2+c*x^4)^p - 
+      (e^(-m/2)*(c*d^2-b*d*e+a*e^2)^p*x^(-m))*(d+e*(2*q+3)*x^2))],x],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m<0
+
+
+Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  (-d)^(m/2-1)*(c*d^2+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
+  (-d)^(m/2-1)/(2*e^(2*p)*(q+1))*Int[x^m*(d+e*x^2)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^2)*(2*(-d)^(-m/2+1)*e^(2*p)*(q+1)*(a+c*x^4)^p - 
+      (e^(-m/2)*(c*d^2+a*e^2)^p*x^(-m))*(d+e*(2*q+3)*x^2))],x],x] /;
+FreeQ[{a,c,d,e},x] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m<0
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  c^p*(f*x)^(m+4*p-1)*(d+e*x^2)^(q+1)/(e*f^(4*p-1)*(m+4*p+2*q+1)) + 
+  1/(e*(m+4*p+2*q+1))*Int[(f*x)^m*(d+e*x^2)^q*
+    ExpandToSum[e*(m+4*p+2*q+1)*((a+b*x^2+c*x^4)^p-c^p*x^(4*p))-d*c^p*(m+4*p-1)*x^(4*p-2),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && Not[IntegerQ[q]] && NeQ[m+4*p+2*q+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  c^p*(f*x)^(m+4*p-1)*(d+e*x^2)^(q+1)/(e*f^(4*p-1)*(m+4*p+2*q+1)) + 
+  1/(e*(m+4*p+2*q+1))*Int[(f*x)^m*(d+e*x^2)^q*
+    ExpandToSum[e*(m+4*p+2*q+1)*((a+c*x^4)^p-c^p*x^(4*p))-d*c^p*(m+4*p-1)*x^(4*p-2),x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && PositiveIntegerQ[p] && Not[IntegerQ[q]] && NeQ[m+4*p+2*q+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(2*k)/f^2)^q*(a+b*x^(2*k)/f^k+c*x^(4*k)/f^4)^p,x],x,(f*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c,0] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(2*k)/f)^q*(a+c*x^(4*k)/f)^p,x],x,(f*x)^(1/k)]] /;
+FreeQ[{a,c,d,e,f,p,q},x] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+b*x^2+c*x^4)^p*(d*(m+4*p+3)+e*(m+1)*x^2)/(f*(m+1)*(m+4*p+3)) + 
+  2*p/(f^2*(m+1)*(m+4*p+3))*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^(p-1)*
+    Simp[2*a*e*(m+1)-b*d*(m+4*p+3)+(b*e*(m+1)-2*c*d*(m+4*p+3))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<-1 && 
+  m+4*p+3!=0 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+c*x^4)^p*(d*(m+4*p+3)+e*(m+1)*x^2)/(f*(m+1)*(m+4*p+3)) + 
+  4*p/(f^2*(m+1)*(m+4*p+3))*Int[(f*x)^(m+2)*(a+c*x^4)^(p-1)*(a*e*(m+1)-c*d*(m+4*p+3)*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<-1 && 
+  m+4*p+3!=0 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+b*x^2+c*x^4)^p*(b*e*2*p+c*d*(m+4*p+3)+c*e*(4*p+m+1)*x^2)/
+    (c*f*(4*p+m+1)*(m+4*p+3)) + 
+  2*p/(c*(4*p+m+1)*(m+4*p+3))*Int[(f*x)^m*(a+b*x^2+c*x^4)^(p-1)*
+    Simp[2*a*c*d*(m+4*p+3)-a*b*e*(m+1)+(2*a*c*e*(4*p+m+1)+b*c*d*(m+4*p+3)-b^2*e*(m+2*p+1))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && p>0 && 
+  NeQ[4*p+m+1] && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+c*x^4)^p*(c*d*(m+4*p+3)+c*e*(4*p+m+1)*x^2)/(c*f*(4*p+m+1)*(m+4*p+3)) + 
+  4*a*p/((4*p+m+1)*(m+4*p+3))*Int[(f*x)^m*(a+c*x^4)^(p-1)*Simp[d*(m+4*p+3)+e*(4*p+m+1)*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && RationalQ[p] && p>0 && 
+  NeQ[4*p+m+1] && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(a+b*x^2+c*x^4)^(p+1)*(b*d-2*a*e-(b*e-2*c*d)*x^2)/(2*(p+1)*(b^2-4*a*c)) - 
+  f^2/(2*(p+1)*(b^2-4*a*c))*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^(p+1)*
+    Simp[(m-1)*(b*d-2*a*e)-(4*p+4+m+1)*(b*e-2*c*d)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(a+c*x^4)^(p+1)*(a*e-c*d*x^2)/(4*a*c*(p+1)) - 
+  f^2/(4*a*c*(p+1))*Int[(f*x)^(m-2)*(a+c*x^4)^(p+1)*(a*e*(m-1)-c*d*(4*p+4+m+1)*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^2)/(2*a*f*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^2+c*x^4)^(p+1)*
+    Simp[d*(b^2*(m+2*(p+1)+1)-2*a*c*(m+4*(p+1)+1))-a*b*e*(m+1)+c*(m+2*(2*p+3)+1)*(b*d-2*a*e)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+c*x^4)^(p+1)*(d+e*x^2)/(4*a*f*(p+1)) + 
+  1/(4*a*(p+1))*Int[(f*x)^m*(a+c*x^4)^(p+1)*Simp[d*(m+4*(p+1)+1)+e*(m+2*(2*p+3)+1)*x^2,x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  e*f*(f*x)^(m-1)*(a+b*x^2+c*x^4)^(p+1)/(c*(m+4*p+3)) - 
+  f^2/(c*(m+4*p+3))*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^p*Simp[a*e*(m-1)+(b*e*(m+2*p+1)-c*d*(m+4*p+3))*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && NeQ[b^2-4*a*c,0] && RationalQ[m] && m>1 && 
+  NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  e*f*(f*x)^(m-1)*(a+c*x^4)^(p+1)/(c*(m+4*p+3)) - 
+  f^2/(c*(m+4*p+3))*Int[(f*x)^(m-2)*(a+c*x^4)^p*(a*e*(m-1)-c*d*(m+4*p+3)*x^2),x] /;
+FreeQ[{a,c,d,e,f,p},x] && RationalQ[m] && m>1 && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  d*(f*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*f*(m+1)) + 
+  1/(a*f^2*(m+1))*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^p*Simp[a*e*(m+1)-b*d*(m+2*p+3)-c*d*(m+4*p+5)*x^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && NeQ[b^2-4*a*c,0] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  d*(f*x)^(m+1)*(a+c*x^4)^(p+1)/(a*f*(m+1)) + 
+  1/(a*f^2*(m+1))*Int[(f*x)^(m+2)*(a+c*x^4)^p*(a*e*(m+1)-c*d*(m+4*p+5)*x^2),x] /;
+FreeQ[{a,c,d,e,f,p},x] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4), x_Symbol] :=
+  With[{r=Rt[c/e*(2*c*d-b*e),2]},
+  e/2*Int[(f*x)^m/(c*d/e-r*x+c*x^2),x] + 
+  e/2*Int[(f*x)^m/(c*d/e+r*x+c*x^2),x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-a*e^2] && PositiveQ[d/e] && PosQ[c/e*(2*c*d-b*e)]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+c_.*x_^4), x_Symbol] :=
+  With[{r=Rt[2*c^2*d/e,2]},
+  e/2*Int[(f*x)^m/(c*d/e-r*x+c*x^2),x] + 
+  e/2*Int[(f*x)^m/(c*d/e+r*x+c*x^2),x]] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[c*d^2-a*e^2] && PositiveQ[d/e]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2+q/2+c*x^2),x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  -(e/2+c*d/(2*q))*Int[(f*x)^m/(q-c*x^2),x] + (e/2-c*d/(2*q))*Int[(f*x)^m/(q+c*x^2),x]] /;
+FreeQ[{a,c,d,e,f,m},x]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && IntegerQ[q] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q/(a+c*x^4),x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && IntegerQ[q] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m,(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && IntegerQ[q] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m,(d+e*x^2)^q/(a+c*x^4),x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && IntegerQ[q] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  f^4/c^2*Int[(f*x)^(m-4)*(c*d-b*e+c*e*x^2)*(d+e*x^2)^(q-1),x] - 
+  f^4/c^2*Int[(f*x)^(m-4)*(d+e*x^2)^(q-1)*Simp[a*(c*d-b*e)+(b*c*d-b^2*e+a*c*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m>3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  f^4/c*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
+  a*f^4/c*Int[(f*x)^(m-4)*(d+e*x^2)^q/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f,q},x] && Not[IntegerQ[q]] && RationalQ[m] && m>3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  e*f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1),x] - 
+  f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1)*Simp[a*e-(c*d-b*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && 1<m<=3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  e*f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1),x] - 
+  f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1)*Simp[a*e-c*d*x^2,x]/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && 1<m<=3
+
+
+Int[(f_.*x_)^m_*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  d/a*Int[(f*x)^m*(d+e*x^2)^(q-1),x] - 
+  1/(a*f^2)*Int[(f*x)^(m+2)*(d+e*x^2)^(q-1)*Simp[b*d-a*e+c*d*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
+
+
+Int[(f_.*x_)^m_*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  d/a*Int[(f*x)^m*(d+e*x^2)^(q-1),x] + 
+  1/(a*f^2)*Int[(f*x)^(m+2)*(d+e*x^2)^(q-1)*Simp[a*e-c*d*x^2,x]/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  d^2*f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
+  f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^(q+1)*Simp[a*d+(b*d-a*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  d^2*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
+  a*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  -d*e*f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^q,x] + 
+  f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^(q+1)*Simp[a*e+c*d*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && 1<m<=3
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  -d*e*f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^q,x] + 
+  f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^(q+1)*Simp[a*e+c*d*x^2,x]/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && 1<m<=3
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  e^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^2)^q,x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^2)^(q+1)*Simp[c*d-b*e-c*e*x^2,x]/(a+b*x^2+c*x^4),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  e^2/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^2)^q,x] + 
+  c/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
+FreeQ[{a,c,d,e,f,m},x] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q,(f*x)^m/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^q,(f*x)^m/(a+c*x^4),x],x] /;
+FreeQ[{a,c,d,e,f,q},x] && Not[IntegerQ[q]] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q,1/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q,1/(a+c*x^4),x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  2*c/r*Int[(f*x)^m*(d+e*x^2)^q/(b-r+2*c*x^2),x] - 2*c/r*Int[(f*x)^m*(d+e*x^2)^q/(b+r+2*c*x^2),x]] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
+  With[{r=Rt[-a*c,2]},
+  -c/(2*r)*Int[(f*x)^m*(d+e*x^2)^q/(r-c*x^2),x] - c/(2*r)*Int[(f*x)^m*(d+e*x^2)^q/(r+c*x^2),x]] /;
+FreeQ[{a,c,d,e,f,m,q},x]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*x_^2+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
+  1/d^2*Int[(f*x)^m*(a*d+(b*d-a*e)*x^2)*(a+b*x^2+c*x^4)^(p-1),x] + 
+  (c*d^2-b*d*e+a*e^2)/(d^2*f^4)*Int[(f*x)^(m+4)*(a+b*x^2+c*x^4)^(p-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<-2
+
+
+Int[(f_.*x_)^m_*(a_+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
+  a/d^2*Int[(f*x)^m*(d-e*x^2)*(a+c*x^4)^(p-1),x] + 
+  (c*d^2+a*e^2)/(d^2*f^4)*Int[(f*x)^(m+4)*(a+c*x^4)^(p-1)/(d+e*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<-2
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*x_^2+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
+  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^2)*(a+b*x^2+c*x^4)^(p-1),x] - 
+  (c*d^2-b*d*e+a*e^2)/(d*e*f^2)*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^(p-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<0
+
+
+Int[(f_.*x_)^m_*(a_+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
+  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^2)*(a+c*x^4)^(p-1),x] - 
+  (c*d^2+a*e^2)/(d*e*f^2)*Int[(f*x)^(m+2)*(a+c*x^4)^(p-1)/(d+e*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<0
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*x_^2+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
+  -f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(a*d+(b*d-a*e)*x^2)*(a+b*x^2+c*x^4)^p,x] + 
+  d^2*f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(a+b*x^2+c*x^4)^(p+1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>2
+
+
+Int[(f_.*x_)^m_.*(a_+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
+  -a*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d-e*x^2)*(a+c*x^4)^p,x] + 
+  d^2*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(a+c*x^4)^(p+1)/(d+e*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>2
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*x_^2+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
+  f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(a*e+c*d*x^2)*(a+b*x^2+c*x^4)^p,x] - 
+  d*e*f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^(p+1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[(f_.*x_)^m_.*(a_+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
+  f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(a*e+c*d*x^2)*(a+c*x^4)^p,x] - 
+  d*e*f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(a+c*x^4)^(p+1)/(d+e*x^2),x] /;
+FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{f=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
+        g=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
+    Simp[ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
+      b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g+c*(4*p+7)*(b*f-2*a*g)*x^2,x],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IGtQ[q,1] && IGtQ[m/2,0]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{f=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
+        g=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
+    Simp[ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
+      (b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g)*x^(-m)+c*(4*p+7)*(b*f-2*a*g)*x^(2-m),x],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IGtQ[q,1] && ILtQ[m/2,0]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && NeQ[b^2-4*a*c,0] && (PositiveIntegerQ[p] || PositiveIntegerQ[q] || IntegersQ[m,q])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && (PositiveIntegerQ[p] || PositiveIntegerQ[q] || IntegersQ[m,q])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  f^m*Int[ExpandIntegrand[x^m*(a+c*x^4)^p,(d/(d^2-e^2*x^4)-e*x^2/(d^2-e^2*x^4))^(-q),x],x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && NegativeIntegerQ[q] && (IntegerQ[m] || PositiveQ[f])
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
+  (f*x)^m/x^m*Int[x^m*(d+e*x^2)^q*(a+c*x^4)^p,x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && NegativeIntegerQ[q] && Not[IntegerQ[m] || PositiveQ[f]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^q*(a+c*x^4)^p,x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.6 (d x)^m Pq(x) (a+b x^2+c x^4)^p*)
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],k},
+  Int[(d*x)^m*Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2+1}]*(a+b*x^2+c*x^4)^p,x] + 
+  1/d*Int[(d*x)^(m+1)*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2+1}]*(a+b*x^2+c*x^4)^p,x]] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  1/2*Subst[Int[x^((m-1)/2)*SubstFor[x^2,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^2] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && IntegerQ[(m-1)/2]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c,d,m},x] && PolyQ[Pq,x^2] && IGtQ[p,-2]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  1/d^2*Int[(d*x)^(m+2)*ExpandToSum[Pq/x^2,x]*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  With[{e=Coeff[Pq,x,0],f=Coeff[Pq,x,2],g=Coeff[Pq,x,4]},
+  e*(d*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*d*(m+1)) /;
+ EqQ[a*f*(m+1)-b*e*(m+2*p+3)] && EqQ[a*g*(m+1)-c*e*(m+4*p+5)] && NeQ[m+1]] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x]==4
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^2)^(2*FracPart[p]))*Int[(d*x)^m*Pq*(b+2*c*x^2)^(2*p),x] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && EqQ[b^2-4*a*c]
+
+
+Int[x_^m_*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,0],
+        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
+    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
+      b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e+c*(4*p+7)*(b*d-2*a*e)*x^2,x],x]] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
+  PositiveIntegerQ[m/2]
+
+
+Int[x_^m_*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,0],
+        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
+    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
+      (b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e)*x^(-m)+c*(4*p+7)*(b*d-2*a*e)*x^(2-m),x],x]] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
+  NegativeIntegerQ[m/2]
+
+
+(* Int[x_^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,1],
+        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,3]},
+  x^2*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
+    ExpandToSum[a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
+      (b^2*d*(p+2)-2*a*c*d*(2*p+3)-a*b*e)*x^(1-m)+2*c*(p+2)*(b*d-2*a*e)*x^(3-m),x],x]] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
+  IntegerQ[(m-1)/2] *)
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*Pq*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.2.5 Pq(x) (a+b x^2+c x^4)^p*)
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x^2+c*x^4)^p,x],x] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && IGtQ[p,0]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^2+c*x^4)^p,x] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0],0]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],k},
+  Int[Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2}]*(a+b*x^2+c*x^4)^p,x] + 
+  Int[x*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2}]*(a+b*x^2+c*x^4)^p,x]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  With[{d=Coeff[Pq,x,0],e=Coeff[Pq,x,2],f=Coeff[Pq,x,4]},
+  d*x*(a+b*x^2+c*x^4)^(p+1)/a /;
+ EqQ[a*e-b*d*(2*p+3),0] && EqQ[a*f-c*d*(4*p+5),0]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && EqQ[Expon[Pq,x],4]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
+  With[{d=Coeff[Pq,x,0],e=Coeff[Pq,x,2],f=Coeff[Pq,x,4],g=Coeff[Pq,x,6]},
+  x*(3*a*d+(a*e-b*d*(2*p+3))*x^2)*(a+b*x^2+c*x^4)^(p+1)/(3*a^2) /;
+ EqQ[3*a^2*g-c*(4*p+7)*(a*e-b*d*(2*p+3)),0] && EqQ[3*a^2*f-3*a*c*d*(4*p+5)-b*(2*p+5)*(a*e-b*d*(2*p+3)),0]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && EqQ[Expon[Pq,x],6]
+
+
+Int[Pq_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
+  Int[ExpandIntegrand[Pq/(a+b*x^2+c*x^4),x],x] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  (a+b*x^2+c*x^4)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^2)^(2*FracPart[p]))*Int[Pq*(b+2*c*x^2)^(2*p),x] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && EqQ[b^2-4*a*c,0]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{d=Coeff[PolynomialRemainder[Pq,a+b*x^2+c*x^4,x],x,0],
+        e=Coeff[PolynomialRemainder[Pq,a+b*x^2+c*x^4,x],x,2]},
+  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
+  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
+    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[Pq,a+b*x^2+c*x^4,x]+
+      b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e+c*(4*p+7)*(b*d-2*a*e)*x^2,x],x]] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c,0] && LtQ[p,-1]
+
+
+Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x^2],e=Coeff[Pq,x^2,Expon[Pq,x^2]]},
+  e*x^(2*q-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(2*q+4*p+1)) + 
+  1/(c*(2*q+4*p+1))*Int[(a+b*x^2+c*x^4)^p*
+    ExpandToSum[c*(2*q+4*p+1)*Pq-a*e*(2*q-3)*x^(2*q-4)-b*e*(2*q+2*p-1)*x^(2*q-2)-c*e*(2*q+4*p+1)*x^(2*q),x],x]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c,0] && Not[LtQ[p,-1]]
+
+
+
+`)
+
+func resourcesRubi122QuarticTrinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi122QuarticTrinomialProductsM, nil
+}
+
+func resourcesRubi122QuarticTrinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi122QuarticTrinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.2.2 Quartic trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi123GeneralTrinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.2.3 General Trinomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.3.1 (a+b x^n+c x^(2 n))^p*)
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(2*n*p)*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[n2,2*n] && LtQ[n,0] && IntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*x^(k*n)+c*x^(2*k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && FractionQ[n]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && ILtQ[n,0]
+
+
+Int[(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^p/(b+2*c*x^n)^(2*p)*Int[(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && IGtQ[p,0]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  x*(a+b*x^n+c*x^(2*n))^p/(2*n*p+1) + 
+  n*p/(2*n*p+1)*Int[(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && GtQ[p,0] && NeQ[2*n*p+1,0] && IntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -x*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) +
+  1/(a*n*(p+1)*(b^2-4*a*c))*
+    Int[(b^2-2*a*c+n*(p+1)*(b^2-4*a*c)+b*c*(n*(2*p+3)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IntegerQ[p]
+
+
+Int[1/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*q*r)*Int[(r-x^(n/2))/(q-r*x^(n/2)+x^n),x] + 
+  1/(2*c*q*r)*Int[(r+x^(n/2))/(q+r*x^(n/2)+x^n),x]]] /;
+FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && IGtQ[n/2,0] && NegQ[b^2-4*a*c]
+
+
+Int[1/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  c/q*Int[1/(b/2-q/2+c*x^n),x] - c/q*Int[1/(b/2+q/2+c*x^n),x]] /;
+FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0]
+
+
+Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n+c*x^(2*n))^FracPart[p]/
+    ((1+2*c*x^n/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^n/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
+    Int[(1+2*c*x^n/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^n/(b-Sqrt[b^2-4*a*c]))^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n]
+
+
+Int[(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[(b+a*x^n+c*x^(2*n))^p/x^(n*p),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[mn,-n] && IntegerQ[p] && PosQ[n]
+
+
+Int[(a_+b_.*x_^mn_+c_.*x_^n_.)^p_,x_Symbol] :=
+  x^(n*FracPart[p])*(a+b*x^(-n)+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*Int[(b+a*x^n+c*x^(2*n))^p/x^(n*p),x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[mn,-n] && Not[IntegerQ[p]] && PosQ[n]
+
+
+Int[(a_+b_.*u_^n_+c_.*u_^n2_.)^p_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,u] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && LinearQ[u,x] && NeQ[u,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.3.2 (d x)^m (a+b x^n+c x^(2 n))^p*)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && EqQ[Simplify[m-n+1]]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && PositiveIntegerQ[p] && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  Int[x^(m+2*n*p)*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[n2,2*n] && NegativeIntegerQ[p] && NegQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(d_*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k)+c*x^(2*n/k))^p,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/d*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/d^n+c*x^(2*k*n)/d^(2*n))^p,x],x,(d*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^(n-1)*(d*x)^(m-n+1)*(b*n*p+c*(m+n*(2*p-1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^p/(c*(m+2*n*p+1)*(m+n*(2*p-1)+1)) - 
+  n*p*d^n/(c*(m+2*n*p+1)*(m+n*(2*p-1)+1))*
+    Int[(d*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p-1)*Simp[a*b*(m-n+1)-(2*a*c*(m+n*(2*p-1)+1)-b^2*(m+n*(p-1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m>n-1 && 
+  m+2*n*p+1!=0 && m+n*(2*p-1)+1!=0 && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p/(d*(m+1)) - 
+  n*p/(d^n*(m+1))*Int[(d*x)^(m+n)*(b+2*c*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p/(d*(m+2*n*p+1)) + 
+  n*p/(m+2*n*p+1)*Int[(d*x)^m*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && NeQ[m+2*n*p+1] && 
+  IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^(n-1)*(d*x)^(m-n+1)*(b+2*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(n*(p+1)*(b^2-4*a*c)) - 
+  d^n/(n*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^(m-n)*(b*(m-n+1)+2*c*(m+2*n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && n-1<m<=2*n-1 && 
+  IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -d^(2*n-1)*(d*x)^(m-2*n+1)*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(n*(p+1)*(b^2-4*a*c)) + 
+  d^(2*n)/(n*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^(m-2*n)*(2*a*(m-2*n+1)+b*(m+n*(2*p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>2*n-1 && 
+  IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*Simp[b^2*(n*(p+1)+m+1)-2*a*c*(m+2*n*(p+1)+1)+b*c*(2*n*p+3*n+m+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^(2*n-1)*(d*x)^(m-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(m+2*n*p+1)) - 
+  d^(2*n)/(c*(m+2*n*p+1))*
+    Int[(d*x)^(m-2*n)*Simp[a*(m-2*n+1)+b*(m+n*(p-1)+1)*x^n,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>2*n-1 && 
+  NeQ[m+2*n*p+1] && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*(m+1)) - 
+  1/(a*d^n*(m+1))*Int[(d*x)^(m+n)*(b*(m+n*(p+1)+1)+c*(m+2*n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntegerQ[p]
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  (d*x)^(m+1)/(a*d*(m+1)) -
+  1/(a*d^n)*Int[(d*x)^(m+n)*(b+c*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[x_^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  Int[PolynomialDivide[x^m,(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m] && m>3*n-1
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  d^(2*n-1)*(d*x)^(m-2*n+1)/(c*(m-2*n+1)) -
+  d^(2*n)/c*Int[(d*x)^(m-2*n)*(a+b*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>2*n-1
+
+
+Int[x_^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*r)*Int[x^(m-3*(n/2))*(q+r*x^(n/2))/(q+r*x^(n/2)+x^n),x] - 
+  1/(2*c*r)*Int[x^(m-3*(n/2))*(q-r*x^(n/2))/(q-r*x^(n/2)+x^n),x]]] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n/2,m] && 3*n/2<=m<2*n && NegQ[b^2-4*a*c]
+
+
+Int[x_^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*r)*Int[x^(m-n/2)/(q-r*x^(n/2)+x^n),x] - 
+  1/(2*c*r)*Int[x^(m-n/2)/(q+r*x^(n/2)+x^n),x]]] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n/2,m] && n/2<=m<3*n/2 && NegQ[b^2-4*a*c]
+
+
+Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  d^n/2*(b/q+1)*Int[(d*x)^(m-n)/(b/2+q/2+c*x^n),x] - 
+  d^n/2*(b/q-1)*Int[(d*x)^(m-n)/(b/2-q/2+c*x^n),x]] /;
+FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>=n
+
+
+Int[(d_.*x_)^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  c/q*Int[(d*x)^m/(b/2-q/2+c*x^n),x] - c/q*Int[(d*x)^m/(b/2+q/2+c*x^n),x]] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/d*Subst[Int[(a+b*d^(-n)*x^(-k*n)+c*d^(-2*n)*x^(-2*k*n))^p/x^(k*(m+1)+1),x],x,1/(d*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -d^IntPart[m]*(d*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)+c*x^(2*k*n))^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[(d_*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(d_*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(d_.*x_)^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[(d*x)^m/(b-q+2*c*x^n),x] -
+  2*c/q*Int[(d*x)^m/(b+q+2*c*x^n),x]] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*
+    Int[(d*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*Simp[b^2*(n*(p+1)+m+1)-2*a*c*(m+2*n*(p+1)+1)+b*c*(2*n*p+3*n+m+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  a^IntPart[p]*(a+b*x^n+c*x^(2*n))^FracPart[p]/
+    ((1+2*c*x^n/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^n/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
+    Int[(d*x)^m*(1+2*c*x^n/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^n/(b-Sqrt[b^2-4*a*c]))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n]
+
+
+Int[x_^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[x^(m-n*p)*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[mn,-n] && IntegerQ[p] && PosQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*Int[x^(m-n*p)*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[mn,-n] && Not[IntegerQ[p]] && PosQ[n]
+
+
+Int[(d_*x_)^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^(-n)+c*x^n)^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[mn,-n]
+
+
+Int[x_^m_.*(a_.+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n+c*x^(2*n))^p,x],x],x,v] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
+
+
+Int[u_^m_.*(a_.+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && LinearPairQ[u,v,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.3.3 (d+e x^n)^q (a+b x^n+c x^(2 n))^p*)
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(n*(2*p+q))*(e+d*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(n*(2*p+q))*(e+d*x^(-n))^q*(c+a*x^(-2*n))^p,x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^2,x],x,1/x] /;
+FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g-1)*(d+e*x^(g*n))^q*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g-1)*(d+e*x^(g*n))^q*(a+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
+
+
+Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (b*e-d*c)*(b*x^n+c*x^(2*n))^(p+1)/(b*c*n*(p+1)*x^(2*n*(p+1))) + 
+  e/c*Int[x^(-n)*(b*x^n+c*x^(2*n))^(p+1),x] /;
+FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && EqQ[n*(2*p+1)+1]
+
+
+Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  e*x^(-n+1)*(b*x^n+c*x^(2*n))^(p+1)/(c*(n*(2*p+1)+1)) /;
+FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && NeQ[n*(2*p+1)+1] && EqQ[b*e*(n*p+1)-c*d*(n*(2*p+1)+1)]
+
+
+Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  e*x^(-n+1)*(b*x^n+c*x^(2*n))^(p+1)/(c*(n*(2*p+1)+1)) - 
+  (b*e*(n*p+1)-c*d*(n*(2*p+1)+1))/(c*(n*(2*p+1)+1))*Int[(b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && NeQ[n*(2*p+1)+1] && NeQ[b*e*(n*p+1)-c*d*(n*(2*p+1)+1)]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (b*x^n+c*x^(2*n))^FracPart[p]/(x^(n*FracPart[p])*(b+c*x^n)^FracPart[p])*Int[x^(n*p)*(d+e*x^n)^q*(b+c*x^n)^p,x] /;
+FreeQ[{b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q*(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[q]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  -(c*d^2-b*d*e+a*e^2)*x*(d+e*x^n)^(q+1)/(d*e^2*n*(q+1)) + 
+  1/(n*(q+1)*d*e^2)*Int[(d+e*x^n)^(q+1)*Simp[c*d^2-b*d*e+a*e^2*(n*(q+1)+1)+c*d*e*n*(q+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_),x_Symbol] :=
+  -(c*d^2+a*e^2)*x*(d+e*x^n)^(q+1)/(d*e^2*n*(q+1)) + 
+  1/(n*(q+1)*d*e^2)*Int[(d+e*x^n)^(q+1)*Simp[c*d^2+a*e^2*(n*(q+1)+1)+c*d*e*n*(q+1)*x^n,x],x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  c*x^(n+1)*(d+e*x^n)^(q+1)/(e*(n*(q+2)+1)) + 
+  1/(e*(n*(q+2)+1))*Int[(d+e*x^n)^q*(a*e*(n*(q+2)+1)-(c*d*(n+1)-b*e*(n*(q+2)+1))*x^n),x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_),x_Symbol] :=
+  c*x^(n+1)*(d+e*x^n)^(q+1)/(e*(n*(q+2)+1)) + 
+  1/(e*(n*(q+2)+1))*Int[(d+e*x^n)^q*(a*e*(n*(q+2)+1)-c*d*(n+1)*x^n),x] /;
+FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2]
+
+
+Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[2*d*e,2]},
+  e^2/(2*c)*Int[1/(d+q*x^(n/2)+e*x^n),x] + e^2/(2*c)*Int[1/(d-q*x^(n/2)+e*x^n),x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && PosQ[d*e]
+
+
+Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[-2*d*e,2]},
+  d/(2*a)*Int[(d-q*x^(n/2))/(d-q*x^(n/2)-e*x^n),x] + 
+  d/(2*a)*Int[(d+q*x^(n/2))/(d+q*x^(n/2)-e*x^n),x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && NegQ[d*e]
+
+
+Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a/c,4]},
+  1/(2*Sqrt[2]*c*q^3)*Int[(Sqrt[2]*d*q-(d-e*q^2)*x^(n/2))/(q^2-Sqrt[2]*q*x^(n/2)+x^n),x] + 
+  1/(2*Sqrt[2]*c*q^3)*Int[(Sqrt[2]*d*q+(d-e*q^2)*x^(n/2))/(q^2+Sqrt[2]*q*x^(n/2)+x^n),x]] /;
+FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NeQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && PosQ[a*c]
+
+
+Int[(d_+e_.*x_^3)/(a_+c_.*x_^6),x_Symbol] :=
+  With[{q=Rt[c/a,6]},
+  1/(3*a*q^2)*Int[(q^2*d-e*x)/(1+q^2*x^2),x] + 
+  1/(6*a*q^2)*Int[(2*q^2*d-(Sqrt[3]*q^3*d-e)*x)/(1-Sqrt[3]*q*x+q^2*x^2),x] + 
+  1/(6*a*q^2)*Int[(2*q^2*d+(Sqrt[3]*q^3*d+e)*x)/(1+Sqrt[3]*q*x+q^2*x^2),x]] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PosQ[c/a]
+
+
+Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[-a/c,2]},
+  (d+e*q)/2*Int[1/(a+c*q*x^n),x] + (d-e*q)/2*Int[1/(a-c*q*x^n),x]] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NegQ[a*c] && IntegerQ[n]
+
+
+Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  d*Int[1/(a+c*x^(2*n)),x] + e*Int[x^n/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && (PosQ[a*c] || Not[IntegerQ[n]])
+
+
+Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[2*d/e-b/c,2]},
+  e/(2*c)*Int[1/Simp[d/e+q*x^(n/2)+x^n,x],x] + 
+  e/(2*c)*Int[1/Simp[d/e-q*x^(n/2)+x^n,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
+  (PositiveQ[2*d/e-b/c] || Not[NegativeQ[2*d/e-b/c]] && EqQ[d-e*Rt[a/c,2]])
+
+
+Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
+  PositiveQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[-2*d/e-b/c,2]},
+  e/(2*c*q)*Int[(q-2*x^(n/2))/Simp[d/e+q*x^(n/2)-x^n,x],x] + 
+  e/(2*c*q)*Int[(q+2*x^(n/2))/Simp[d/e-q*x^(n/2)-x^n,x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
+  Not[PositiveQ[b^2-4*a*c]]
+
+
+Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  (PosQ[b^2-4*a*c] || Not[PositiveIntegerQ[n/2]])
+
+
+Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a/c,2]},
+  With[{r=Rt[2*q-b/c,2]},
+  1/(2*c*q*r)*Int[(d*r-(d-e*q)*x^(n/2))/(q-r*x^(n/2)+x^n),x] + 
+  1/(2*c*q*r)*Int[(d*r+(d-e*q)*x^(n/2))/(q+r*x^(n/2)+x^n),x]]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[n/2] && 
+  NegQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  e^2/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^n)^q,x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^n)^(q+1)*(c*d-b*e-c*e*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]] && 
+  RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
+  e^2/(c*d^2+a*e^2)*Int[(d+e*x^n)^q,x] + 
+  c/(c*d^2+a*e^2)*Int[(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  2*c/r*Int[(d+e*x^n)^q/(b-r+2*c*x^n),x] - 2*c/r*Int[(d+e*x^n)^q/(b+r+2*c*x^n),x]] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]]
+
+
+Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{r=Rt[-a*c,2]},
+  -c/(2*r)*Int[(d+e*x^n)^q/(r-c*x^n),x] - c/(2*r)*Int[(d+e*x^n)^q/(r+c*x^n),x]] /;
+FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]]
+
+
+Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  x*(b*e*n*p+c*d*(2*n*p+n+1)+c*e*(2*n*p+1)*x^n)*(a+b*x^n+c*x^(2*n))^p/(c*(2*n*p+1)*(2*n*p+n+1)) + 
+  n*p/(c*(2*n*p+1)*(2*n*p+n+1))*
+    Int[Simp[2*a*c*d*(2*n*p+n+1)-a*b*e+(2*a*c*e*(2*n*p+1)+b*d*c*(2*n*p+n+1)-b^2*e*(n*p+1))*x^n,x]*
+      (a+b*x^n+c*x^(2*n))^(p-1),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[p] && p>0 && NeQ[2*n*p+1] && NeQ[2*n*p+n+1] && 
+  IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  x*(d*(2*n*p+n+1)+e*(2*n*p+1)*x^n)*(a+c*x^(2*n))^p/((2*n*p+1)*(2*n*p+n+1)) + 
+  2*a*n*p/((2*n*p+1)*(2*n*p+n+1))*Int[(d*(2*n*p+n+1)+e*(2*n*p+1)*x^n)*(a+c*x^(2*n))^(p-1),x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && FractionQ[p] && p>0 && NeQ[2*n*p+1] && NeQ[2*n*p+n+1] && 
+  IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(d*b^2-a*b*e-2*a*c*d+(b*d-2*a*e)*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*
+    Int[Simp[(n*p+n+1)*d*b^2-a*b*e-2*a*c*d*(2*n*p+2*n+1)+(2*n*p+3*n+1)*(d*b-2*a*e)*c*x^n,x]*
+      (a+b*x^n+c*x^(2*n))^(p+1),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(d+e*x^n)*(a+c*x^(2*n))^(p+1)/(2*a*n*(p+1)) + 
+  1/(2*a*n*(p+1))*Int[(d*(2*n*p+2*n+1)+e*(2*n*p+3*n+1)*x^n)*(a+c*x^(2*n))^(p+1),x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && RationalQ[p] && p<-1 && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)*(a+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  c^p*x^(2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*(2*n*p+n*q+1)) + 
+  Int[(d+e*x^n)^q*ExpandToSum[(a+b*x^n+c*x^(2*n))^p-c^p*x^(2*n*p)-d*c^p*(2*n*p-n+1)*x^(2*n*p-n)/(e*(2*n*p+n*q+1)),x],x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p] && 
+  NeQ[2*n*p+n*q+1] && PositiveIntegerQ[n] && Not[PositiveIntegerQ[q]]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  c^p*x^(2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*(2*n*p+n*q+1)) + 
+  Int[(d+e*x^n)^q*ExpandToSum[(a+c*x^(2*n))^p-c^p*x^(2*n*p)-d*c^p*(2*n*p-n+1)*x^(2*n*p-n)/(e*(2*n*p+n*q+1)),x],x] /;
+FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[p] && 
+  NeQ[2*n*p+n*q+1] && PositiveIntegerQ[n] && Not[PositiveIntegerQ[q]]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
+  (IntegersQ[p,q] && Not[IntegerQ[n]] || PositiveIntegerQ[p] || PositiveIntegerQ[q] && Not[IntegerQ[n]])
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && 
+  (IntegersQ[p,q] && Not[IntegerQ[n]] || PositiveIntegerQ[p] || PositiveIntegerQ[q] && Not[IntegerQ[n]])
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+c*x^(2*n))^p,(d/(d^2-e^2*x^(2*n))-e*x^n/(d^2-e^2*x^(2*n)))^(-q),x],x] /;
+FreeQ[{a,c,d,e,n,p},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && Not[IntegersQ[n,2*p]]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Defer[Int][(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegersQ[n,q]]
+
+
+Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Defer[Int][(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegersQ[n,q]]
+
+
+Int[(d_+e_.*u_^n_)^q_.*(a_+b_.*u_^n_+c_.*u_^n2_)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x,u] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(d_+e_.*u_^n_)^q_.*(a_+c_.*u_^n2_)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x,u] /;
+FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2,2*n] && EqQ[mn,-n] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
+FreeQ[{a,c,d,e,mn,p},x] && EqQ[n2,-2*mn] && IntegerQ[q]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(-2*mn*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
+FreeQ[{a,c,d,e,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  x^(n*FracPart[q])*(d+e*x^(-n))^FracPart[q]/(e+d*x^n)^FracPart[q]*Int[x^(-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && PosQ[n]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  x^(-mn*FracPart[q])*(d+e*x^mn)^FracPart[q]/(e+d*x^(-mn))^FracPart[q]*Int[x^(mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
+FreeQ[{a,c,d,e,mn,p,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && PosQ[n2]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/(x^(2*n*FracPart[p])*(c+b*x^(-n)+a*x^(-2*n))^FracPart[p])*
+    Int[x^(2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && NegQ[n]
+
+
+Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+c*x^n2)^FracPart[p]/(x^(n2*FracPart[p])*(c+a*x^(2*mn))^FracPart[p])*
+    Int[x^(n2*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
+FreeQ[{a,c,d,e,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && NegQ[n2]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[x^(-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,q},x] && EqQ[mn,-n] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*
+    Int[x^(-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*
+    Int[(d+e*x^n)^q*(f+g*x^n)^r*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,q,r},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,f,g,n,q,r},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
+    Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
+    Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(f_.+g_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (2*c*f-g*(b-q))/(2*c*d-e*(b-q))*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 
+  (e*f-d*g)/(2*c*d-e*(b-q))*Int[(b-q+2*c*x^2)/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
+ NeQ[2*c*f-g*(b-q)]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[NegativeQ[c]]
+
+
+Int[(f_+g_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  (c*f+g*q)/(c*d+e*q)*Int[1/Sqrt[a+c*x^4],x] + (e*f-d*g)/(c*d+e*q)*Int[(q-c*x^2)/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
+ NeQ[c*f+g*q]] /;
+FreeQ[{a,c,d,e,f,g},x] && PositiveQ[-a*c] && NeQ[c*d^2+a*e^2] && Not[NegativeQ[c]]
+
+
+Int[(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2] && 
+  (IntegerQ[q] || PositiveQ[d1] && PositiveQ[d2])
+
+
+Int[(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (d1+e1*x^(n/2))^FracPart[q]*(d2+e2*x^(n/2))^FracPart[q]/(d1*d2+e1*e2*x^n)^FracPart[q]*
+    Int[(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2]
+
+
+Int[(A_+B_.*x_^m_.)*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  A*Int[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] + B*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,A,B,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[m-n+1]
+
+
+Int[(A_+B_.*x_^m_.)*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  A*Int[(d+e*x^n)^q*(a+c*x^(2*n))^p,x] + B*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,A,B,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[m-n+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.3.4 (f x)^m (d+e x^n)^q (a+b x^n+c x^(2 n))^p*)
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^m/(n*e^((m+1)/n-1))*Subst[Int[(e*x)^(q+(m+1)/n-1)*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^m/(n*e^((m+1)/n-1))*Subst[Int[(e*x)^(q+(m+1)/n-1)*(a+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^m*e^IntPart[q]*(e*x^n)^FracPart[q]/x^(n*FracPart[q])*Int[x^(m+n*q)*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^m*e^IntPart[q]*(e*x^n)^FracPart[q]/x^(n*FracPart[q])*Int[x^(m+n*q)*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[Simplify[(m+1)/n]]]
+
+
+Int[(f_*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
+
+
+Int[(f_*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[Simplify[m-n+1]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[(d+e*x)^q*(a+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[Simplify[m-n+1]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m+n*(2*p+q))*(e+d*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m+n*(2*p+q))*(e+d*x^(-n))^q*(c+a*x^(-2*n))^p,x] /;
+FreeQ[{a,c,d,e,m,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^((m+1)/n-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]] && PositiveIntegerQ[m,n,(m+1)/n]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*
+    Int[(f*x)^m*(d+e*x^n)^q*(b/2+c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(d+e*x)^q*(a+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,f,q,m,n,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
+    Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
+  1/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1))*Int[x^Mod[m,n]*(d+e*x^n)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^n)*(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)*x^(m-Mod[m,n])*(a+b*x^n+c*x^(2*n))^p-
+      (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m>0
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
+  1/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1))*Int[x^Mod[m,n]*(d+e*x^n)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^n)*(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)*x^(m-Mod[m,n])*(a+c*x^(2*n))^p-
+      (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
+FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m>0
+
+
+Int[x_^m_*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
+  (-d)^((m-Mod[m,n])/n-1)/(n*e^(2*p)*(q+1))*Int[x^m*(d+e*x^n)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^n)*(n*(-d)^(-(m-Mod[m,n])/n+1)*e^(2*p)*(q+1)*(a+b*x^n+c*x^(2*n))^p - 
+  (e^(-(m-Mod[m,n])/n)*(c*d^2-b*d*e+a*e^2)^p*x^(-(m-Mod[m,n])))*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m<0
+
+
+Int[x_^m_*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
+  (-d)^((m-Mod[m,n])/n-1)/(n*e^(2*p)*(q+1))*Int[x^m*(d+e*x^n)^(q+1)*
+    ExpandToSum[Together[1/(d+e*x^n)*(n*(-d)^(-(m-Mod[m,n])/n+1)*e^(2*p)*(q+1)*(a+c*x^(2*n))^p - 
+  (e^(-(m-Mod[m,n])/n)*(c*d^2+a*e^2)^p*x^(-(m-Mod[m,n])))*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
+FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m<0
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  c^p*(f*x)^(m+2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*f^(2*n*p-n+1)*(m+2*n*p+n*q+1)) + 
+  1/(e*(m+2*n*p+n*q+1))*Int[(f*x)^m*(d+e*x^n)^q*
+    ExpandToSum[e*(m+2*n*p+n*q+1)*((a+b*x^n+c*x^(2*n))^p-c^p*x^(2*n*p))-d*c^p*(m+2*n*p-n+1)*x^(2*n*p-n),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && 2*n*p>n-1 && 
+  Not[IntegerQ[q]] && NeQ[m+2*n*p+n*q+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  c^p*(f*x)^(m+2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*f^(2*n*p-n+1)*(m+2*n*p+n*q+1)) + 
+  1/(e*(m+2*n*p+n*q+1))*Int[(f*x)^m*(d+e*x^n)^q*
+    ExpandToSum[e*(m+2*n*p+n*q+1)*((a+c*x^(2*n))^p-c^p*x^(2*n*p))-d*c^p*(m+2*n*p-n+1)*x^(2*n*p-n),x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && 2*n*p>n-1 && 
+  Not[IntegerQ[q]] && NeQ[m+2*n*p+n*q+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && EqQ[n2-2*n] && PositiveIntegerQ[n,p]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(d+e*x^(n/k))^q*(a+b*x^(n/k)+c*x^(2*n/k))^p,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=GCD[m+1,n]},
+  1/k*Subst[Int[x^((m+1)/k-1)*(d+e*x^(n/k))^q*(a+c*x^(2*n/k))^p,x],x,x^k] /;
+ k!=1] /;
+FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(k*n)/f^n)^q*(a+b*x^(k*n)/f^n+c*x^(2*k*n)/f^(2*n))^p,x],x,(f*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(k*n)/f)^q*(a+c*x^(2*k*n)/f)^p,x],x,(f*x)^(1/k)]] /;
+FreeQ[{a,c,d,e,f,p,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p*(d*(m+n*(2*p+1)+1)+e*(m+1)*x^n)/(f*(m+1)*(m+n*(2*p+1)+1)) + 
+  n*p/(f^n*(m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^(p-1)*
+      Simp[2*a*e*(m+1)-b*d*(m+n*(2*p+1)+1)+(b*e*(m+1)-2*c*d*(m+n*(2*p+1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && 
+  m+n*(2*p+1)+1!=0 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+c*x^(2*n))^p*(d*(m+n*(2*p+1)+1)+e*(m+1)*x^n)/(f*(m+1)*(m+n*(2*p+1)+1)) + 
+  2*n*p/(f^n*(m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^(m+n)*(a+c*x^(2*n))^(p-1)*(a*e*(m+1)-c*d*(m+n*(2*p+1)+1)*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && 
+  m+n*(2*p+1)+1!=0 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p*(b*e*n*p+c*d*(m+n*(2*p+1)+1)+c*e*(2*n*p+m+1)*x^n)/
+    (c*f*(2*n*p+m+1)*(m+n*(2*p+1)+1)) + 
+  n*p/(c*(2*n*p+m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p-1)*
+    Simp[2*a*c*d*(m+n*(2*p+1)+1)-a*b*e*(m+1)+(2*a*c*e*(2*n*p+m+1)+b*c*d*(m+n*(2*p+1)+1)-b^2*e*(m+n*p+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && 
+  NeQ[2*n*p+m+1] && NeQ[m+n*(2*p+1)+1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (f*x)^(m+1)*(a+c*x^(2*n))^p*(c*d*(m+n*(2*p+1)+1)+c*e*(2*n*p+m+1)*x^n)/(c*f*(2*n*p+m+1)*(m+n*(2*p+1)+1)) + 
+  2*a*n*p/((2*n*p+m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p-1)*Simp[d*(m+n*(2*p+1)+1)+e*(2*n*p+m+1)*x^n,x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && 
+  NeQ[2*n*p+m+1] && NeQ[m+n*(2*p+1)+1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  f^(n-1)*(f*x)^(m-n+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(b*d-2*a*e-(b*e-2*c*d)*x^n)/(n*(p+1)*(b^2-4*a*c)) + 
+  f^n/(n*(p+1)*(b^2-4*a*c))*Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p+1)*
+      Simp[(n-m-1)*(b*d-2*a*e)+(2*n*p+2*n+m+1)*(b*e-2*c*d)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p] && p<-1 && m>n-1 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  f^(n-1)*(f*x)^(m-n+1)*(a+c*x^(2*n))^(p+1)*(a*e-c*d*x^n)/(2*a*c*n*(p+1)) + 
+  f^n/(2*a*c*n*(p+1))*Int[(f*x)^(m-n)*(a+c*x^(2*n))^(p+1)*(a*e*(n-m-1)+c*d*(2*n*p+2*n+m+1)*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n-1 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^n)/(a*f*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*
+      Simp[d*(b^2*(m+n*(p+1)+1)-2*a*c*(m+2*n*(p+1)+1))-a*b*e*(m+1)+c*(m+n*(2*p+3)+1)*(b*d-2*a*e)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && 
+  IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)*(d+e*x^n)/(2*a*f*n*(p+1)) + 
+  1/(2*a*n*(p+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p+1)*Simp[d*(m+2*n*(p+1)+1)+e*(m+n*(2*p+3)+1)*x^n,x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  e*f^(n-1)*(f*x)^(m-n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(m+n(2*p+1)+1)) - 
+  f^n/(c*(m+n(2*p+1)+1))*
+    Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^p*Simp[a*e*(m-n+1)+(b*e*(m+n*p+1)-c*d*(m+n(2*p+1)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && 
+  NeQ[m+n(2*p+1)+1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  e*f^(n-1)*(f*x)^(m-n+1)*(a+c*x^(2*n))^(p+1)/(c*(m+n(2*p+1)+1)) - 
+  f^n/(c*(m+n(2*p+1)+1))*Int[(f*x)^(m-n)*(a+c*x^(2*n))^p*(a*e*(m-n+1)-c*d*(m+n(2*p+1)+1)*x^n),x] /;
+FreeQ[{a,c,d,e,f,p},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && NeQ[m+n(2*p+1)+1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  d*(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*f*(m+1)) + 
+  1/(a*f^n*(m+1))*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^p*Simp[a*e*(m+1)-b*d*(m+n*(p+1)+1)-c*d*(m+2*n(p+1)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && 
+  IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  d*(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)/(a*f*(m+1)) + 
+  1/(a*f^n*(m+1))*Int[(f*x)^(m+n)*(a+c*x^(2*n))^p*(a*e*(m+1)-c*d*(m+2*n(p+1)+1)*x^n),x] /;
+FreeQ[{a,c,d,e,f,p},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a*c,2]},
+  With[{r=Rt[2*c*q-b*c,2]},
+  c/(2*q*r)*Int[(f*x)^m*Simp[d*r-(c*d-e*q)*x^(n/2),x]/(q-r*x^(n/2)+c*x^n),x] + 
+  c/(2*q*r)*Int[(f*x)^m*Simp[d*r+(c*d-e*q)*x^(n/2),x]/(q+r*x^(n/2)+c*x^n),x]] /;
+ Not[NegativeQ[2*c*q-b*c]]] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NegativeQ[b^2-4*a*c] && IntegersQ[m,n/2] && 0<m<n && PosQ[a*c]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a*c,2]},
+  With[{r=Rt[2*c*q,2]},
+  c/(2*q*r)*Int[(f*x)^m*Simp[d*r-(c*d-e*q)*x^(n/2),x]/(q-r*x^(n/2)+c*x^n),x] + 
+  c/(2*q*r)*Int[(f*x)^m*Simp[d*r+(c*d-e*q)*x^(n/2),x]/(q+r*x^(n/2)+c*x^n),x]] /;
+ Not[NegativeQ[2*c*q]]] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveQ[a*c] && IntegersQ[m,n/2] && 0<m<n
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a*c,2]},
+  With[{r=Rt[2*c*q-b*c,2]},
+  c/(2*q*r)*Int[(f*x)^m*(d*r-(c*d-e*q)*x^(n/2))/(q-r*x^(n/2)+c*x^n),x] + 
+  c/(2*q*r)*Int[(f*x)^m*(d*r+(c*d-e*q)*x^(n/2))/(q+r*x^(n/2)+c*x^n),x]] /;
+ Not[NegativeQ[2*c*q-b*c]]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NegativeQ[b^2-4*a*c] && IntegerQ[n/2] && n>2 && PosQ[a*c]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[a*c,2]},
+  With[{r=Rt[2*c*q,2]},
+  c/(2*q*r)*Int[(f*x)^m*(d*r-(c*d-e*q)*x^(n/2))/(q-r*x^(n/2)+c*x^n),x] + 
+  c/(2*q*r)*Int[(f*x)^m*(d*r+(c*d-e*q)*x^(n/2))/(q+r*x^(n/2)+c*x^n),x]] /;
+ Not[NegativeQ[2*c*q]]] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && IntegerQ[n/2] && n>2 && PositiveQ[a*c]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (e/2+(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2+q/2+c*x^n),x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
+  With[{q=Rt[-a*c,2]},
+  -(e/2+c*d/(2*q))*Int[(f*x)^m/(q-c*x^n),x] + (e/2-c*d/(2*q))*Int[(f*x)^m/(q+c*x^n),x]] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[q] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[q] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m,(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[q] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m,(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[q] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  f^(2*n)/c^2*Int[(f*x)^(m-2*n)*(c*d-b*e+c*e*x^n)*(d+e*x^n)^(q-1),x] - 
+  f^(2*n)/c^2*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q-1)*Simp[a*(c*d-b*e)+(b*c*d-b^2*e+a*c*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[m,q] && q>0 && m>2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  f^(2*n)/c*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
+  a*f^(2*n)/c*Int[(f*x)^(m-2*n)*(d+e*x^n)^q/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m] && m>2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  e*f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1),x] - 
+  f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1)*Simp[a*e-(c*d-b*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[m,q] && q>0 && n-1<m<=2n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  e*f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1),x] - 
+  f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1)*Simp[a*e-c*d*x^n,x]/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && n-1<m<=2n-1
+
+
+Int[(f_.*x_)^m_*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  d/a*Int[(f*x)^m*(d+e*x^n)^(q-1),x] - 
+  1/(a*f^n)*Int[(f*x)^(m+n)*(d+e*x^n)^(q-1)*Simp[b*d-a*e+c*d*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[m,q] && q>0 && m<0
+
+
+Int[(f_.*x_)^m_*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  d/a*Int[(f*x)^m*(d+e*x^n)^(q-1),x] + 
+  1/(a*f^n)*Int[(f*x)^(m+n)*(d+e*x^n)^(q-1)*Simp[a*e-c*d*x^n,x]/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  d^2*f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
+  f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q+1)*Simp[a*d+(b*d-a*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[m,q] && q<-1 && m>2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  d^2*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
+  a*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  -d*e*f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^q,x] + 
+  f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^(q+1)*Simp[a*e+c*d*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[m,q] && q<-1 && n-1<m<=2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  -d*e*f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^q,x] + 
+  f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^(q+1)*Simp[a*e+c*d*x^n,x]/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && n-1<m<=2*n-1
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
+  e^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^n)^q,x] + 
+  1/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^n)^(q+1)*Simp[c*d-b*e-c*e*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  RationalQ[q] && q<-1
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
+  e^2/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^n)^q,x] + 
+  c/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
+FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q,(f*x)^m/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,f,q,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^n)^q,(f*x)^m/(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,f,q,n},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q,1/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
+  Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q,1/(a+c*x^(2*n)),x],x] /;
+FreeQ[{a,c,d,e,f,m,q,n},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
+  1/d^2*Int[(f*x)^m*(a*d+(b*d-a*e)*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] + 
+  (c*d^2-b*d*e+a*e^2)/(d^2*f^(2*n))*Int[(f*x)^(m+2*n)*(a+b*x^n+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-n
+
+
+Int[(f_.*x_)^m_*(a_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
+  a/d^2*Int[(f*x)^m*(d-e*x^n)*(a+c*x^(2*n))^(p-1),x] + 
+  (c*d^2+a*e^2)/(d^2*f^(2*n))*Int[(f*x)^(m+2*n)*(a+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-n
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
+  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] - 
+  (c*d^2-b*d*e+a*e^2)/(d*e*f^n)*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<0
+
+
+Int[(f_.*x_)^m_*(a_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
+  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^n)*(a+c*x^(2*n))^(p-1),x] - 
+  (c*d^2+a*e^2)/(d*e*f^n)*Int[(f*x)^(m+n)*(a+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<0
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
+  -f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(a*d+(b*d-a*e)*x^n)*(a+b*x^n+c*x^(2*n))^p,x] + 
+  d^2*f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(a+b*x^n+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n
+
+
+Int[(f_.*x_)^m_.*(a_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
+  -a*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d-e*x^n)*(a+c*x^(2*n))^p,x] + 
+  d^2*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(a+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
+  f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(a*e+c*d*x^n)*(a+b*x^n+c*x^(2*n))^p,x] - 
+  d*e*f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[(f_.*x_)^m_.*(a_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
+  f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(a*e+c*d*x^n)*(a+c*x^(2*n))^p,x] - 
+  d*e*f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(a+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>0
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*x^n+c*x^(2*n))^p,(f*x)^m(d+e*x^n)^q,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && (PositiveIntegerQ[q] || IntegersQ[m,q])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+c*x^(2*n))^p,(f*x)^m(d+e*x^n)^q,x],x] /;
+FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && (PositiveIntegerQ[q] || IntegersQ[m,q])
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[m]},
+  -g/f*Subst[Int[(d+e*f^(-n)*x^(-g*n))^q*(a+b*f^(-n)*x^(-g*n)+c*f^(-2*n)*x^(-2*g*n))^p/x^(g*(m+1)+1),x],x,1/(f*x)^(1/g)]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[m]},
+  -g/f*Subst[Int[(d+e*f^(-n)*x^(-g*n))^q*(a+c*f^(-2*n)*x^(-2*g*n))^p/x^(g*(m+1)+1),x],x,1/(f*x)^(1/g)]] /;
+FreeQ[{a,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -f^IntPart[m]*(f*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  -f^IntPart[m]*(f*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g*(m+1)-1)*(d+e*x^(g*n))^q*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,d,e,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g*(m+1)-1)*(d+e*x^(g*n))^q*(a+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,c,d,e,m,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(d+e*x^Simplify[n/(m+1)])^q*(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[(d+e*x^Simplify[n/(m+1)])^q*(a+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
+  With[{r=Rt[b^2-4*a*c,2]},
+  2*c/r*Int[(f*x)^m*(d+e*x^n)^q/(b-r+2*c*x^n),x] - 2*c/r*Int[(f*x)^m*(d+e*x^n)^q/(b+r+2*c*x^n),x]] /;
+FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
+  With[{r=Rt[-a*c,2]},
+  -c/(2*r)*Int[(f*x)^m*(d+e*x^n)^q/(r-c*x^n),x] - c/(2*r)*Int[(f*x)^m*(d+e*x^n)^q/(r+c*x^n),x]] /;
+FreeQ[{a,c,d,e,f,m,n,q},x] && EqQ[n2-2*n]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^n)/(a*f*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*
+      Simp[d*(b^2*(m+n*(p+1)+1)-2*a*c*(m+2*n*(p+1)+1))-a*b*e*(m+1)+(m+n*(2*p+3)+1)*(b*d-2*a*e)*c*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)*(d+e*x^n)/(2*a*f*n*(p+1)) + 
+  1/(2*a*n*(p+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p+1)*Simp[d*(m+2*n*(p+1)+1)+e*(m+n*(2*p+3)+1)*x^n,x],x] /;
+FreeQ[{a,c,d,e,f,m,n},x] && EqQ[n2-2*n] && NegativeIntegerQ[p+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && (PositiveIntegerQ[p] || PositiveIntegerQ[q])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (PositiveIntegerQ[p] || PositiveIntegerQ[q])
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  f^m*Int[ExpandIntegrand[x^m*(a+c*x^(2*n))^p,(d/(d^2-e^2*x^(2*n))-e*x^n/(d^2-e^2*x^(2*n)))^(-q),x],x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[q] && (IntegerQ[m] || PositiveQ[f])
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  (f*x)^m/x^m*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[q] && Not[IntegerQ[m] || PositiveQ[f]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n]
+
+
+Int[u_^m_.*(d_+e_.*v_^n_)^q_.*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x]
+
+
+Int[u_^m_.*(d_+e_.*v_^n_)^q_.*(a_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x,v] /;
+FreeQ[{a,c,d,e,m,n,p},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2,2*n] && EqQ[mn,-n] && IntegerQ[q]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m+mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
+FreeQ[{a,c,d,e,m,mn,p},x] && EqQ[n2,-2*mn] && IntegerQ[q]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m+2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && IntegerQ[p]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[x^(m-2*mn*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
+FreeQ[{a,c,d,e,m,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && IntegerQ[p]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  x^(n*FracPart[q])*(d+e*x^(-n))^FracPart[q]/(e+d*x^n)^FracPart[q]*Int[x^(m-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
+
+
+Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  x^(-mn*FracPart[q])*(d+e*x^mn)^FracPart[q]/(e+d*x^(-mn))^FracPart[q]*Int[x^(m+mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
+FreeQ[{a,c,d,e,m,mn,p,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^mn)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n]
+
+
+Int[(f_*x_)^m_*(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^mn)^q*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,c,d,e,f,m,mn,p,q},x] && EqQ[n2,-2*mn]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[x^(m-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,q},x] && EqQ[mn,-n] && IntegerQ[p]
+
+
+Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*
+    Int[x^(m-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[p]]
+
+
+Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
+  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^(-n)+c*x^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[mn,-n]
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  Int[(f*x)^m*(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2] && 
+  (IntegerQ[q] || PositiveQ[d1] && PositiveQ[d2])
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
+  (d1+e1*x^(n/2))^FracPart[q]*(d2+e2*x^(n/2))^FracPart[q]/(d1*d2+e1*e2*x^n)^FracPart[q]*
+    Int[(f*x)^m*(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.1.3.7 (c x)^m Pq(x) (a+b x^n)^p*)
+
+
+Int[x_^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^n_.)/(a_+c_.*x_^n_.)^(3/2),x_Symbol] :=
+  -(2*a*g+4*a*h*x^(n/4)-2*c*f*x^(n/2))/(a*c*n*Sqrt[a+c*x^n]) /;
+FreeQ[{a,c,e,f,g,h,m,n},x] && EqQ[q-n/4] && EqQ[r-3*n/4] && EqQ[4*m-n+4] && EqQ[c*e+a*h]
+
+
+Int[(d_*x_)^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^n_.)/(a_+c_.*x_^n_.)^(3/2),x_Symbol] :=
+  (d*x)^m/x^m*Int[x^m*(e+f*x^(n/4)+g*x^((3*n)/4)+h*x^n)/(a+c*x^n)^(3/2),x] /;
+FreeQ[{a,c,d,e,f,g,h,m,n},x] && EqQ[4*m-n+4] && EqQ[q-n/4] && EqQ[r-3*n/4] && EqQ[c*e+a*h]
+
+
+Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_)^p_,x_Symbol] :=
+  With[{n=Denominator[p]},
+  n/b*Subst[Int[x^(n*p+n-1)*(-a*c/b+c*x^n/b)^m*ReplaceAll[Pq,x->-a/b+x^n/b],x],x,(a+b*x)^(1/n)]] /;
+FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && FractionQ[p] && NegativeIntegerQ[m+1]
+
+
+(* Int[Pq_*(a_+b_.*x_)^p_,x_Symbol] :=
+  With[{n=Denominator[p]},
+  n/b*Subst[Int[x^(n*p+n-1)*ReplaceAll[Pq,x->-a/b+x^n/b],x],x,(a+b*x)^(1/n)]] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && FractionQ[p] *)
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[SubstFor[x^(m+1),Pq,x]*(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,m,n,p},x] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && PolyQ[Pq,x^(m+1)]
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  Coeff[Pq,x,n-1]*(a+b*x^n)^(p+1)/(b*n*(p+1)) + 
+  Int[ExpandToSum[Pq-Coeff[Pq,x,n-1]*x^(n-1),x]*(a+b*x^n)^p,x] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n,p] && NeQ[Coeff[Pq,x,n-1]]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*Pq*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PolyQ[Pq,x] && (PositiveIntegerQ[p] || EqQ[n-1])
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,n},x] && PolyQ[Pq,x] && (PositiveIntegerQ[p] || EqQ[n-1])
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a+b*x)^p,x],x,x^n] /;
+FreeQ[{a,b,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(c_*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Pq*(a+b*x^n)^(p+1)/(b*n*(p+1)) - 
+  1/(b*n*(p+1))*Int[D[Pq,x]*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b,m,n},x] && PolyQ[Pq,x] && EqQ[m-n+1] && RationalQ[p] && p<-1
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,d,m,n,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,n,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]] && SumQ[Pq]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  Module[{u=IntHide[x^m*Pq,x]},
+  u*(a+b*x^n)^p - b*n*p*Int[x^(m+n)*(a+b*x^n)^(p-1)*ExpandToSum[u/x^(m+1),x],x]] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m+Expon[Pq,x]+1<0
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],i},
+  (c*x)^m*(a+b*x^n)^p*Sum[Coeff[Pq,x,i]*x^(i+1)/(m+n*p+i+1),{i,0,q}] + 
+  a*n*p*Int[(c*x)^m*(a+b*x^n)^(p-1)*Sum[Coeff[Pq,x,i]*x^i/(m+n*p+i+1),{i,0,q}],x]] /;
+FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && PositiveIntegerQ[(n-1)/2] && RationalQ[p] && p>0
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],i},
+  (a+b*x^n)^p*Sum[Coeff[Pq,x,i]*x^(i+1)/(n*p+i+1),{i,0,q}] + 
+  a*n*p*Int[(a+b*x^n)^(p-1)*Sum[Coeff[Pq,x,i]*x^i/(n*p+i+1),{i,0,q}],x]] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[(n-1)/2] && RationalQ[p] && p>0
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],i},
+  (a*Coeff[Pq,x,q]-b*x*ExpandToSum[Pq-Coeff[Pq,x,q]*x^q,x])*(a+b*x^n)^(p+1)/(a*b*n*(p+1)) + 
+  1/(a*n*(p+1))*Int[Sum[(n*(p+1)+i+1)*Coeff[Pq,x,i]*x^i,{i,0,q-1}]*(a+b*x^n)^(p+1),x] /;
+ q==n-1] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  -x*Pq*(a+b*x^n)^(p+1)/(a*n*(p+1)) + 
+  1/(a*n*(p+1))*Int[ExpandToSum[n*(p+1)*Pq+D[x*Pq,x],x]*(a+b*x^n)^(p+1),x] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && Expon[Pq,x]<n-1
+
+
+Int[(d_+e_.*x_+f_.*x_^3+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  -(2*a*f+4*a*g*x-2*b*e*x^2)/(4*a*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,d,e,f,g},x] && EqQ[b*d+a*g]
+
+
+Int[(d_+f_.*x_^3+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  -(f+2*g*x)/(2*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,d,f,g},x] && EqQ[b*d+a*g]
+
+
+Int[(d_+e_.*x_+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  -x*(2*a*g-b*e*x)/(2*a*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,d,e,g},x] && EqQ[b*d+a*g]
+
+
+Int[x_^2*(e_.+f_.*x_+h_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  -(f-2*h*x^3)/(2*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,e,f,h},x] && EqQ[b*e-3*a*h]
+
+
+Int[x_^2*(e_.+h_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  h*x^3/(b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,e,h},x] && EqQ[b*e-3*a*h]
+
+
+Int[(d_+e_.*x_^2+f_.*x_^3+g_.*x_^4+h_.*x_^6)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  -(a*f-2*b*d*x-2*a*h*x^3)/(2*a*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,d,e,f,g,h},x] && EqQ[b*e-3*a*h] && EqQ[b*d+a*g]
+
+
+Int[(d_+e_.*x_^2+g_.*x_^4+h_.*x_^6)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
+  x*(b*d+a*h*x^2)/(a*b*Sqrt[a+b*x^4]) /;
+FreeQ[{a,b,d,e,g,h},x] && EqQ[b*e-3*a*h] && EqQ[b*d+a*g]
+
+
+Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  Module[{Q=PolynomialQuotient[b^(Floor[(q-1)/n]+1)*Pq,a+b*x^n,x],R=PolynomialRemainder[b^(Floor[(q-1)/n]+1)*Pq,a+b*x^n,x],i},
+  -x*R*(a+b*x^n)^(p+1)/(a*n*(p+1)*b^(Floor[(q-1)/n]+1)) + 
+  1/(a*n*(p+1)*b^(Floor[(q-1)/n]+1))*Int[(a+b*x^n)^(p+1)*ExpandToSum[a*n*(p+1)*Q+n*(p+1)*R+D[x*R,x],x],x]] /;
+ q>=n] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  Module[{Q=PolynomialQuotient[a*b^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n,x],
+          R=PolynomialRemainder[a*b^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n,x],i},
+  -x*R*(a+b*x^n)^(p+1)/(a^2*n*(p+1)*b^(Floor[(q-1)/n]+1)) + 
+  1/(a*n*(p+1)*b^(Floor[(q-1)/n]+1))*Int[x^m*(a+b*x^n)^(p+1)*
+    ExpandToSum[n*(p+1)*x^(-m)*Q+Sum[(n*(p+1)+i+1)/a*Coeff[R,x,i]*x^(i-m),{i,0,n-1}],x],x]]] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && NegativeIntegerQ[m]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{g=GCD[m+1,n]},
+  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a+b*x^(n/g))^p,x],x,x^g] /;
+ g!=1] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x^n] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  B^3/b*Int[1/(A^2-A*B*x+B^2*x^2),x] /;
+FreeQ[{a,b,A,B},x] && EqQ[a*B^3-b*A^3]
+
+
+Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
+  -r*(B*r-A*s)/(3*a*s)*Int[1/(r+s*x),x] + 
+  r/(3*a*s)*Int[(r*(B*r+2*A*s)+s*(B*r-A*s)*x)/(r^2-r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b,A,B},x] && NeQ[a*B^3-b*A^3] && PosQ[a/b]
+
+
+Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
+  r*(B*r+A*s)/(3*a*s)*Int[1/(r-s*x),x] - 
+  r/(3*a*s)*Int[(r*(B*r-2*A*s)-s*(B*r+A*s)*x)/(r^2+r*s*x+s^2*x^2),x]] /;
+FreeQ[{a,b,A,B},x] && NeQ[a*B^3-b*A^3] && NegQ[a/b]
+
+
+Int[(A_+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  -C^2/b*Int[1/(B-C*x),x] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[B^2-A*C] && EqQ[b*B^3+a*C^3]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/b^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A*b^(2/3)-a^(1/3)*b^(1/3)*B-2*a^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/b^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[a^(1/3)*b^(1/3)*B+2*a^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/b^(1/3)},
+  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A*b^(2/3)-2*a^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/(-b)^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A*(-b)^(2/3)-(-a)^(1/3)*(-b)^(1/3)*B-2*(-a)^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/(-b)^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[(-a)^(1/3)*(-b)^(1/3)*B+2*(-a)^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/(-b)^(1/3)},
+  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A*(-b)^(2/3)-2*(-a)^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/b^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A*b^(2/3)+(-a)^(1/3)*b^(1/3)*B-2*(-a)^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/b^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[(-a)^(1/3)*b^(1/3)*B-2*(-a)^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a)^(1/3)/b^(1/3)},
+  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A*b^(2/3)-2*(-a)^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/(-b)^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A*(-b)^(2/3)+a^(1/3)*(-b)^(1/3)*B-2*a^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/(-b)^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[a^(1/3)*(-b)^(1/3)*B-2*a^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=a^(1/3)/(-b)^(1/3)},
+  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A*(-b)^(2/3)-2*a^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A-(a/b)^(1/3)*B-2*(a/b)^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[(a/b)^(1/3)*B+2*(a/b)^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A-2*(a/b)^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[a/b,3]},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A-Rt[a/b,3]*B-2*Rt[a/b,3]^2*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[a/b,3]},
+  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[Rt[a/b,3]*B+2*Rt[a/b,3]^2*C]
+
+
+Int[(A_.+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[a/b,3]},
+  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A-2*Rt[a/b,3]^2*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A+(-a/b)^(1/3)*B-2*(-a/b)^(2/3)*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[(-a/b)^(1/3)*B-2*(-a/b)^(2/3)*C]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A-2*(-a/b)^(2/3)*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[-a/b,3]},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A+Rt[-a/b,3]*B-2*Rt[-a/b,3]^2*C]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[-a/b,3]},
+  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[Rt[-a/b,3]*B-2*Rt[-a/b,3]^2*C]
+
+
+Int[(A_.+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=Rt[-a/b,3]},
+  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A-2*Rt[-a/b,3]^2*C]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  Int[(A+B*x)/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
+FreeQ[{a,b,A,B,C},x] && (EqQ[a*B^3-b*A^3] || Not[RationalQ[a/b]])
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  B*Int[x/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
+FreeQ[{a,b,B,C},x] && Not[RationalQ[a/b]]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  A*Int[1/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
+FreeQ[{a,b,A,C},x] && Not[RationalQ[a,b,A,C]]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  q^2/a*Int[(A+C*q*x)/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A-B*(a/b)^(1/3)+C*(a/b)^(2/3)]
+
+
+Int[x_*(B_.+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  C*q^3/a*Int[x/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[B*(a/b)^(1/3)-C*(a/b)^(2/3)]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  q^2/a*Int[(A+C*q*x)/(q^2-q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A+C*(a/b)^(2/3)]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  q/a*Int[(A*q+(A+B*q)*x)/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A+B*(-a/b)^(1/3)+C*(-a/b)^(2/3)]
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  B*q^2/a*Int[x/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,B,C},x] && EqQ[B*(-a/b)^(1/3)+C*(-a/b)^(2/3)]
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  A*q/a*Int[(q+x)/(q^2+q*x+x^2),x]] /;
+FreeQ[{a,b,A,C},x] && EqQ[A+C*(-a/b)^(2/3)]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  q*(A-B*q+C*q^2)/(3*a)*Int[1/(q+x),x] + 
+  q/(3*a)*Int[(q*(2*A+B*q-C*q^2)-(A-B*q-2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
+ NeQ[A-B*q+C*q^2]] /;
+FreeQ[{a,b,A,B,C},x] && NeQ[a*B^3-b*A^3] && RationalQ[a/b] && a/b>0
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  -q*(B*q-C*q^2)/(3*a)*Int[1/(q+x),x] + 
+  q/(3*a)*Int[(q*(B*q-C*q^2)+(B*q+2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
+ NeQ[B*q-C*q^2]] /;
+FreeQ[{a,b,B,C},x] && RationalQ[a/b] && a/b>0
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(a/b)^(1/3)},
+  q*(A+C*q^2)/(3*a)*Int[1/(q+x),x] + 
+  q/(3*a)*Int[(q*(2*A-C*q^2)-(A-2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
+ NeQ[A+C*q^2]] /;
+FreeQ[{a,b,A,C},x] && RationalQ[a/b] && a/b>0
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  q*(A+B*q+C*q^2)/(3*a)*Int[1/(q-x),x] + 
+  q/(3*a)*Int[(q*(2*A-B*q-C*q^2)+(A+B*q-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
+ NeQ[A+B*q+C*q^2]] /;
+FreeQ[{a,b,A,B,C},x] && NeQ[a*B^3-b*A^3] && RationalQ[a/b] && a/b<0
+
+
+Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  q*(B*q+C*q^2)/(3*a)*Int[1/(q-x),x] + 
+  q/(3*a)*Int[(-q*(B*q+C*q^2)+(B*q-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
+ NeQ[B*q+C*q^2]] /;
+FreeQ[{a,b,B,C},x] && RationalQ[a/b] && a/b<0
+
+
+Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
+  With[{q=(-a/b)^(1/3)},
+  q*(A+C*q^2)/(3*a)*Int[1/(q-x),x] + 
+  q/(3*a)*Int[(q*(2*A-C*q^2)+(A-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
+ NeQ[A+C*q^2]] /;
+FreeQ[{a,b,A,C},x] && RationalQ[a/b] && a/b<0
+
+
+Int[(c_.*x_)^m_.*Pq_/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{v=Sum[(c*x)^(m+ii)*(Coeff[Pq,x,ii]+Coeff[Pq,x,n/2+ii]*x^(n/2))/(c^ii*(a+b*x^n)),{ii,0,n/2-1}]},
+  Int[v,x] /;
+ SumQ[v]] /;
+FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Expon[Pq,x]<n
+
+
+Int[Pq_/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{v=Sum[x^ii*(Coeff[Pq,x,ii]+Coeff[Pq,x,n/2+ii]*x^(n/2))/(a+b*x^n),{ii,0,n/2-1}]},
+  Int[v,x] /;
+ SumQ[v]] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Expon[Pq,x]<n
+
+
+(* Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  2*d*Sqrt[a+b*x^3]/(a*q^2*(1+Sqrt[3]+q*x)) + 
+  3^(1/4)*Sqrt[2-Sqrt[3]]*d*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/(q^2*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
+    EllipticE[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]] /;
+ EqQ[c*q-d*(1-Sqrt[3])]] /;
+FreeQ[{a,b,c,d},x] && PosQ[a] *)
+
+
+Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  2*d*s^3*Sqrt[a+b*x^3]/(a*r^2*((1+Sqrt[3])*s+r*x)) - 
+  3^(1/4)*Sqrt[2-Sqrt[3]]*d*s*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1+Sqrt[3])*s+r*x)^2]/
+    (r^2*Sqrt[a+b*x^3]*Sqrt[s*(s+r*x)/((1+Sqrt[3])*s+r*x)^2])*
+    EllipticE[ArcSin[((1-Sqrt[3])*s+r*x)/((1+Sqrt[3])*s+r*x)],-7-4*Sqrt[3]]] /;
+FreeQ[{a,b,c,d},x] && PosQ[a] && EqQ[c*Rt[b/a,3]-d*(1-Sqrt[3])]
+
+
+Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  (c*r-(1-Sqrt[3])*d*s)/r*Int[1/Sqrt[a+b*x^3],x] + d/r*Int[((1-Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
+FreeQ[{a,b,c,d},x] && PosQ[a] && NeQ[c*Rt[b/a,3]-d*(1-Sqrt[3])]
+
+
+Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  2*d*s^3*Sqrt[a+b*x^3]/(a*r^2*((1-Sqrt[3])*s+r*x)) + 
+  3^(1/4)*Sqrt[2+Sqrt[3]]*d*s*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1-Sqrt[3])*s+r*x)^2]/
+    (r^2*Sqrt[a+b*x^3]*Sqrt[-s*(s+r*x)/((1-Sqrt[3])*s+r*x)^2])*
+    EllipticE[ArcSin[((1+Sqrt[3])*s+r*x)/((1-Sqrt[3])*s+r*x)],-7+4*Sqrt[3]]] /;
+FreeQ[{a,b,c,d},x] && NegQ[a] && EqQ[c*Rt[b/a,3]-d*(1+Sqrt[3])]
+
+
+Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  (c*r-(1+Sqrt[3])*d*s)/r*Int[1/Sqrt[a+b*x^3],x] + d/r*Int[((1+Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
+FreeQ[{a,b,c,d},x] && NegQ[a] && NeQ[c*Rt[b/a,3]-d*(1+Sqrt[3])]
+
+
+Int[(c_+d_.*x_^4)/Sqrt[a_+b_.*x_^6],x_Symbol] :=
+  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
+  (1+Sqrt[3])*d*s^3*x*Sqrt[a+b*x^6]/(2*a*r^2*(s+(1+Sqrt[3])*r*x^2)) - 
+  3^(1/4)*d*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
+    (2*r^2*Sqrt[(r*x^2*(s+r*x^2))/(s+(1+Sqrt[3])*r*x^2)^2]*Sqrt[a+b*x^6])*
+    EllipticE[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
+FreeQ[{a,b,c,d},x] && EqQ[2*Rt[b/a,3]^2*c-(1-Sqrt[3])*d]
+
+
+Int[(c_+d_.*x_^4)/Sqrt[a_+b_.*x_^6],x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  (2*c*q^2-(1-Sqrt[3])*d)/(2*q^2)*Int[1/Sqrt[a+b*x^6],x] + d/(2*q^2)*Int[(1-Sqrt[3]+2*q^2*x^4)/Sqrt[a+b*x^6],x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[2*Rt[b/a,3]^2*c-(1-Sqrt[3])*d]
+
+
+Int[(c_+d_.*x_^2)/Sqrt[a_+b_.*x_^8],x_Symbol] :=
+  -c*d*x^3*Sqrt[-(c-d*x^2)^2/(c*d*x^2)]*Sqrt[-d^2*(a+b*x^8)/(b*c^2*x^4)]/(Sqrt[2+Sqrt[2]]*(c-d*x^2)*Sqrt[a+b*x^8])*
+    EllipticF[ArcSin[1/2*Sqrt[(Sqrt[2]*c^2+2*c*d*x^2+Sqrt[2]*d^2*x^4)/(c*d*x^2)]],-2*(1-Sqrt[2])] /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c^4-a*d^4]
+
+
+Int[(c_+d_.*x_^2)/Sqrt[a_+b_.*x_^8],x_Symbol] :=
+  (d+Rt[b/a,4]*c)/(2*Rt[b/a,4])*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] - 
+  (d-Rt[b/a,4]*c)/(2*Rt[b/a,4])*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c^4-a*d^4]
+
+
+Int[Pq_/(x_*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
+  Coeff[Pq,x,0]*Int[1/(x*Sqrt[a+b*x^n]),x] + 
+  Int[ExpandToSum[(Pq-Coeff[Pq,x,0])/x,x]/Sqrt[a+b*x^n],x] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && NeQ[Coeff[Pq,x,0]]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],j,k},
+  Int[Sum[(c*x)^(m+j)/c^j*Sum[Coeff[Pq,x,j+k*n/2]*x^(k*n/2),{k,0,2*(q-j)/n+1}]*(a+b*x^n)^p,{j,0,n/2-1}],x]] /;
+FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Not[PolyQ[Pq,x^(n/2)]]
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],j,k},
+  Int[Sum[x^j*Sum[Coeff[Pq,x,j+k*n/2]*x^(k*n/2),{k,0,2*(q-j)/n+1}]*(a+b*x^n)^p,{j,0,n/2-1}],x]] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Not[PolyQ[Pq,x^(n/2)]]
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  Coeff[Pq,x,n-1]*Int[x^(n-1)*(a+b*x^n)^p,x] + 
+  Int[ExpandToSum[Pq-Coeff[Pq,x,n-1]*x^(n-1),x]*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && Expon[Pq,x]==n-1
+
+
+Int[(c_.*x_)^m_.*Pq_/(a_+b_.*x_^n_),x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*Pq/(a+b*x^n),x],x] /;
+FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && IntegerQ[n]
+
+
+Int[Pq_/(a_+b_.*x_^n_),x_Symbol] :=
+  Int[ExpandIntegrand[Pq/(a+b*x^n),x],x] /;
+FreeQ[{a,b},x] && PolyQ[Pq,x] && IntegerQ[n]
+
+
+Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{Pq0=Coeff[Pq,x,0]},
+    Pq0*(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) + 
+    1/(2*a*c*(m+1))*Int[(c*x)^(m+1)*ExpandToSum[2*a*(m+1)*(Pq-Pq0)/x-2*b*Pq0*(m+n*(p+1)+1)*x^(n-1),x]*(a+b*x^n)^p,x] /;
+ NeQ[Pq0]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && n-1<=Expon[Pq,x]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    Pqq*(c*x)^(m+q-n+1)*(a+b*x^n)^(p+1)/(b*c^(q-n+1)*(m+q+n*p+1)) + 
+    1/(b*(m+q+n*p+1))*Int[(c*x)^m*ExpandToSum[b*(m+q+n*p+1)*(Pq-Pqq*x^q)-a*Pqq*(m+q-n+1)*x^(q-n),x]*(a+b*x^n)^p,x]] /;
+  NeQ[m+q+n*p+1] && q-n>=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
+FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n]
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    Pqq*x^(q-n+1)*(a+b*x^n)^(p+1)/(b*(q+n*p+1)) + 
+    1/(b*(q+n*p+1))*Int[ExpandToSum[b*(q+n*p+1)*(Pq-Pqq*x^q)-a*Pqq*(q-n+1)*x^(q-n),x]*(a+b*x^n)^p,x]] /;
+  NeQ[q+n*p+1] && q-n>=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  -Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n))^p/x^(m+q+2),x],x,1/x]] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{g=Denominator[m],q=Expon[Pq,x]},
+  -g/c*Subst[Int[ExpandToSum[x^(g*q)*ReplaceAll[Pq,x->c^(-1)*x^(-g)],x]*
+    (a+b*c^(-n)*x^(-g*n))^p/x^(g*(m+q+1)+1),x],x,1/(c*x)^(1/g)]] /;
+FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  -(c*x)^m*(x^(-1))^m*Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n))^p/x^(m+q+2),x],x,1/x]] /;
+FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g*(m+1)-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,m,p},x] && PolyQ[Pq,x] && FractionQ[n]
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,p},x] && PolyQ[Pq,x] && FractionQ[n]
+
+
+Int[(c_*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && FractionQ[n]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(c_*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
+  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*x_^m_.)*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  A*Int[(a+b*x^n)^p,x] + B*Int[x^m*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,A,B,m,n,p},x] && EqQ[m-n+1]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*Pq*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,m,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
+
+
+Int[Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
+
+
+Int[u_^m_.*Pq_*(a_+b_.*v_^n_.)^p_,x_Symbol] :=
+  u^m/(Coeff[v,x,1]*v^m)*Subst[Int[x^m*SubstFor[v,Pq,x]*(a+b*x^n)^p,x],x,v] /;
+FreeQ[{a,b,m,n,p},x] && LinearPairQ[u,v,x] && PolyQ[Pq,v^n]
+
+
+Int[Pq_*(a_+b_.*v_^n_.)^p_,x_Symbol] :=
+  1/Coeff[v,x,1]*Subst[Int[SubstFor[v,Pq,x]*(a+b*x^n)^p,x],x,v] /;
+FreeQ[{a,b,n,p},x] && LinearQ[v,x] && PolyQ[Pq,v^n]
+
+
+Int[(c_.*x_)^m_.*Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[(c*x)^m*Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
+
+
+Int[(c_.*x_)^m_.*Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
+  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*
+    Int[(c*x)^m*Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && Not[EqQ[n,1] && LinearQ[Pq,x]]
+
+
+Int[Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
+  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*
+    Int[Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
+FreeQ[{a1,b1,a2,b2,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && Not[EqQ[n,1] && LinearQ[Pq,x]]
+
+
+Int[(e_+f_.*x_^n_.+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
+  e*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c) /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[a*c*f-e*(b*c+a*d)*(n*(p+1)+1)] && EqQ[a*c*g-b*d*e*(2*n*(p+1)+1)]
+
+
+Int[(e_+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
+  e*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c) /;
+FreeQ[{a,b,c,d,e,g,n,p},x] && EqQ[n2-2*n] && EqQ[n*(p+1)+1] && EqQ[a*c*g-b*d*e*(2*n*(p+1)+1)]
+
+
+Int[(h_.*x_)^m_.*(e_+f_.*x_^n_.+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
+  e*(h*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c*h*(m+1)) /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[n2-2*n] && EqQ[a*c*f*(m+1)-e*(b*c+a*d)*(m+n*(p+1)+1)] && 
+  EqQ[a*c*g*(m+1)-b*d*e*(m+2*n*(p+1)+1)] && NeQ[m+1]
+
+
+Int[(h_.*x_)^m_.*(e_+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
+  e*(h*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c*h*(m+1)) /;
+FreeQ[{a,b,c,d,e,g,h,m,n,p},x] && EqQ[n2-2*n] && EqQ[m+n*(p+1)+1] && EqQ[a*c*g*(m+1)-b*d*e*(m+2*n*(p+1)+1)] && 
+  NeQ[m+1]
+
+
+Int[(A_+B_.*x_^m_.)*(a_.+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
+  A*Int[(a+b*x^n)^p*(c+d*x^n)^q,x] + B*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
+FreeQ[{a,b,c,d,A,B,m,n,p,q},x] && NeQ[b*c-a*d] && EqQ[m-n+1]
+
+
+Int[Px_^q_.*(a_.+b_.*(c_+d_.*x_)^n_)^p_,x_Symbol] :=
+  With[{k=Denominator[n]},
+  k/d*Subst[Int[SimplifyIntegrand[x^(k-1)*ReplaceAll[Px,x->x^k/d-c/d]^q*(a+b*x^(k*n))^p,x],x],x,(c+d*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,p},x] && PolynomialQ[Px,x] && IntegerQ[q] && RationalQ[n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.3.5 (d x)^m Pq(x) (a+b x^n+c x^(2 n))^p*)
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/n*Subst[Int[SubstFor[x^n,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && EqQ[Simplify[m-n+1]]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && PositiveIntegerQ[p]
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_^n_.+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*x*(a+b*x^n+c*x^(2*n))^(p+1)/a /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EqQ[a*e-b*d*(n*(p+1)+1)] && EqQ[a*f-c*d*(2*n*(p+1)+1)]
+
+
+Int[(d_+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*x*(a+b*x^n+c*x^(2*n))^(p+1)/a /;
+FreeQ[{a,b,c,d,f,n,p},x] && EqQ[n2-2*n] && EqQ[n*(p+1)+1] && EqQ[c*d+a*f]
+
+
+Int[(g_.*x_)^m_.*(d_+e_.*x_^n_.+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*(g*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*g*(m+1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[n2-2*n] && EqQ[a*e*(m+1)-b*d*(m+n*(p+1)+1)] && EqQ[a*f*(m+1)-c*d*(m+2*n*(p+1)+1)] && 
+  NeQ[m+1]
+
+
+Int[(g_.*x_)^m_.*(d_+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*(g*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*g*(m+1)) /;
+FreeQ[{a,b,c,d,f,g,m,n,p},x] && EqQ[n2-2*n] && EqQ[m+n*(p+1)+1] && EqQ[c*d+a*f] && NeQ[m+1]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*Int[(d*x)^m*Pq*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[b^2-4*a*c] && Not[IntegerQ[2*p]]
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*Int[Pq*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[b^2-4*a*c] && Not[IntegerQ[2*p]]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^n] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(d_*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]] && SumQ[Pq]
+
+
+Int[(d_+e_.*x_^n_+f_.*x_^n2_.+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  x*(a*d*(n+1)+(a*e-b*d*(n*(p+1)+1))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
+  EqQ[a^2*g*(n+1)-c*(n*(2*p+3)+1)*(a*e-b*d*(n*(p+1)+1))] && 
+  EqQ[a^2*f*(n+1)-a*c*d*(n+1)*(2*n*(p+1)+1)-b*(n*(p+2)+1)*(a*e-b*d*(n*(p+1)+1))]
+
+
+Int[(d_+f_.*x_^n2_.+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*x*(a*(n+1)-b*(n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
+FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
+  EqQ[a^2*g*(n+1)+c*b*d*(n*(2*p+3)+1)*(n*(p+1)+1)] && 
+  EqQ[a^2*f*(n+1)-a*c*d*(n+1)*(2*n*(p+1)+1)+b^2*d*(n*(p+2)+1)*(n*(p+1)+1)]
+
+
+Int[(d_+e_.*x_^n_+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  x*(a*d*(n+1)+(a*e-b*d*(n*(p+1)+1))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
+FreeQ[{a,b,c,d,e,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
+  EqQ[a^2*g*(n+1)-c*(n*(2*p+3)+1)*(a*e-b*d*(n*(p+1)+1))] && 
+  EqQ[a*c*d*(n+1)*(2*n*(p+1)+1)+b*(n*(p+2)+1)*(a*e-b*d*(n*(p+1)+1))]
+
+
+Int[(d_+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  d*x*(a*(n+1)-b*(n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
+FreeQ[{a,b,c,d,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
+  EqQ[a^2*g*(n+1)+c*b*d*(n*(2*p+3)+1)*(n*(p+1)+1)] && 
+  EqQ[a*c*d*(n+1)*(2*n*(p+1)+1)-b^2*d*(n*(p+2)+1)*(n*(p+1)+1)]
+
+
+Int[x_^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^s_.)/(a_+b_.*x_^n_.+c_.*x_^n2_.)^(3/2),x_Symbol] :=
+  -(2*c*(b*f-2*a*g)+2*h*(b^2-4*a*c)*x^(n/2)+2*c*(2*c*f-b*g)*x^n)/(c*n*(b^2-4*a*c)*Sqrt[a+b*x^n+c*x^(2*n)]) /;
+FreeQ[{a,b,c,e,f,g,h,m,n},x] && EqQ[n2-2*n] && EqQ[q-n/2] && EqQ[r-3*n/2] && EqQ[s-2*n] && 
+  NeQ[b^2-4*a*c] && EqQ[2*m-n+2] && EqQ[c*e+a*h]
+
+
+Int[(d_*x_)^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^s_.)/(a_+b_.*x_^n_.+c_.*x_^n2_.)^(3/2),x_Symbol] :=
+  (d*x)^m/x^m*Int[x^m*(e+f*x^(n/2)+g*x^((3*n)/2)+h*x^(2*n))/(a+b*x^n+c*x^(2*n))^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[n2-2*n] && EqQ[q-n/2] && EqQ[r-3*n/2] && EqQ[s-2*n] && 
+  NeQ[b^2-4*a*c] && EqQ[2*m-n+2] && EqQ[c*e+a*h]
+
+
+Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],i},
+  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c))*
+    Sum[((b^2-2*a*c)*Coeff[Pq,x,i]-a*b*Coeff[Pq,x,n+i])*x^i+
+      c*(b*Coeff[Pq,x,i]-2*a*Coeff[Pq,x,n+i])*x^(n+i),{i,0,n-1}] + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Sum[((b^2*(n*(p+1)+i+1)-2*a*c*(2*n*(p+1)+i+1))*Coeff[Pq,x,i]-a*b*(i+1)*Coeff[Pq,x,n+i])*x^i+
+      c*(n*(2*p+3)+i+1)*(b*Coeff[Pq,x,i]-2*a*Coeff[Pq,x,n+i])*x^(n+i),{i,0,n-1}],x] /;
+ q<2*n] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  Module[{Q=PolynomialQuotient[(b*c)^(Floor[(q-1)/n]+1)*Pq,a+b*x^n+c*x^(2*n),x],
+          R=PolynomialRemainder[(b*c)^(Floor[(q-1)/n]+1)*Pq,a+b*x^n+c*x^(2*n),x],i},
+  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*
+    Sum[((b^2-2*a*c)*Coeff[R,x,i]-a*b*Coeff[R,x,n+i])*x^i+
+      c*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}] + 
+  1/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*ExpandToSum[a*n*(p+1)*(b^2-4*a*c)*Q+
+    Sum[((b^2*(n*(p+1)+i+1)-2*a*c*(2*n*(p+1)+i+1))*Coeff[R,x,i]-a*b*(i+1)*Coeff[R,x,n+i])*x^i+
+     c*(n*(2*p+3)+i+1)*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}],x],x]] /;
+ q>=2*n] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x]},
+  Module[{Q=PolynomialQuotient[a*(b*c)^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n+c*x^(2*n),x],
+          R=PolynomialRemainder[a*(b*c)^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n+c*x^(2*n),x],i},
+  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*
+    Sum[((b^2-2*a*c)*Coeff[R,x,i]-a*b*Coeff[R,x,n+i])*x^i+
+      c*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}] + 
+  1/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*Int[x^m*(a+b*x^n+c*x^(2*n))^(p+1)*
+    ExpandToSum[n*(p+1)*(b^2-4*a*c)*x^(-m)*Q+
+      Sum[((b^2*(n*(p+1)+i+1)/a-2*c*(2*n*(p+1)+i+1))*Coeff[R,x,i]-b*(i+1)*Coeff[R,x,n+i])*x^(i-m)+
+       c*(n*(2*p+3)+i+1)*(b/a*Coeff[R,x,i]-2*Coeff[R,x,n+i])*x^(n+i-m),{i,0,n-1}],x],x]] /;
+ q>=2*n] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[p] && p<-1 && NegativeIntegerQ[m]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  With[{g=GCD[m+1,n]},
+  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a+b*x^(n/g)+c*x^(2*n/g))^p,x],x,x^g] /;
+ g!=1] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && NiceSqrtQ[b^2-4*a*c]
+
+
+Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_),x_Symbol] :=
+  Int[ExpandIntegrand[Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  (NiceSqrtQ[b^2-4*a*c] || Expon[Pq,x]<n)
+
+
+Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    c^p*Pqq*Log[a+b*x+c*x^2]/2 + 
+    1/2*Int[ExpandToSum[2*Pq-c^p*Pqq*(b+2*c*x)/(a+b*x+c*x^2)^(p+1),x]*(a+b*x+c*x^2)^p,x]] /;
+  q+2*p+1==0] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p]
+
+
+Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    c^p*Pqq*ArcTanh[(b+2*c*x)/(2*Rt[c,2]*Sqrt[a+b*x+c*x^2])] + 
+    Int[ExpandToSum[Pq-c^(p+1/2)*Pqq/(a+b*x+c*x^2)^(p+1/2),x]*(a+b*x+c*x^2)^p,x]] /;
+  q+2*p+1==0] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1/2] && PosQ[c]
+
+
+Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    -(-c)^p*Pqq*ArcTan[(b+2*c*x)/(2*Rt[-c,2]*Sqrt[a+b*x+c*x^2])] + 
+    Int[ExpandToSum[Pq-(-c)^(p+1/2)*Pqq/(a+b*x+c*x^2)^(p+1/2),x]*(a+b*x+c*x^2)^p,x]] /;
+  q+2*p+1==0] /;
+FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1/2] && NegQ[c]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    Pqq*(d*x)^(m+q-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*d^(q-2*n+1)*(m+q+2*n*p+1)) + 
+    Int[(d*x)^m*ExpandToSum[Pq-Pqq*x^q-Pqq*(a*(m+q-2*n+1)*x^(q-2*n)+b*(m+q+n*(p-1)+1)*x^(q-n))/(c*(m+q+2*n*p+1)),x]*
+      (a+b*x^n+c*x^(2*n))^p,x]] /;
+  q>=2*n && m+q+2*n*p+1!=0 && (IntegerQ[2*p] || n==1 && IntegerQ[4*p] || IntegerQ[p+(q+1)/(2*n)])] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+    With[{Pqq=Coeff[Pq,x,q]},
+    Pqq*x^(q-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(q+2*n*p+1)) + 
+    Int[ExpandToSum[Pq-Pqq*x^q-Pqq*(a*(q-2*n+1)*x^(q-2*n)+b*(q+n*(p-1)+1)*x^(q-n))/(c*(q+2*n*p+1)),x]*(a+b*x^n+c*x^(2*n))^p,x]] /;
+  q>=2*n && q+2*n*p+1!=0 && (IntegerQ[2*p] || n==1 && IntegerQ[4*p] || IntegerQ[p+(q+1)/(2*n)])] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],j,k},
+  Int[Sum[1/d^j*(d*x)^(m+j)*Sum[Coeff[Pq,x,j+k*n]*x^(k*n),{k,0,(q-j)/n+1}]*(a+b*x^n+c*x^(2*n))^p,{j,0,n-1}],x]] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[PolyQ[Pq,x^n]]
+
+
+Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  Module[{q=Expon[Pq,x],j,k},
+  Int[Sum[x^j*Sum[Coeff[Pq,x,j+k*n]*x^(k*n),{k,0,(q-j)/n+1}]*(a+b*x^n+c*x^(2*n))^p,{j,0,n-1}],x]] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[PolyQ[Pq,x^n]]
+
+
+Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
+  Int[RationalFunctionExpand[(d*x)^m*Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
+  Int[RationalFunctionExpand[Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  -Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+q+2),x],x,1/x]] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[m],q=Expon[Pq,x]},
+  -g/d*Subst[Int[ExpandToSum[x^(g*q)*ReplaceAll[Pq,x->d^(-1)*x^(-g)],x]*
+    (a+b*d^(-n)*x^(-g*n)+c*d^(-2*n)*x^(-2*g*n))^p/x^(g*(m+q+1)+1),x],x,1/(d*x)^(1/g)]] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(d_.*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{q=Expon[Pq,x]},
+  -(d*x)^m*(x^(-1))^m*Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+q+2),x],x,1/x]] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g*(m+1)-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  With[{g=Denominator[n]},
+  g*Subst[Int[x^(g-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
+FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^(m-1/2)*Sqrt[d*x]/Sqrt[x]*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n] && PositiveIntegerQ[m+1/2]
+
+
+Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  d^(m+1/2)*Sqrt[x]/Sqrt[d*x]*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n] && NegativeIntegerQ[m-1/2]
+
+
+Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
+
+
+Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  1/(m+1)*Subst[Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && 
+  Not[IntegerQ[n]]
+
+
+Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && 
+  Not[IntegerQ[n]]
+
+
+Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[(d*x)^m*Pq/(b-q+2*c*x^n),x] -
+  2*c/q*Int[(d*x)^m*Pq/(b+q+2*c*x^n),x]] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c]
+
+
+Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[Pq/(b-q+2*c*x^n),x] -
+  2*c/q*Int[Pq/(b+q+2*c*x^n),x]] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NegativeIntegerQ[p+1]
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NegativeIntegerQ[p+1]
+
+
+Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
+
+
+Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  Defer[Int][Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
+
+
+Int[u_^m_.*Pq_*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*SubstFor[v,Pq,x]*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x] && PolyQ[Pq,v^n]
+
+
+Int[Pq_*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
+  1/Coefficient[v,x,1]*Subst[Int[SubstFor[v,Pq,x]*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && LinearQ[v,x] && PolyQ[Pq,v^n]
+
+
+
+`)
+
+func resourcesRubi123GeneralTrinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi123GeneralTrinomialProductsM, nil
+}
+
+func resourcesRubi123GeneralTrinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi123GeneralTrinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.2.3 General trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi124ImproperTrinomialProductsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.2.4 Improper Trinomial Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.4.1 (a x^q+b x^n+c x^(2 n-q))^p*)
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  Int[((a+b+c)*x^n)^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n-q] && EqQ[r-n]
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  Int[x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && IntegerQ[p]
+
+
+Int[Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
+    Int[x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q]
+
+
+Int[1/Sqrt[a_.*x_^2+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  -2/(n-2)*Subst[Int[1/(4*a-x^2),x],x,x*(2*a+b*x^(n-2))/Sqrt[a*x^2+b*x^n+c*x^r]] /;
+FreeQ[{a,b,c,n,r},x] && EqQ[r,2*n-2] && PosQ[n-2] && NeQ[b^2-4*a*c,0]
+
+
+Int[1/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[1/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]),x] /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q]
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x*(a*x^q+b*x^n+c*x^(2*n-q))^p/(p*(2*n-q)+1) + 
+  (n-q)*p/(p*(2*n-q)+1)*
+    Int[x^q*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && 
+  NeQ[p*(2*n-q)+1]
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  -x^(-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(-q)*((p*q+1)*(b^2-2*a*c)+(n-q)*(p+1)*(b^2-4*a*c)+b*c*(p*q+(n-q)*(2*p+3)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  (a*x^q+b*x^n+c*x^(2*n-q))^p/(x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p)*
+    Int[x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]]
+
+
+Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  Defer[Int][(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)]
+
+
+Int[(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
+FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.4.2 (d x)^m (a x^q+b x^n+c x^(2 n-q))^p*)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
+  Int[x^m*((a+b+c)*x^n)^p,x] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[q-n] && EqQ[r-n]
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
+  Int[x^(m+p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,m,n,q},x] && EqQ[r-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
+
+
+Int[x_^m_./Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  -2/(n-q)*Subst[Int[1/(4*a-x^2),x],x,x^(m+1)*(2*a+b*x^(n-q))/Sqrt[a*x^q+b*x^n+c*x^r]] /;
+FreeQ[{a,b,c,m,n,q,r},x] && EqQ[r,2*n-q] && PosQ[n-q] && NeQ[b^2-4*a*c,0] && EqQ[m,q/2-1]
+
+
+Int[x_^m_./Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[x^(m-q/2)/Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
+FreeQ[{a,b,c,m,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && (EqQ[m-1] && EqQ[n-3] && EqQ[q-2]  ||  
+  (EqQ[m+1/2] || EqQ[m-3/2] || EqQ[m-1/2] || EqQ[m-5/2]) && EqQ[n-3] && EqQ[q-1])
+
+
+Int[x_^m_./(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^(3/2),x_Symbol] :=
+  -2*x^((n-1)/2)*(b+2*c*x)/((b^2-4*a*c)*Sqrt[a*x^(n-1)+b*x^n+c*x^(n+1)]) /;
+FreeQ[{a,b,c,n},x] && EqQ[m-3*(n-1)/2] && EqQ[q-n+1] && EqQ[r-n-1] && NeQ[b^2-4*a*c]
+
+
+Int[x_^m_./(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^(3/2),x_Symbol] :=
+  x^((n-1)/2)*(4*a+2*b*x)/((b^2-4*a*c)*Sqrt[a*x^(n-1)+b*x^n+c*x^(n+1)]) /;
+FreeQ[{a,b,c,n},x] && EqQ[m-(3*n-1)/2] && EqQ[q-n+1] && EqQ[r-n-1] && NeQ[b^2-4*a*c]
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-n)*(a*x^(n-1)+b*x^n+c*x^(n+1))^(p+1)/(2*c*(p+1)) - 
+  b/(2*c)*Int[x^(m-1)*(a*x^(n-1)+b*x^n+c*x^(n+1))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && m+p*(n-1)-1==0
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-n+q+1)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/(2*c*(n-q)*(2*p+1)) - 
+  p*(b^2-4*a*c)/(2*c*(2*p+1))*Int[x^(m+q)*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q+1==n-q
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-n+q+1)*(b*(n-q)*p+c*(m+p*q+(n-q)*(2*p-1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p-1)+1)) + 
+  (n-q)*p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p-1)+1))*
+    Int[x^(m-(n-2*q))*
+      Simp[-a*b*(m+p*q-n+q+1)+(2*a*c*(m+p*q+(n-q)*(2*p-1)+1)-b^2*(m+p*q+(n-q)*(p-1)+1))*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q+1>n-q && m+p*(2*n-q)+1!=0 && m+p*q+(n-q)*(2*p-1)+1!=0
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m+1)*(a*x^q+b*x^n+c*x^(2*n-q))^p/(m+p*q+1) - 
+  (n-q)*p/(m+p*q+1)*Int[x^(m+n)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q+1<=-(n-q)+1 && NeQ[m+p*q+1]
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m+1)*(a*x^q+b*x^n+c*x^(2*n-q))^p/(m+p*(2*n-q)+1) + 
+  (n-q)*p/(m+p*(2*n-q)+1)*Int[x^(m+q)*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q+1>-(n-q) && m+p*(2*n-q)+1!=0
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  -x^(m-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
+  (2*a*c-b^2*(p+2))/(a*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-q)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && m+p*q+1==-(n-q)*(2*p+3)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  -x^(m-2*n+q+1)*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/((n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-2*n+q)*(2*a*(m+p*q-2*(n-q)+1)+b*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && m+p*q+1>2*(n-q)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  -x^(m-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-q)*
+      (b^2*(m+p*q+(n-q)*(p+1)+1)-2*a*c*(m+p*q+2*(n-q)*(p+1)+1)+b*c*(m+p*q+(n-q)*(2*p+3)+1)*x^(n-q))*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && m+p*q+1<n-q
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-n+1)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) - 
+  1/((n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-n)*(b*(m+p*q-n+q+1)+2*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && n-q<m+p*q+1<2*(n-q)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-2*n+q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(2*c*(n-q)*(p+1)) - 
+  b/(2*c)*Int[x^(m-n+q)*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1==2*(n-q)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  -x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(2*a*(n-q)*(p+1)) - 
+  b/(2*a)*Int[x^(m+n-q)*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1==-2*(n-q)*(p+1)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-2*n+q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(c*(m+p*q+2*(n-q)*p+1)) - 
+  1/(c*(m+p*q+2*(n-q)*p+1))*
+    Int[x^(m-2*(n-q))*(a*(m+p*q-2*(n-q)+1)+b*(m+p*q+(n-q)*(p-1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1>2*(n-q)
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) - 
+  1/(a*(m+p*q+1))*
+    Int[x^(m+n-q)*(b*(m+p*q+(n-q)*(p+1)+1)+c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1<0
+
+
+Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  (a*x^q+b*x^n+c*x^(2*n-q))^p/(x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p)*
+    Int[x^(m+p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,m,n,p,q},x] && EqQ[r-(2*n-q)] && Not[IntegerQ[p]] && PosQ[n-q]
+
+
+Int[u_^m_.*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[x^m*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
+FreeQ[{a,b,c,m,n,p,q},x] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.4.3 (d+e x^(n-q)) (a x^q+b x^n+c x^(2 n-q))^p*)
+
+
+Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  Int[x^(p*q)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
+
+
+(* Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
+    Int[x^(q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && PositiveIntegerQ[p+1/2] *)
+
+
+(* Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[x^(q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && NegativeIntegerQ[p-1/2] *)
+
+
+(* Int[(A_+B_.*x_^j_.)*Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
+    Int[x^(q/2)*(A+B*x^(n-q))*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
+FreeQ[{a,b,c,A,B,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] *)
+
+
+Int[(A_+B_.*x_^j_.)/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[(A+B*x^(n-q))/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]),x] /;
+FreeQ[{a,b,c,A,B,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && 
+  EqQ[n-3] && EqQ[q-2]
+
+
+Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_,x_Symbol] :=
+  x*(b*B*(n-q)*p+A*c*(p*q+(n-q)*(2*p+1)+1)+B*c*(p*(2*n-q)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/
+    (c*(p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1)) + 
+  (n-q)*p/(c*(p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1))*
+    Int[x^q*
+      (2*a*A*c*(p*q+(n-q)*(2*p+1)+1)-a*b*B*(p*q+1)+(2*a*B*c*(p*(2*n-q)+1)+A*b*c*(p*q+(n-q)*(2*p+1)+1)-b^2*B*(p*q+(n-q)*p+1))*x^(n-q))*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && 
+  NeQ[p*(2*n-q)+1] && NeQ[p*q+(n-q)*(2*p+1)+1]
+
+
+Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_,x_Symbol] :=
+  With[{n=q+r},
+  x*(A*(p*q+(n-q)*(2*p+1)+1)+B*(p*(2*n-q)+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/((p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1)) + 
+  (n-q)*p/((p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1))*
+    Int[x^q*(2*a*A*(p*q+(n-q)*(2*p+1)+1)+(2*a*B*(p*(2*n-q)+1))*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
+ EqQ[j-(2*n-q)] && NeQ[p*(2*n-q)+1] && NeQ[p*q+(n-q)*(2*p+1)+1]] /;
+FreeQ[{a,c,A,B,q},x] && Not[IntegerQ[p]] && RationalQ[p] && p>0
+
+
+Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_,x_Symbol] :=
+  -x^(-q+1)*(A*b^2-a*b*B-2*a*A*c+(A*b-2*a*B)*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(-q)*
+      ((A*b^2*(p*q+(n-q)*(p+1)+1)-a*b*B*(p*q+1)-2*a*A*c*(p*q+2*(n-q)*(p+1)+1)+(p*q+(n-q)*(2*p+3)+1)*(A*b-2*a*B)*c*x^(n-q))*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1)),x] /;
+FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1
+
+
+Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_,x_Symbol] :=
+  With[{n=q+r},
+  -x^(-q+1)*(a*A*c+a*B*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(2*a*c)) + 
+  1/(a*(n-q)*(p+1)*(2*a*c))*
+    Int[x^(-q)*((a*A*c*(p*q+2*(n-q)*(p+1)+1)+a*B*c*(p*q+(n-q)*(2*p+3)+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)),x] /;
+ EqQ[j-(2*n-q)]] /;
+FreeQ[{a,c,A,B,q},x] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
+
+
+(* Int[(A_+B_.*x_^q_)*(a_.*x_^j_.+b_.*x_^k_.+c_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^k+c*x^n)^p/(x^(j*p)*(a+b*x^(k-j)+c*x^(2*(k-j)))^p)*
+    Int[x^(j*p)*(A+B*x^(k-j))*(a+b*x^(k-j)+c*x^(2*(k-j)))^p,x] /;
+FreeQ[{a,b,c,A,B,j,k,p},x] && EqQ[q-(k-j)] && EqQ[n-(2*k-j)] && PosQ[k-j] && Not[IntegerQ[p]] *)
+
+
+Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
+  Defer[Int][(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)]
+
+
+Int[(A_+B_.*u_^j_.)*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
+FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.2.4.4 (f x)^m (d+e x^(n-q)) (a x^q+b x^n+c x^(2 n-q))^p*)
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  Int[x^(m+p*q)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,m,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
+  (n-q)*p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(n+m)*
+      Simp[2*a*B*(m+p*q+1)-A*b*(m+p*q+(n-q)*(2*p+1)+1)+(b*B*(m+p*q+1)-2*A*c*(m+p*q+(n-q)*(2*p+1)+1))*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q<=-(n-q) && m+p*q+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
+  2*(n-q)*p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(n+m)*Simp[a*B*(m+p*q+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q<=-(n-q) && m+p*q+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p>0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  x^(m-n+1)*(A*b-2*a*B-(b*B-2*A*c)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/((n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-n)*
+      Simp[(m+p*q-n+q+1)*(2*a*B-A*b)+(m+p*q+2*(n-q)*(p+1)+1)*(b*B-2*A*c)*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && m+p*q>n-q-1
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  x^(m-n+1)*(a*B-A*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(2*a*c*(n-q)*(p+1)) - 
+  1/(2*a*c*(n-q)*(p+1))*
+    Int[x^(m-n)*Simp[a*B*(m+p*q-n+q+1)-A*c*(m+p*q+(n-q)*2*(p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p+1),x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>n-q-1] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p<-1
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  x^(m+1)*(b*B*(n-q)*p+A*c*(m+p*q+(n-q)*(2*p+1)+1)+B*c*(m+p*q+2*(n-q)*p+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/
+    (c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
+  (n-q)*p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(m+q)*
+      Simp[2*a*A*c*(m+p*q+(n-q)*(2*p+1)+1)-a*b*B*(m+p*q+1)+
+        (2*a*B*c*(m+p*q+2*(n-q)*p+1)+A*b*c*(m+p*q+(n-q)*(2*p+1)+1)-b^2*B*(m+p*q+(n-q)*p+1))*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p>0 && m+p*q>-(n-q)-1 && m+p*(2*n-q)+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+2*(n-q)*p+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/
+    ((m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
+  (n-q)*p/((m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(m+q)*Simp[2*a*A*(m+p*q+(n-q)*(2*p+1)+1)+2*a*B*(m+p*q+2*(n-q)*p+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>-(n-q) && m+p*q+2*(n-q)*p+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0 && m+1!=n] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p>0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  -x^(m-q+1)*(A*b^2-a*b*B-2*a*A*c+(A*b-2*a*B)*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
+  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
+    Int[x^(m-q)*
+      Simp[A*b^2*(m+p*q+(n-q)*(p+1)+1)-a*b*B*(m+p*q+1)-2*a*A*c*(m+p*q+2*(n-q)*(p+1)+1)+
+        (m+p*q+(n-q)*(2*p+3)+1)*(A*b-2*a*B)*c*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && p<-1 && m+p*q<n-q-1
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  -x^(m-q+1)*(A*c+B*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(2*a*c*(n-q)*(p+1)) + 
+  1/(2*a*c*(n-q)*(p+1))*
+    Int[x^(m-q)*Simp[A*c*(m+p*q+2*(n-q)*(p+1)+1)+B*(m+p*q+(n-q)*(2*p+3)+1)*c*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p+1),x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q<n-q-1] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p<-1
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  B*x^(m-n+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(c*(m+p*q+(n-q)*(2*p+1)+1)) - 
+  1/(c*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(m-n+q)*
+      Simp[a*B*(m+p*q-n+q+1)+(b*B*(m+p*q+(n-q)*p+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1))*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && -1<=p<0 && m+p*q>=n-q-1 && m+p*q+(n-q)*(2*p+1)+1!=0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  B*x^(m-n+1)*(a*x^q+c*x^(2*n-q))^(p+1)/(c*(m+p*q+(n-q)*(2*p+1)+1)) - 
+  1/(c*(m+p*q+(n-q)*(2*p+1)+1))*
+    Int[x^(m-n+q)*Simp[a*B*(m+p*q-n+q+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^p,x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>=n-q-1 && m+p*q+(n-q)*(2*p+1)+1!=0] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && -1<=p<0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  A*x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) + 
+  1/(a*(m+p*q+1))*
+    Int[x^(m+n-q)*
+      Simp[a*B*(m+p*q+1)-A*b*(m+p*q+(n-q)*(p+1)+1)-A*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q),x]*
+      (a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
+FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
+  RationalQ[m,p,q] && (-1<=p<0 || m+p*q+(n-q)*(2*p+1)+1==0) && m+p*q<=-(n-q) && m+p*q+1!=0
+
+
+Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  With[{n=q+r},
+  A*x^(m-q+1)*(a*x^q+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) + 
+  1/(a*(m+p*q+1))*
+    Int[x^(m+n-q)*Simp[a*B*(m+p*q+1)-A*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^p,x] /;
+ EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && (-1<=p<0 || m+p*q+(n-q)*(2*p+1)+1==0) && m+p*q<=-(n-q) && m+p*q+1!=0] /;
+FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q]
+
+
+Int[x_^m_.*(A_+B_.*x_^j_.)/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[x^(m-q/2)*(A+B*x^(n-q))/Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
+FreeQ[{a,b,c,A,B,m,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && 
+	(EqQ[m-1/2] || EqQ[m+1/2]) && EqQ[n-3] && EqQ[q-1]
+
+
+(* Int[x_^m_.*(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
+    Int[x^(m+q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PositiveIntegerQ[p+1/2] && PosQ[n-q] *)
+
+
+(* Int[x_^m_.*(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
+  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
+    Int[x^(m+q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
+FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && NegativeIntegerQ[p-1/2] && PosQ[n-q] *)
+
+
+Int[x_^m_.*(A_+B_.*x_^q_)*(a_.*x_^j_.+b_.*x_^k_.+c_.*x_^n_.)^p_,x_Symbol] :=
+  (a*x^j+b*x^k+c*x^n)^p/(x^(j*p)*(a+b*x^(k-j)+c*x^(2*(k-j)))^p)*
+    Int[x^(m+j*p)*(A+B*x^(k-j))*(a+b*x^(k-j)+c*x^(2*(k-j)))^p,x] /;
+FreeQ[{a,b,c,A,B,j,k,m,p},x] && EqQ[q-(k-j)] && EqQ[n-(2*k-j)] && Not[IntegerQ[p]] && PosQ[k-j]
+
+
+Int[u_^m_.*(A_+B_.*u_^j_.)*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[x^m*(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
+FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
+
+
+
+`)
+
+func resourcesRubi124ImproperTrinomialProductsMBytes() ([]byte, error) {
+	return _resourcesRubi124ImproperTrinomialProductsM, nil
+}
+
+func resourcesRubi124ImproperTrinomialProductsM() (*asset, error) {
+	bytes, err := resourcesRubi124ImproperTrinomialProductsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.2.4 Improper trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi13MiscellaneousAlgebraicFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*1.3 Miscellaneous Algebraic Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*1.3.1 u (a+b x+c x^2+d x^3)^p*)
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*a^(2*p))*Int[(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
+FreeQ[{a,b,d},x] && IntegerQ[p] && EqQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandToSum[(a+b*x+d*x^3)^p,x],x] /;
+FreeQ[{a,b,d},x] && PositiveIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+b*x+d*x^3]},
+  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,b,d},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
+FreeQ[{a,b,d},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  (a+b*x+d*x^3)^p/((3*a-b*x)^p*(3*a+2*b*x)^(2*p))*Int[(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
+FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && EqQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+b*x+d*x^3],x]},
+  (a+b*x+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
+  (a+b*x+d*x^3)^p/(((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p)*
+    Int[((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
+FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*a^(2*p))*Int[(e+f*x)^m*(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
+FreeQ[{a,b,d,e,f,m},x] && IntegerQ[p] && EqQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(e+f*x)^m*(a+b*x+d*x^3)^p,x],x] /;
+FreeQ[{a,b,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+b*x+d*x^3]},
+  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,b,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[(e+f*x)^m*((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
+FreeQ[{a,b,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  (a+b*x+d*x^3)^p/((3*a-b*x)^p*(3*a+2*b*x)^(2*p))*Int[(e+f*x)^m*(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
+FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+b*x+d*x^3],x]},
+  (a+b*x+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
+  (a+b*x+d*x^3)^p/(((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p)*
+    Int[(e+f*x)^m*((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
+      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
+FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  -1/(3^(3*p)*d^(2*p))*Int[(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
+FreeQ[{a,c,d},x] && IntegerQ[p] && EqQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandToSum[(a+c*x^2+d*x^3)^p,x],x] /;
+FreeQ[{a,c,d},x] && PositiveIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+c*x^2+d*x^3]},
+  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,c,d},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,c,d},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  (a+c*x^2+d*x^3)^p/((c-3*d*x)^p*(2*c+3*d*x)^(2*p))*Int[(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
+FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && EqQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+c*x^2+d*x^3],x]},
+  (a+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
+  (a+c*x^2+d*x^3)^p/((c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
+    Int[(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  -1/(3^(3*p)*d^(2*p))*Int[(e+f*x)^m*(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
+FreeQ[{a,c,d,e,f,m},x] && IntegerQ[p] && EqQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(e+f*x)^m*(a+c*x^2+d*x^3)^p,x],x] /;
+FreeQ[{a,c,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+c*x^2+d*x^3]},
+  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[(e+f*x)^m*(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  (a+c*x^2+d*x^3)^p/((c-3*d*x)^p*(2*c+3*d*x)^(2*p))*Int[(e+f*x)^m*(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
+FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+c*x^2+d*x^3],x]},
+  (a+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
+  (a+c*x^2+d*x^3)^p/((c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
+    Int[(e+f*x)^m*(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^p*b^p*c^p)*Int[(b+c*x)^(3*p),x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^p*b^p*c^p)*Subst[Int[(3*a*b*c-b^3+c^3*x^3)^p,x],x,x+c/(3*d)] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[b^3-3*a*b*c,3]},
+  1/(3^p*b^p*c^p)*Int[(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[c^3-3*b*c*d,3]},
+  1/(3^p*b^p*c^p)*Int[(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandToSum[(a+b*x+c*x^2+d*x^3)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+b*x+c*x^2+d*x^3]},
+  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  (a+b*x+c*x^2+d*x^3)^p/(b+c*x)^(3*p)*Int[(b+c*x)^(3*p),x] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[b^3-3*a*b*c,3]},
+  (a+b*x+c*x^2+d*x^3)^p/((b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p)*
+    Int[(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[c^3-3*b*c*d,3]},
+  (a+b*x+c*x^2+d*x^3)^p/((b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p)*
+    Int[(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+b*x+c*x^2+d*x^3],x]},
+  (a+b*x+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] *)
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
+  (a+b*x+c*x^2+d*x^3)^p/
+    ((c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
+    Int[(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[u_^p_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^p,x] /;
+FreeQ[p,x] && PolyQ[u,x,3] && Not[CubicMatchQ[u,x]]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b+c*x)^(3*p),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[b^3-3*a*b*c,3]},
+  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[c^3-3*b*c*d,3]},
+  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  Int[ExpandIntegrand[(e+f*x)^m*(a+b*x+c*x^2+d*x^3)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=Factor[a+b*x+c*x^2+d*x^3]},
+  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
+ ProductQ[NonfreeFactors[u,x]]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+(* Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
+  1/(3^(3*p)*d^(2*p))*
+    Int[(e+f*x)^m*(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  (a+b*x+c*x^2+d*x^3)^p/(b+c*x)^(3*p)*Int[(e+f*x)^m*(b+c*x)^(3*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[b^3-3*a*b*c,3]},
+  (a+b*x+c*x^2+d*x^3)^p/((b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p)*
+    Int[(e+f*x)^m*(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[c^3-3*b*c*d,3]},
+  (a+b*x+c*x^2+d*x^3)^p/((b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p)*
+    Int[(e+f*x)^m*(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{u=NonfreeFactors[Factor[a+b*x+c*x^2+d*x^3],x]},
+  (a+b*x+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
+ ProductQ[u]] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+(* Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] *)
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
+  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
+  (a+b*x+c*x^2+d*x^3)^p/
+    ((c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
+    Int[(e+f*x)^m*(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
+      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
+
+
+Int[u_^m_.*v_^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p,x] /;
+FreeQ[{m,p},x] && LinearQ[u,x] && PolyQ[v,x,3] && Not[LinearMatchQ[u,x] && CubicMatchQ[v,x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.3.2 u (a+b x+c x^2+d x^3+e x^4)^p*)
+
+
+Int[(f_+g_.*x_^2)/((d_+e_.*x_+d_.*x_^2)*Sqrt[a_+b_.*x_+c_.*x_^2+b_.*x_^3+a_.*x_^4]),x_Symbol] :=
+  a*f/(d*Rt[a^2*(2*a-c),2])*ArcTan[(a*b+(4*a^2+b^2-2*a*c)*x+a*b*x^2)/(2*Rt[a^2*(2*a-c),2]*Sqrt[a+b*x+c*x^2+b*x^3+a*x^4])] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*d-a*e] && EqQ[f+g] && PosQ[a^2*(2*a-c)]
+
+
+Int[(f_+g_.*x_^2)/((d_+e_.*x_+d_.*x_^2)*Sqrt[a_+b_.*x_+c_.*x_^2+b_.*x_^3+a_.*x_^4]),x_Symbol] :=
+  -a*f/(d*Rt[-a^2*(2*a-c),2])*ArcTanh[(a*b+(4*a^2+b^2-2*a*c)*x+a*b*x^2)/(2*Rt[-a^2*(2*a-c),2]*Sqrt[a+b*x+c*x^2+b*x^3+a*x^4])] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*d-a*e] && EqQ[f+g] && NegQ[a^2*(2*a-c)]
+
+
+Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
+  Subst[Int[SimplifyIntegrand[(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[d^3-4*c*d*e+8*b*e^2] && p=!=2 && p=!=3
+
+
+Int[v_^p_,x_Symbol] :=
+  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
+  Subst[Int[SimplifyIntegrand[(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
+ EqQ[d^3-4*c*d*e+8*b*e^2] && NeQ[d]] /;
+FreeQ[p,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && p=!=2 && p=!=3
+
+
+Int[u_*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
+  Subst[Int[SimplifyIntegrand[ReplaceAll[u,x->-d/(4*e)+x]*(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
+FreeQ[{a,b,c,d,e,p},x] && PolynomialQ[u,x] && EqQ[d^3-4*c*d*e+8*b*e^2] && Not[PositiveIntegerQ[p]]
+
+
+Int[u_*v_^p_,x_Symbol] :=
+  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
+  Subst[Int[SimplifyIntegrand[ReplaceAll[u,x->-d/(4*e)+x]*(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
+ EqQ[d^3-4*c*d*e+8*b*e^2] && NeQ[d]] /;
+FreeQ[p,x] && PolynomialQ[u,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && Not[PositiveIntegerQ[p]]
+
+
+Int[(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
+  -16*a^2*Subst[
+    Int[1/(b-4*a*x)^2*(a*(-3*b^4+16*a*b^2*c-64*a^2*b*d+256*a^3*e-32*a^2*(3*b^2-8*a*c)*x^2+256*a^4*x^4)/(b-4*a*x)^4)^p,x],x,b/(4*a)+1/x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[b^3-4*a*b*c+8*a^2*d] && IntegerQ[2*p]
+
+
+Int[v_^p_,x_Symbol] :=
+  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
+  -16*a^2*Subst[
+    Int[1/(b-4*a*x)^2*(a*(-3*b^4+16*a*b^2*c-64*a^2*b*d+256*a^3*e-32*a^2*(3*b^2-8*a*c)*x^2+256*a^4*x^4)/(b-4*a*x)^4)^p,x],x,b/(4*a)+1/x] /;
+ NeQ[a] && NeQ[b] && EqQ[b^3-4*a*b*c+8*a^2*d]] /;
+FreeQ[p,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && IntegerQ[2*p]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
+  1/q*Int[(b*A-2*a*B+2*a*D+A*q+(2*a*A-2*a*C+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
+  1/q*Int[(b*A-2*a*B+2*a*D-A*q+(2*a*A-2*a*C+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
+FreeQ[{a,b,c,A,B,C,D},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
+
+
+Int[(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
+  1/q*Int[(b*A-2*a*B+2*a*D+A*q+(2*a*A+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
+  1/q*Int[(b*A-2*a*B+2*a*D-A*q+(2*a*A+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
+FreeQ[{a,b,c,A,B,D},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
+
+
+Int[x_^m_.*(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
+  1/q*Int[x^m*(b*A-2*a*B+2*a*D+A*q+(2*a*A-2*a*C+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
+  1/q*Int[x^m*(b*A-2*a*B+2*a*D-A*q+(2*a*A-2*a*C+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
+FreeQ[{a,b,c,A,B,C,D,m},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
+
+
+Int[x_^m_.*(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
+  1/q*Int[x^m*(b*A-2*a*B+2*a*D+A*q+(2*a*A+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
+  1/q*Int[x^m*(b*A-2*a*B+2*a*D-A*q+(2*a*A+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
+FreeQ[{a,b,c,A,B,D,m},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Rt[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e)),2]},
+  -2*C^2/q*ArcTanh[(C*d-B*e+2*C*e*x)/q] + 
+  2*C^2/q*ArcTanh[C*(4*B*c*C-3*B^2*d-4*A*C*d+12*A*B*e+4*C*(2*c*C-B*d+2*A*e)*x+4*C*(2*C*d-B*e)*x^2+8*C^2*e*x^3)/(q*(B^2-4*A*C))]] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B^2*d+2*C*(b*C+A*d)-2*B*(c*C+2*A*e)] && 
+  EqQ[2*B^2*c*C-8*a*C^3-B^3*d-4*A*B*C*d+4*A*(B^2+2*A*C)*e] && PosQ[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e))]
+
+
+Int[(A_.+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Rt[C*(-8*A*e^2+C*(d^2-4*c*e)),2]},
+  -2*C^2/q*ArcTanh[C*(d+2*e*x)/q] + 2*C^2/q*ArcTanh[C*(A*d-2*(c*C+A*e)*x-2*C*d*x^2-2*C*e*x^3)/(A*q)]] /;
+FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b*C+A*d] && EqQ[a*C^2-A^2*e] && PosQ[C*(-8*A*e^2+C*(d^2-4*c*e))]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e)),2]},
+  2*C^2/q*ArcTan[(C*d-B*e+2*C*e*x)/q] - 
+  2*C^2/q*ArcTan[C*(4*B*c*C-3*B^2*d-4*A*C*d+12*A*B*e+4*C*(2*c*C-B*d+2*A*e)*x+4*C*(2*C*d-B*e)*x^2+8*C^2*e*x^3)/(q*(B^2-4*A*C))]] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B^2*d+2*C*(b*C+A*d)-2*B*(c*C+2*A*e)] && 
+  EqQ[2*B^2*c*C-8*a*C^3-B^3*d-4*A*B*C*d+4*A*(B^2+2*A*C)*e] && NegQ[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e))]
+
+
+Int[(A_.+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  With[{q=Rt[-C*(-8*A*e^2+C*(d^2-4*c*e)),2]},
+  2*C^2/q*ArcTan[(C*d+2*C*e*x)/q] - 2*C^2/q*ArcTan[-C*(-A*d+2*(c*C+A*e)*x+2*C*d*x^2+2*C*e*x^3)/(A*q)]] /;
+FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b*C+A*d] && EqQ[a*C^2-A^2*e] && NegQ[C*(-8*A*e^2+C*(d^2-4*c*e))]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  D/(4*e)*Log[a+b*x+c*x^2+d*x^3+e*x^4] - 
+  1/(4*e)*Int[(b*D-4*A*e+2*(c*D-2*B*e)*x+(3*d*D-4*C*e)*x^2)/(a+b*x+c*x^2+d*x^3+e*x^4),x] /;
+FreeQ[{a,b,c,d,e,A,B,C,D},x] && 
+  EqQ[4*d*(c*D-2*B*e)^2+8*(3*d*D-4*C*e)*(b*d*D-b*C*e-A*d*e)-4*(c*D-2*B*e)*(3*c*d*D-4*c*C*e+2*b*D*e-8*A*e^2)] && 
+  EqQ[8*d*(c*D-2*B*e)^3+8*d*(b*D-4*A*e)*(c*D-2*B*e)*(3*d*D-4*C*e)+8*a*(3*d*D-4*C*e)^3-8*c*(c*D-2*B*e)^2*(3*d*D-4*C*e)-
+    4*e*(b*D-4*A*e)*(4*(c*D-2*B*e)^2+2*(b*D-4*A*e)*(3*d*D-4*C*e))]
+
+
+Int[(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
+  D/(4*e)*Log[a+b*x+c*x^2+d*x^3+e*x^4] - 
+  1/(4*e)*Int[(b*D-4*A*e+2*(c*D-2*B*e)*x+(3*d*D)*x^2)/(a+b*x+c*x^2+d*x^3+e*x^4),x] /;
+FreeQ[{a,b,c,d,e,A,B,D},x] && 
+  EqQ[c^2*d*D^2+2*(3*d*D-4*C*e)*(b*d*D-b*C*e-A*d*e)-c*D*(3*c*d*D-4*c*C*e+2*b*D*e-8*A*e^2)] && 
+  EqQ[54*a*d^3*D^3+6*d^2*D*(b*D-4*A*e)*(c*D-2*B*e)-6*c*d*D*(c*D-2*B*e)^2+2*d*(c*D-2*B*e)^3-
+    e*(b*D-4*A*e)*(6*d*D*(b*D-4*A*e)+4*(c*D-2*B*e)^2)]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*1.3.3 Miscellaneous algebraic functions*)
+
+
+Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  c/(e*(b*c-a*d))*Int[(u*Sqrt[a+b*x])/x,x] - a/(f*(b*c-a*d))*Int[(u*Sqrt[c+d*x])/x,x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a*e^2-c*f^2]
+
+
+Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  -d/(e*(b*c-a*d))*Int[u*Sqrt[a+b*x],x] + b/(f*(b*c-a*d))*Int[u*Sqrt[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[b*e^2-d*f^2]
+
+
+Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
+  e*Int[(u*Sqrt[a+b*x])/(a*e^2-c*f^2+(b*e^2-d*f^2)*x),x] - 
+  f*Int[(u*Sqrt[c+d*x])/(a*e^2-c*f^2+(b*e^2-d*f^2)*x),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a*e^2-c*f^2] && NeQ[b*e^2-d*f^2]
+
+
+Int[u_./(d_.*x_^n_.+c_.*Sqrt[a_.+b_.*x_^p_.]),x_Symbol] :=
+  -b/(a*d)*Int[u*x^n,x] + 1/(a*c)*Int[u*Sqrt[a+b*x^(2*n)],x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[p-2*n] && EqQ[b*c^2-d^2]
+
+
+Int[x_^m_./(d_.*x_^n_.+c_.*Sqrt[a_.+b_.*x_^p_.]),x_Symbol] :=
+  -d*Int[x^(m+n)/(a*c^2+(b*c^2-d^2)*x^(2*n)),x] + 
+  c*Int[(x^m*Sqrt[a+b*x^(2*n)])/(a*c^2+(b*c^2-d^2)*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[p-2*n] && NeQ[b*c^2-d^2]
+
+
+Int[1/((a_+b_.*x_^3)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
+  r/(3*a)*Int[1/((r+s*x)*Sqrt[d+e*x+f*x^2]),x] +
+  r/(3*a)*Int[(2*r-s*x)/((r^2-r*s*x+s^2*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,d,e,f},x] && PosQ[a/b]
+
+
+Int[1/((a_+b_.*x_^3)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
+  r/(3*a)*Int[1/((r+s*x)*Sqrt[d+f*x^2]),x] +
+  r/(3*a)*Int[(2*r-s*x)/((r^2-r*s*x+s^2*x^2)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,d,f},x] && PosQ[a/b]
+
+
+Int[1/((a_+b_.*x_^3)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
+  r/(3*a)*Int[1/((r-s*x)*Sqrt[d+e*x+f*x^2]),x] +
+  r/(3*a)*Int[(2*r+s*x)/((r^2+r*s*x+s^2*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
+FreeQ[{a,b,d,e,f},x] && NegQ[a/b]
+
+
+Int[1/((a_+b_.*x_^3)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
+  r/(3*a)*Int[1/((r-s*x)*Sqrt[d+f*x^2]),x] +
+  r/(3*a)*Int[(2*r+s*x)/((r^2+r*s*x+s^2*x^2)*Sqrt[d+f*x^2]),x]] /;
+FreeQ[{a,b,d,f},x] && NegQ[a/b]
+
+
+Int[1/((d_+e_.*x_)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  d*Int[1/((d^2-e^2*x^2)*Sqrt[a+b*x^2+c*x^4]),x] - e*Int[x/((d^2-e^2*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[1/((d_+e_.*x_)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  d*Int[1/((d^2-e^2*x^2)*Sqrt[a+c*x^4]),x] - e*Int[x/((d^2-e^2*x^2)*Sqrt[a+c*x^4]),x] /;
+FreeQ[{a,c,d,e},x]
+
+
+Int[1/((d_+e_.*x_)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  -e^3*Sqrt[a+b*x^2+c*x^4]/((c*d^4+b*d^2*e^2+a*e^4)*(d+e*x)) - 
+  c/(c*d^4+b*d^2*e^2+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[c*d^4+b*d^2*e^2+a*e^4] && EqQ[2*c*d^3+b*d*e^2]
+
+
+Int[1/((d_+e_.*x_)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  -e^3*Sqrt[a+b*x^2+c*x^4]/((c*d^4+b*d^2*e^2+a*e^4)*(d+e*x)) - 
+  c/(c*d^4+b*d^2*e^2+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
+  (2*c*d^3+b*d*e^2)/(c*d^4+b*d^2*e^2+a*e^4)*Int[1/((d+e*x)*Sqrt[a+b*x^2+c*x^4]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[c*d^4+b*d^2*e^2+a*e^4] && NeQ[2*c*d^3+b*d*e^2]
+
+
+Int[1/((d_+e_.*x_)^2*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  -e^3*Sqrt[a+c*x^4]/((c*d^4+a*e^4)*(d+e*x)) - 
+  c/(c*d^4+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+c*x^4],x] + 
+  2*c*d^3/(c*d^4+a*e^4)*Int[1/((d+e*x)*Sqrt[a+c*x^4]),x] /;
+FreeQ[{a,c,d,e},x] && NeQ[c*d^4+a*e^4]
+
+
+Int[(A_+B_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  A*Subst[Int[1/(d-(b*d-2*a*e)*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[B*d+A*e] && EqQ[c*d^2-a*e^2]
+
+
+Int[(A_+B_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  A*Subst[Int[1/(d+2*a*e*x^2),x],x,x/Sqrt[a+c*x^4]] /;
+FreeQ[{a,c,d,e,A,B},x] && EqQ[B*d+A*e] && EqQ[c*d^2-a*e^2]
+
+
+Int[(A_+B_.*x_^4)/((d_+e_.*x_^2+f_.*x_^4)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  A*Subst[Int[1/(d-(b*d-a*e)*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
+
+
+Int[(A_+B_.*x_^4)/((d_+e_.*x_^2+f_.*x_^4)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
+  A*Subst[Int[1/(d+a*e*x^2),x],x,x/Sqrt[a+c*x^4]] /;
+FreeQ[{a,c,d,e,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
+
+
+Int[(A_+B_.*x_^4)/((d_+f_.*x_^4)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
+  A*Subst[Int[1/(d-b*d*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
+FreeQ[{a,b,c,d,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^4),x_Symbol] :=
+  a/d*Subst[Int[1/(1-2*b*x^2+(b^2-4*a*c)*x^4),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d+a*e] && PosQ[a*c]
+
+
+Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^4),x_Symbol] :=
+  With[{q=Sqrt[b^2-4*a*c]},
+  -a*Sqrt[b+q]/(2*Sqrt[2]*Rt[-a*c,2]*d)*ArcTan[Sqrt[b+q]*x*(b-q+2*c*x^2)/(2*Sqrt[2]*Rt[-a*c,2]*Sqrt[a+b*x^2+c*x^4])] + 
+  a*Sqrt[-b+q]/(2*Sqrt[2]*Rt[-a*c,2]*d)*ArcTanh[Sqrt[-b+q]*x*(b+q+2*c*x^2)/(2*Sqrt[2]*Rt[-a*c,2]*Sqrt[a+b*x^2+c*x^4])]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c*d+a*e] && NegQ[a*c]
+
+
+Int[1/((a_+b_.*x_)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
+  a*Int[1/((a^2-b^2*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - b*Int[x/((a^2-b^2*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x]
+
+
+Int[(g_.+h_.*x_)*Sqrt[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
+  2*(f*(5*b*c*g^2-2*b^2*g*h-3*a*c*g*h+2*a*b*h^2)+c*f*(10*c*g^2-b*g*h+a*h^2)*x+9*c^2*f*g*h*x^2+3*c^2*f*h^2*x^3-
+    (e*g-d*h)*(5*c*g-2*b*h+c*h*x)*Sqrt[a+b*x+c*x^2])/
+  (15*c^2*f*(g+h*x))*Sqrt[d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[(e*g-d*h)^2-f^2*(c*g^2-b*g*h+a*h^2)] && EqQ[2*e^2*g-2*d*e*h-f^2*(2*c*g-b*h)]
+
+
+Int[(g_.+h_.*x_)^m_.*(u_+f_.*(j_.+k_.*Sqrt[v_]))^n_.,x_Symbol] :=
+  Int[(g+h*x)^m*(ExpandToSum[u+f*j,x]+f*k*Sqrt[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{f,g,h,j,k,m,n},x] && LinearQ[u,x] && QuadraticQ[v,x] && 
+  Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x] && (EqQ[j] || EqQ[f-1])] && 
+  EqQ[(Coefficient[u,x,1]*g-h*(Coefficient[u,x,0]+f*j))^2-f^2*k^2*(Coefficient[v,x,2]*g^2-Coefficient[v,x,1]*g*h+Coefficient[v,x,0]*h^2)]
+
+
+(* Int[1/(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
+  Int[(d+e*x)/(d^2-a*f^2+(2*d*e-b*f^2)*x),x] - 
+  f*Int[Sqrt[a+b*x+c*x^2]/(d^2-a*f^2+(2*d*e-b*f^2)*x),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e^2-c*f^2] *)
+
+
+(* Int[1/(d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]),x_Symbol] :=
+  Int[(d+e*x)/(d^2-a*f^2+2*d*e*x),x] - 
+  f*Int[Sqrt[a+c*x^2]/(d^2-a*f^2+2*d*e*x),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[e^2-c*f^2] *)
+
+
+Int[(g_.+h_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_)^p_.,x_Symbol] :=
+  2*Subst[Int[(g+h*x^n)^p*(d^2*e-(b*d-a*e)*f^2-(2*d*e-b*f^2)*x+e*x^2)/(-2*d*e+b*f^2+2*e*x)^2,x],x,d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[p]
+
+
+Int[(g_.+h_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_)^p_.,x_Symbol] :=
+  1/(2*e)*Subst[Int[(g+h*x^n)^p*(d^2+a*f^2-2*d*x+x^2)/(d-x)^2,x],x,d+e*x+f*Sqrt[a+c*x^2]] /;
+FreeQ[{a,c,d,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[p]
+
+
+Int[(g_.+h_.*(u_+f_. Sqrt[v_])^n_)^p_.,x_Symbol] :=
+  Int[(g+h*(ExpandToSum[u,x]+f*Sqrt[ExpandToSum[v,x]])^n)^p,x] /;
+FreeQ[{f,g,h,n},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]] && 
+  EqQ[Coefficient[u,x,1]^2-Coefficient[v,x,2]*f^2] && IntegerQ[p]
+
+
+Int[(g_.+h_.*x_)^m_.*(e_.*x_+f_.*Sqrt[a_.+c_.*x_^2])^n_.,x_Symbol] :=
+  1/(2^(m+1)*e^(m+1))*Subst[Int[x^(n-m-2)*(a*f^2+x^2)*(-a*f^2*h+2*e*g*x+h*x^2)^m,x],x,e*x+f*Sqrt[a+c*x^2]] /;
+FreeQ[{a,c,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[m]
+
+
+Int[x_^p_.*(g_+i_.*x_^2)^m_.*(e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
+  1/(2^(2*m+p+1)*e^(p+1)*f^(2*m))*(i/c)^m*Subst[Int[x^(n-2*m-p-2)*(-a*f^2+x^2)^p*(a*f^2+x^2)^(2*m+1),x],x,e*x+f*Sqrt[a+c*x^2]] /;
+FreeQ[{a,c,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && IntegersQ[p,2*m] && (IntegerQ[m] || PositiveQ[i/c])
+
+
+Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
+  2/f^(2*m)*(i/c)^m*
+    Subst[Int[x^n*(d^2*e-(b*d-a*e)*f^2-(2*d*e-b*f^2)*x+e*x^2)^(2*m+1)/(-2*d*e+b*f^2+2*e*x)^(2*(m+1)),x],x,d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && IntegerQ[2*m] && (IntegerQ[m] || PositiveQ[i/c])
+
+
+Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
+  1/(2^(2*m+1)*e*f^(2*m))*(i/c)^m*
+    Subst[Int[x^n*(d^2+a*f^2-2*d*x+x^2)^(2*m+1)/(-d+x)^(2*(m+1)),x],x,d+e*x+f*Sqrt[a+c*x^2]] /;
+FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && IntegerQ[2*m] && (IntegerQ[m] || PositiveQ[i/c])
+
+
+Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
+  (i/c)^(m-1/2)*Sqrt[g+h*x+i*x^2]/Sqrt[a+b*x+c*x^2]*Int[(a+b*x+c*x^2)^m*(d+e*x+f*Sqrt[a+b*x+c*x^2])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && PositiveIntegerQ[m+1/2] && Not[PositiveQ[i/c]]
+
+
+Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
+  (i/c)^(m-1/2)*Sqrt[g+i*x^2]/Sqrt[a+c*x^2]*Int[(a+c*x^2)^m*(d+e*x+f*Sqrt[a+c*x^2])^n,x] /;
+FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && PositiveIntegerQ[m+1/2] && Not[PositiveQ[i/c]]
+
+
+Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
+  (i/c)^(m+1/2)*Sqrt[a+b*x+c*x^2]/Sqrt[g+h*x+i*x^2]*Int[(a+b*x+c*x^2)^m*(d+e*x+f*Sqrt[a+b*x+c*x^2])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && NegativeIntegerQ[m-1/2] && Not[PositiveQ[i/c]]
+
+
+Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
+  (i/c)^(m+1/2)*Sqrt[a+c*x^2]/Sqrt[g+i*x^2]*Int[(a+c*x^2)^m*(d+e*x+f*Sqrt[a+c*x^2])^n,x] /;
+FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && NegativeIntegerQ[m-1/2] && Not[PositiveQ[i/c]]
+
+
+Int[w_^m_.*(u_+f_.*(j_.+k_.*Sqrt[v_]))^n_.,x_Symbol] :=
+  Int[ExpandToSum[w,x]^m*(ExpandToSum[u+f*j,x]+f*k*Sqrt[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{f,j,k,m,n},x] && LinearQ[u,x] && QuadraticQ[{v,w},x] && 
+  Not[LinearMatchQ[u,x] && QuadraticMatchQ[{v,w},x] && (EqQ[j] || EqQ[f-1])] && 
+  EqQ[Coefficient[u,x,1]^2-Coefficient[v,x,2]*f^2*k^2]
+
+
+Int[1/((a_+b_.*x_^n_.)*Sqrt[c_.*x_^2+d_.*(a_+b_.*x_^n_.)^p_.]),x_Symbol] :=
+  1/a*Subst[Int[1/(1-c*x^2),x],x,x/Sqrt[c*x^2+d*(a+b*x^n)^(2/n)]] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[p-2/n]
+
+
+Int[Sqrt[a_+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
+  2*b^2*d*x^3/(3*(a+b*Sqrt[c+d*x^2])^(3/2)) + 2*a*x/Sqrt[a+b*Sqrt[c+d*x^2]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2*c]
+
+
+Int[Sqrt[a_.*x_^2+b_.*x_*Sqrt[c_+d_.*x_^2]]/(x_*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  Sqrt[2]*b/a*Subst[Int[1/Sqrt[1+x^2/a],x],x,a*x+b*Sqrt[c+d*x^2]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2*d] && EqQ[b^2*c+a]
+
+
+Int[Sqrt[e_.*x_*(a_.*x_+b_.*Sqrt[c_+d_.*x_^2])]/(x_*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
+  Int[Sqrt[a*e*x^2+b*e*x*Sqrt[c+d*x^2]]/(x*Sqrt[c+d*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2*d] && EqQ[b^2*c*e+a]
+
+
+Int[Sqrt[c_.*x_^2+d_.*Sqrt[a_+b_.*x_^4]]/Sqrt[a_+b_.*x_^4],x_Symbol] :=
+  d*Subst[Int[1/(1-2*c*x^2),x],x,x/Sqrt[c*x^2+d*Sqrt[a+b*x^4]]] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-b*d^2]
+
+
+Int[(c_.+d_.*x_)^m_.*Sqrt[b_.*x_^2+Sqrt[a_+e_.*x_^4]]/Sqrt[a_+e_.*x_^4],x_Symbol] :=
+  (1-I)/2*Int[(c+d*x)^m/Sqrt[Sqrt[a]-I*b*x^2],x] +
+  (1+I)/2*Int[(c+d*x)^m/Sqrt[Sqrt[a]+I*b*x^2],x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[e-b^2] && PositiveQ[a]
+
+
+Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -q/((1+Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  d/((1+Sqrt[3])*d-c*q)*Int[(1+Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
+FreeQ[{a,b,c,d},x] && PosQ[a] && PosQ[b]
+
+
+Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  q/((1+Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  d/((1+Sqrt[3])*d+c*q)*Int[(1+Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
+FreeQ[{a,b,c,d},x] && PosQ[a] && NegQ[b]
+
+
+Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  q/((1-Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  d/((1-Sqrt[3])*d+c*q)*Int[(1-Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
+FreeQ[{a,b,c,d},x] && NegQ[a] && PosQ[b]
+
+
+Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -q/((1-Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  d/((1-Sqrt[3])*d-c*q)*Int[(1-Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
+FreeQ[{a,b,c,d},x] && NegQ[a] && NegQ[b]
+
+
+Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  4*3^(1/4)*Sqrt[2-Sqrt[3]]*f*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/
+    (q*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
+    Subst[Int[1/(((1-Sqrt[3])*d-c*q+((1+Sqrt[3])*d-c*q)*x)*Sqrt[1-x^2]*Sqrt[7-4*Sqrt[3]+x^2]),x],x,(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)] /;
+ EqQ[(1+Sqrt[3])*f-e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && PosQ[b]
+
+
+Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  ((1+Sqrt[3])*f-e*q)/((1+Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  (d*e-c*f)/((1+Sqrt[3])*d-c*q)*Int[(1+Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
+ NeQ[(1+Sqrt[3])*f-e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && PosQ[b]
+
+
+Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  -4*3^(1/4)*Sqrt[2-Sqrt[3]]*f*(1-q*x)*Sqrt[(1+q*x+q^2*x^2)/(1+Sqrt[3]-q*x)^2]/
+    (q*Sqrt[a+b*x^3]*Sqrt[(1-q*x)/(1+Sqrt[3]-q*x)^2])*
+    Subst[Int[1/(((1-Sqrt[3])*d+c*q+((1+Sqrt[3])*d+c*q)*x)*Sqrt[1-x^2]*Sqrt[7-4*Sqrt[3]+x^2]),x],x,(-1+Sqrt[3]+q*x)/(1+Sqrt[3]-q*x)] /;
+ EqQ[(1+Sqrt[3])*f+e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && NegQ[b]
+
+
+Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  ((1+Sqrt[3])*f+e*q)/((1+Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  (d*e-c*f)/((1+Sqrt[3])*d+c*q)*Int[(1+Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
+ NeQ[(1+Sqrt[3])*f+e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && NegQ[b]
+
+
+Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  4*3^(1/4)*Sqrt[2+Sqrt[3]]*f*(1-q*x)*Sqrt[(1+q*x+q^2*x^2)/(1-Sqrt[3]-q*x)^2]/
+    (q*Sqrt[a+b*x^3]*Sqrt[-(1-q*x)/(1-Sqrt[3]-q*x)^2])*
+  Subst[Int[1/(((1+Sqrt[3])*d+c*q+((1-Sqrt[3])*d+c*q)*x)*Sqrt[1-x^2]*Sqrt[7+4*Sqrt[3]+x^2]),x],x,(1+Sqrt[3]-q*x)/(-1+Sqrt[3]+q*x)] /;
+ EqQ[(1-Sqrt[3])*f+e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && PosQ[b]
+
+
+Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[-b/a,3]},
+  ((1-Sqrt[3])*f+e*q)/((1-Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  (d*e-c*f)/((1-Sqrt[3])*d+c*q)*Int[(1-Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
+ NeQ[(1-Sqrt[3])*f+e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && PosQ[b]
+
+
+Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  -4*3^(1/4)*Sqrt[2+Sqrt[3]]*f*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1-Sqrt[3]+q*x)^2]/
+   (q*Sqrt[a +b*x^3]*Sqrt[-(1+q*x)/(1-Sqrt[3]+q*x)^2])*
+   Subst[Int[1/(((1+Sqrt[3])*d-c*q+((1-Sqrt[3])*d-c*q)*x)*Sqrt[1-x^2]*Sqrt[7+4*Sqrt[3]+x^2]),x],x,(1+Sqrt[3]+q*x)/(-1+Sqrt[3]-q*x)] /;
+ EqQ[(1-Sqrt[3])*f-e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && NegQ[b]
+
+
+Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
+  With[{q=Rt[b/a,3]},
+  ((1-Sqrt[3])*f-e*q)/((1-Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
+  (d*e-c*f)/((1-Sqrt[3])*d-c*q)*Int[(1-Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
+ NeQ[(1-Sqrt[3])*f-e*q]] /;
+FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && NegQ[b]
+
+
+Int[x_^m_./(c_+d_.*x_^n_+e_.*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
+  1/n*Subst[Int[x^((m+1)/n-1)/(c+d*x+e*Sqrt[a+b*x]),x],x,x^n] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[b*c-a*d,0] && IntegerQ[(m+1)/n]
+
+
+Int[u_./(c_+d_.*x_^n_+e_.*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
+  c*Int[u/(c^2-a*e^2+c*d*x^n),x] - a*e*Int[u/((c^2-a*e^2+c*d*x^n)*Sqrt[a+b*x^n]),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[b*c-a*d,0]
+
+
+Int[(A_+B_.*x_^n_)/(a_+b_.*x_^2+c_.*x_^n_+d_.*x_^n2_), x_Symbol] :=
+  A^2*(n-1)*Subst[Int[1/(a+A^2*b*(n-1)^2*x^2),x],x,x/(A*(n-1)-B*x^n)] /;
+FreeQ[{a,b,c,d,A,B,n},x] && EqQ[n2-2*n] && NeQ[n-2] && EqQ[a*B^2-A^2*d*(n-1)^2] && EqQ[B*c+2*A*d*(n-1)]
+
+
+Int[x_^m_.*(A_+B_.*x_^n_.)/(a_+b_.*x_^k_.+c_.*x_^n_.+d_.*x_^n2_), x_Symbol] :=
+  A^2*(m-n+1)/(m+1)*Subst[Int[1/(a+A^2*b*(m-n+1)^2*x^2),x],x,x^(m+1)/(A*(m-n+1)+B*(m+1)*x^n)] /;
+FreeQ[{a,b,c,d,A,B,m,n},x] && EqQ[n2-2*n] && EqQ[k-2*(m+1)] && EqQ[a*B^2*(m+1)^2-A^2*d*(m-n+1)^2] && EqQ[B*c*(m+1)-2*A*d*(m-n+1)]
+
+
+Int[(d_+e_.*x_^n_+f_.*x_^n2_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*c*d-2*a*c*(c*d-a*f)-a*b*(c*e+a*g)+(b*c*(c*d+a*f)-a*b^2*g-2*a*c*(c*e-a*g))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(b^2-4*a*c)) - 
+  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[a*b*(c*e+a*g)-b^2*c*d*(n+n*p+1)-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
+      (a*b^2*g*(n*(p+2)+1)-b*c*(c*d+a*f)*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+e_.*x_^n_+f_.*x_^n2_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*d-2*a*(c*d-a*f)-a*b*e+(b*(c*d+a*f)-2*a*c*e)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) - 
+  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[a*b*e-b^2*d*(n+n*p+1)-2*a*(a*f-c*d*(2*n*(p+1)+1))-
+      (b*(c*d+a*f)*(n*(2*p+3)+1)-2*a*c*e*(n*(2*p+3)+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+e_.*x_^n_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*c*d-2*a*c^2*d-a*b*(c*e+a*g)+(b*c^2*d-a*b^2*g-2*a*c*(c*e-a*g))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(b^2-4*a*c)) - 
+  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[a*b*(c*e+a*g)-b^2*c*d*(n+n*p+1)+2*a*c^2*d*(2*n*(p+1)+1)+
+      (a*b^2*g*(n*(p+2)+1)-b*c^2*d*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
+FreeQ[{a,b,c,d,e,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+f_.*x_^n2_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*c*d-2*a*c*(c*d-a*f)-a^2*b*g+(b*c*(c*d+a*f)-a*b^2*g+2*a^2*c*g)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(b^2-4*a*c)) - 
+  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[a^2*b*g-b^2*c*d*(n+n*p+1)-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
+      (a*b^2*g*(n*(p+2)+1)-b*c*(c*d+a*f)*(n*(2*p+3)+1)-2*a^2*c*g*(n+1))*x^n,x],x] /;
+FreeQ[{a,b,c,d,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+f_.*x_^n2_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*d-2*a*(c*d-a*f)+b*(c*d+a*f)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) + 
+  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[b^2*d*(n+n*p+1)+2*a*(a*f-c*d*(2*n*(p+1)+1))+b*(c*d+a*f)*(n*(2*p+3)+1)*x^n,x],x] /;
+FreeQ[{a,b,c,d,f,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(b^2*c*d-2*a*c^2*d-a^2*b*g+(b*c^2*d-a*b^2*g+2*a^2*c*g)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(b^2-4*a*c)) - 
+  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
+    Simp[a^2*b*g-b^2*c*d*(n+n*p+1)+2*a*c^2*d*(2*n*(p+1)+1)+
+      (a*b^2*g*(n*(p+2)+1)-b*c^2*d*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)))*x^n,x],x] /;
+FreeQ[{a,b,c,d,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+e_.*x_^n_+f_.*x_^n2_+g_*x_^n3_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(-2*a*c*(c*d-a*f)+(-2*a*c*(c*e-a*g))*x^n)*(a+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(-4*a*c)) - 
+  1/(a*c*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
+    Simp[-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
+      (-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
+FreeQ[{a,c,d,e,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+e_.*x_^n_+f_.*x_^n2_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(-2*a*(c*d-a*f)+(-2*a*c*e)*x^n)*(a+c*x^(2*n))^(p+1)/(a*n*(p+1)*(-4*a*c)) - 
+  1/(a*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
+    Simp[-2*a*(a*f-c*d*(2*n*(p+1)+1))-
+      (-2*a*c*e*(n*(2*p+3)+1))*x^n,x],x] /;
+FreeQ[{a,c,d,e,f,n},x] && EqQ[n2-2*n] && NegativeIntegerQ[p+1]
+
+
+Int[(d_+e_.*x_^n_+g_*x_^n3_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
+  -x*(-2*a*c^2*d+(-2*a*c*(c*e-a*g))*x^n)*(a+c*x^(2*n))^(p+1)/
+    (a*c*n*(p+1)*(-4*a*c)) - 
+  1/(a*c*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
+    Simp[2*a*c^2*d*(2*n*(p+1)+1)+
+      (-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
+FreeQ[{a,c,d,e,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NegativeIntegerQ[p+1]
+
+
+Int[(a_.+b_.*x_^2+c_.*x_^4)/(d_+e_.*x_^2+f_.*x_^4+g_.*x_^6),x_Symbol] :=
+  With[{q=Rt[(-a*c*f^2+12*a^2*g^2+f*(3*c^2*d-2*a*b*g))/(c*g*(3*c*d-a*f)),2],
+        r=Rt[(a*c*f^2+4*g*(b*c*d+a^2*g)-f*(3*c^2*d+2*a*b*g))/(c*g*(3*c*d-a*f)),2]},
+  c/(g*q)*ArcTan[(r+2*x)/q] - 
+  c/(g*q)*ArcTan[(r-2*x)/q] - 
+  c/(g*q)*ArcTan[(3*c*d-a*f)*x/(g*q*(b*c*d-2*a^2*g)*(b*c*d-a*b*f+4*a^2*g))*
+    (b*c^2*d*f-a*b^2*f*g-2*a^2*c*f*g+6*a^2*b*g^2+c*(3*c^2*d*f-a*c*f^2-b*c*d*g+2*a^2*g^2)*x^2+c^2*g*(3*c*d-a*f)*x^4)]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[9*c^3*d^2-c*(b^2+6*a*c)*d*f+a^2*c*f^2+2*a*b*(3*c*d+a*f)*g-12*a^3*g^2] && 
+  EqQ[3*c^4*d^2*e-3*a^2*c^2*d*f*g+a^3*c*f^2*g+2*a^3*g^2*(b*f-6*a*g)-c^3*d*(2*b*d*f+a*e*f-12*a*d*g)] && 
+  NeQ[3*c*d-a*f] && NeQ[b*c*d-2*a^2*g] && NeQ[b*c*d-a*b*f+4*a^2*g] && 
+  PosQ[(-a*c*f^2+12*a^2*g^2+f*(3*c^2*d-2*a*b*g))/(c*g*(3*c*d-a*f))]
+
+
+Int[(a_.+c_.*x_^4)/(d_+e_.*x_^2+f_.*x_^4+g_.*x_^6),x_Symbol] :=
+  With[{q=Rt[(-a*c*f^2+12*a^2*g^2+3*f*c^2*d)/(c*g*(3*c*d-a*f)),2],
+        r=Rt[(a*c*f^2+4*a^2*g^2-3*c^2*d*f)/(c*g*(3*c*d-a*f)),2]},
+  c/(g*q)*ArcTan[(r+2*x)/q] - 
+  c/(g*q)*ArcTan[(r-2*x)/q] - 
+  c/(g*q)*ArcTan[(c*(3*c*d-a*f)*x*(2*a^2*f*g-(3*c^2*d*f-a*c*f^2+2*a^2*g^2)*x^2-c*(3*c*d-a*f)*g*x^4))/(8*a^4*g^3*q)]] /;
+FreeQ[{a,c,d,e,f,g},x] && EqQ[9*c^3*d^2-6*a*c^2*d*f+a^2*c*f^2-12*a^3*g^2] && 
+  EqQ[3*c^4*d^2*e-3*a^2*c^2*d*f*g+a^3*c*f^2*g-12*a^4*g^3-a*c^3*d*(e*f-12*d*g)] && 
+  NeQ[3*c*d-a*f] && PosQ[(-a*c*f^2+12*a^2*g^2+3*c^2*d*f)/(c*g*(3*c*d-a*f))]
+
+
+If[ShowSteps,
+
+Int[u_*v_^p_,x_Symbol] :=
+  With[{m=Exponent[u,x],n=Exponent[v,x]},
+  Module[{c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p)),w},
+  w=Apart[u-c*x^(m-n)*((m-n+1)*v+(p+1)*x*D[v,x]),x];
+  If[EqQ[w],
+    ShowStep["
+If p>1, 1<n<=m+1, and m+1-n*p<0, let c=pm/(qn*(m+1-n*p)), then if (Pm[x]-c*x^(m-n)*((m-n+1)*Qn[x]+(1-p)*x*D[Qn[x],x]))==0,",
+	  "Int[Pm[x]/Qn[x]^p,x]", "c*x^(m-n+1)/Qn[x]^(p-1)",
+      Hold[c*x^(m-n+1)*v^(p+1)]],
+  ShowStep["If p>1, 1<n<=m+1, and m+1-n*p<0, let c=pm/(qn*(m+1-n*p)), then",
+	"Int[Pm[x]/Qn[x]^p,x]",
+	"c*x^(m-n+1)/Qn[x]^(p-1)+Int[(Pm[x]-c*x^(m-n)*((m-n+1)*Qn[x]+(1-p)*x*D[Qn[x],x]))/Qn[x]^p,x]",
+	Hold[c*x^(m-n+1)*v^(p+1) + Int[w*v^p,x]]]]] /;
+ 1<n<=m+1 && m+n*p<-1 && FalseQ[DerivativeDivides[v,u,x]]] /;
+SimplifyFlag && RationalQ[p] && p<-1 && PolynomialQ[u,x] && PolynomialQ[v,x] && SumQ[v] && 
+Not[MonomialQ[u,x] && BinomialQ[v,x]] && 
+Not[EqQ[Coefficient[u,x,0]] && EqQ[Coefficient[v,x,0]]],
+
+Int[u_*v_^p_,x_Symbol] :=
+  With[{m=Exponent[u,x],n=Exponent[v,x]},
+  Module[{c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p)),w},
+  c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p));
+  w=Apart[u-c*x^(m-n)*((m-n+1)*v+(p+1)*x*D[v,x]),x];
+  If[EqQ[w],
+    c*x^(m-n+1)*v^(p+1),
+  c*x^(m-n+1)*v^(p+1) + Int[w*v^p,x]]] /;
+ 1<n<=m+1 && m+n*p<-1 && FalseQ[DerivativeDivides[v,u,x]]] /;
+RationalQ[p] && p<-1 && PolynomialQ[u,x] && PolynomialQ[v,x] && SumQ[v] && 
+Not[MonomialQ[u,x] && BinomialQ[v,x]] && 
+Not[EqQ[Coefficient[u,x,0]] && EqQ[Coefficient[v,x,0]]]]
+
+
+
+`)
+
+func resourcesRubi13MiscellaneousAlgebraicFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi13MiscellaneousAlgebraicFunctionsM, nil
+}
+
+func resourcesRubi13MiscellaneousAlgebraicFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi13MiscellaneousAlgebraicFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/1.3 Miscellaneous algebraic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi2ExponentialsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Exponential Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*2.1 (c+d x)^m (a+b (F^(g (e+f x)))^n)^p*)
+
+
+$UseGamma=False;
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_.,x_Symbol] :=
+  (c+d*x)^m*(b*F^(g*(e+f*x)))^n/(f*g*n*Log[F]) - 
+  d*m/(f*g*n*Log[F])*Int[(c+d*x)^(m-1)*(b*F^(g*(e+f*x)))^n,x] /;
+FreeQ[{F,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0 && IntegerQ[2*m] && Not[$UseGamma===True]
+
+
+Int[(c_.+d_.*x_)^m_*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_.,x_Symbol] :=
+  (c+d*x)^(m+1)*(b*F^(g*(e+f*x)))^n/(d*(m+1)) - 
+  f*g*n*Log[F]/(d*(m+1))*Int[(c+d*x)^(m+1)*(b*F^(g*(e+f*x)))^n,x] /;
+FreeQ[{F,b,c,d,e,f,g,n},x] && RationalQ[m] && m<-1 && IntegerQ[2*m] && Not[$UseGamma===True]
+
+
+Int[F_^(g_.*(e_.+f_.*x_))/(c_.+d_.*x_),x_Symbol] :=
+  F^(g*(e-c*f/d))/d*ExpIntegralEi[f*g*(c+d*x)*Log[F]/d] /;
+FreeQ[{F,c,d,e,f,g},x] && Not[$UseGamma===True]
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(g_.*(e_.+f_.*x_)),x_Symbol] :=
+  (-d)^m*F^(g*(e-c*f/d))/(f^(m+1)*g^(m+1)*Log[F]^(m+1))*Gamma[m+1,-f*g*Log[F]/d*(c+d*x)] /;
+FreeQ[{F,c,d,e,f,g},x] && IntegerQ[m]
+
+
+Int[F_^(g_.*(e_.+f_.*x_))/Sqrt[c_.+d_.*x_],x_Symbol] :=
+  2/d*Subst[Int[F^(g*(e-c*f/d)+f*g*x^2/d),x],x,Sqrt[c+d*x]] /;
+FreeQ[{F,c,d,e,f,g},x] && Not[$UseGamma===True]
+
+
+Int[(c_.+d_.*x_)^m_*F_^(g_.*(e_.+f_.*x_)),x_Symbol] :=
+  -F^(g*(e-c*f/d))*(c+d*x)^FracPart[m]/(d*(-f*g*Log[F]/d)^(IntPart[m]+1)*(-f*g*Log[F]*(c+d*x)/d)^FracPart[m])*
+    Gamma[m+1,(-f*g*Log[F]/d)*(c+d*x)] /;
+FreeQ[{F,c,d,e,f,g,m},x] && Not[IntegerQ[m]]
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_,x_Symbol] :=
+  (b*F^(g*(e+f*x)))^n/F^(g*n*(e+f*x))*Int[(c+d*x)^m*F^(g*n*(e+f*x)),x] /;
+FreeQ[{F,b,c,d,e,f,g,m,n},x]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(a+b*(F^(g*(e+f*x)))^n)^p,x],x] /;
+FreeQ[{F,a,b,c,d,e,f,g,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.),x_Symbol] :=
+  -(c+d*x)^m/(a*f*g*n*Log[F])*Log[1+a/(b*(F^(g*(e+f*x)))^n)] + 
+  d*m/(a*f*g*n*Log[F])*Int[(c+d*x)^(m-1)*Log[1+a/(b*(F^(g*(e+f*x)))^n)],x] /;
+FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_,x_Symbol] :=
+  1/a*Int[(c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^(p+1),x] - 
+  b/a*Int[(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
+FreeQ[{F,a,b,c,d,e,f,g,n},x] && NegativeIntegerQ[p] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_,x_Symbol] :=
+  With[{u=IntHide[(a+b*(F^(g*(e+f*x)))^n)^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m,p] && m>0 && p<-1
+
+
+Int[u_^m_.*(a_.+b_.*(F_^(g_.*v_))^n_.)^p_.,x_Symbol] :=
+  Int[NormalizePowerOfLinear[u,x]^m*(a+b*(F^(g*ExpandToSum[v,x]))^n)^p,x] /;
+FreeQ[{F,a,b,g,n,p},x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[LinearMatchQ[v,x] && PowerOfLinearMatchQ[u,x]] && IntegerQ[m]
+
+
+Int[u_^m_.*(a_.+b_.*(F_^(g_.*v_))^n_.)^p_.,x_Symbol] :=
+  Module[{uu=NormalizePowerOfLinear[u,x],z},
+  z=If[PowerQ[uu] && FreeQ[uu[[2]],x], uu[[1]]^(m*uu[[2]]), uu^m];
+  uu^m/z*Int[z*(a+b*(F^(g*ExpandToSum[v,x]))^n)^p,x]] /; 
+FreeQ[{F,a,b,g,m,n,p},x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[LinearMatchQ[v,x] && PowerOfLinearMatchQ[u,x]] && 
+  Not[IntegerQ[m]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
+  Defer[Int][(c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*2.2 (c+d x)^m (F^(g (e+f x)))^n (a+b (F^(g (e+f x)))^n)^p*)
+
+
+Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_./(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.),x_Symbol] :=
+  (c+d*x)^m/(b*f*g*n*Log[F])*Log[1+b*(F^(g*(e+f*x)))^n/a] - 
+  d*m/(b*f*g*n*Log[F])*Int[(c+d*x)^(m-1)*Log[1+b*(F^(g*(e+f*x)))^n/a],x] /;
+FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
+  (c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^(p+1)/(b*f*g*n*(p+1)*Log[F]) - 
+  d*m/(b*f*g*n*(p+1)*Log[F])*Int[(c+d*x)^(m-1)*(a+b*(F^(g*(e+f*x)))^n)^(p+1),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,m,n,p},x] && NeQ[p+1]
+
+
+Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
+  Defer[Int][(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
+FreeQ[{F,a,b,c,d,e,f,g,m,n,p},x]
+
+
+Int[(c_.+d_.*x_)^m_.*(k_.*G_^(j_.*(h_.+i_.*x_)))^q_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
+  (k*G^(j*(h+i*x)))^q/(F^(g*(e+f*x)))^n*Int[(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,i,j,k,m,n,p,q},x] && EqQ[f*g*n*Log[F]-i*j*q*Log[G]] && NeQ[(k*G^(j*(h+i*x)))^q-(F^(g*(e+f*x)))^n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*2.3 Miscellaneous exponentials*)
+
+
+Int[(F_^(c_.*(a_.+b_.*x_)))^n_.,x_Symbol] :=
+  (F^(c*(a+b*x)))^n/(b*c*n*Log[F]) /;
+FreeQ[{F,a,b,c,n},x]
+
+
+Int[u_*F_^(c_.*v_),x_Symbol] :=
+  Int[ExpandIntegrand[u*F^(c*ExpandToSum[v,x]),x],x] /;
+FreeQ[{F,c},x] && PolynomialQ[u,x] && LinearQ[v,x] && $UseGamma===True
+
+
+Int[u_*F_^(c_.*v_),x_Symbol] :=
+  Int[ExpandIntegrand[F^(c*ExpandToSum[v,x]),u,x],x] /;
+FreeQ[{F,c},x] && PolynomialQ[u,x] && LinearQ[v,x] && Not[$UseGamma===True]
+
+
+Int[u_^m_.*F_^(c_.*v_)*w_,x_Symbol] :=
+  Coefficient[w,x,1]*u^(m+1)*F^(c*v)/(Coefficient[v,x,1]*c*Coefficient[u,x,1]*Log[F]) /;
+FreeQ[{F,c,m},x] && LinearQ[{u,v,w},x] && 
+  EqQ[Coefficient[u,x,1]*Coefficient[w,x,1]*(m+1)-
+    Coefficient[v,x,1]*c*(Coefficient[u,x,1]*Coefficient[w,x,0]-Coefficient[u,x,0]*Coefficient[w,x,1])*Log[F]]
+
+
+Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
+  Int[ExpandIntegrand[w*NormalizePowerOfLinear[u,x]^m*F^(c*ExpandToSum[v,x]),x],x] /;
+FreeQ[{F,c},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && IntegerQ[m] && $UseGamma===True
+
+
+Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
+  Int[ExpandIntegrand[F^(c*ExpandToSum[v,x]),w*NormalizePowerOfLinear[u,x]^m,x],x] /;
+FreeQ[{F,c},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && IntegerQ[m] && Not[$UseGamma===True]
+
+
+Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
+  Module[{uu=NormalizePowerOfLinear[u,x],z},
+  z=If[PowerQ[uu] && FreeQ[uu[[2]],x], uu[[1]]^(m*uu[[2]]), uu^m];
+  uu^m/z*Int[ExpandIntegrand[w*z*F^(c*ExpandToSum[v,x]),x],x]] /;
+FreeQ[{F,c,m},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Log[d_.*x_]^n_.*(e_+h_.*(f_.+g_.*x_)*Log[d_.*x_]),x_Symbol] :=
+  e*x*F^(c*(a+b*x))*Log[d*x]^(n+1)/(n+1) /;
+FreeQ[{F,a,b,c,d,e,f,g,h,n},x] && EqQ[e-f*h*(n+1)] && EqQ[g*h*(n+1)-b*c*e*Log[F]] && NeQ[n+1]
+
+
+Int[x_^m_.*F_^(c_.*(a_.+b_.*x_))*Log[d_.*x_]^n_.*(e_+h_.*(f_.+g_.*x_)*Log[d_.*x_]),x_Symbol] :=
+  e*x^(m+1)*F^(c*(a+b*x))*Log[d*x]^(n+1)/(n+1) /;
+FreeQ[{F,a,b,c,d,e,f,g,h,m,n},x] && EqQ[e*(m+1)-f*h*(n+1)] && EqQ[g*h*(n+1)-b*c*e*Log[F]] && NeQ[n+1]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)),x_Symbol] :=
+  F^(a+b*(c+d*x))/(b*d*Log[F]) /;
+FreeQ[{F,a,b,c,d},x]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
+  F^a*Sqrt[Pi]*Erfi[(c+d*x)*Rt[b*Log[F],2]]/(2*d*Rt[b*Log[F],2]) /;
+FreeQ[{F,a,b,c,d},x] && PosQ[b]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
+  F^a*Sqrt[Pi]*Erf[(c+d*x)*Rt[-b*Log[F],2]]/(2*d*Rt[-b*Log[F],2]) /;
+FreeQ[{F,a,b,c,d},x] && NegQ[b]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (c+d*x)*F^(a+b*(c+d*x)^n)/d -
+  b*n*Log[F]*Int[(c+d*x)^n*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d},x] && IntegerQ[2/n] && NegativeIntegerQ[n]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  With[{k=Denominator[n]},
+  k/d*Subst[Int[x^(k-1)*F^(a+b*x^(k*n)),x],x,(c+d*x)^(1/k)]] /;
+FreeQ[{F,a,b,c,d},x] && IntegerQ[2/n] && Not[IntegerQ[n]]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  -F^a*(c+d*x)*Gamma[1/n,-b*(c+d*x)^n*Log[F]]/(d*n*(-b*(c+d*x)^n*Log[F])^(1/n)) /;
+FreeQ[{F,a,b,c,d,n},x] && Not[IntegerQ[2/n]]
+
+
+Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (e+f*x)^n*F^(a+b*(c+d*x)^n)/(b*f*n*(c+d*x)^n*Log[F]) /;
+FreeQ[{F,a,b,c,d,e,f,n},x] && EqQ[m-(n-1)] && EqQ[d*e-c*f]
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_)/(e_.+f_.*x_),x_Symbol] :=
+  F^a*ExpIntegralEi[b*(c+d*x)^n*Log[F]]/(f*n) /;
+FreeQ[{F,a,b,c,d,e,f,n},x] && EqQ[d*e-c*f]
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  1/(d*(m+1))*Subst[Int[F^(a+b*x^2),x],x,(c+d*x)^(m+1)] /;
+FreeQ[{F,a,b,c,d,m,n},x] && EqQ[n-2*(m+1)]
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (c+d*x)^(m-n+1)*F^(a+b*(c+d*x)^n)/(b*d*n*Log[F]) -
+  (m-n+1)/(b*n*Log[F])*Int[(c+d*x)^(m-n)*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d},x] && RationalQ[m] && IntegerQ[2*(m+1)/n] && 0<(m+1)/n<5 && IntegerQ[n] && (0<n<m+1 || m<n<0)
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (c+d*x)^(m-n+1)*F^(a+b*(c+d*x)^n)/(b*d*n*Log[F]) -
+  (m-n+1)/(b*n*Log[F])*Int[(c+d*x)^Simplify[m-n]*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d,m,n},x] && IntegerQ[2*Simplify[(m+1)/n]] && 0<Simplify[(m+1)/n]<5 && Not[RationalQ[m]] && SumSimplerQ[m,-n]
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (c+d*x)^(m+1)*F^(a+b*(c+d*x)^n)/(d*(m+1)) -
+  b*n*Log[F]/(m+1)*Int[(c+d*x)^(m+n)*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d},x] && RationalQ[m] && IntegerQ[2*(m+1)/n] && -4<(m+1)/n<5 && IntegerQ[n] && (n>0 && m<-1 || 0<-n<=m+1)
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (c+d*x)^(m+1)*F^(a+b*(c+d*x)^n)/(d*(m+1)) -
+  b*n*Log[F]/(m+1)*Int[(c+d*x)^Simplify[m+n]*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d,m,n},x] && IntegerQ[2*Simplify[(m+1)/n]] && -4<Simplify[(m+1)/n]<5 && Not[RationalQ[m]] && SumSimplerQ[m,n]
+
+
+Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  With[{k=Denominator[n]},
+  k/d*Subst[Int[x^(k*(m+1)-1)*F^(a+b*x^(k*n)),x],x,(c+d*x)^(1/k)]] /;
+FreeQ[{F,a,b,c,d},x] && RationalQ[m,n] && IntegerQ[2*(m+1)/n] && 0<(m+1)/n<5 && Not[IntegerQ[n]]
+
+
+Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (e+f*x)^m/(c+d*x)^m*Int[(c+d*x)^m*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d,e,f,m,n},x] && EqQ[d*e-c*f] && IntegerQ[2*Simplify[(m+1)/n]] && NeQ[f-d] && Not[IntegerQ[m]] && NeQ[c*e]
+
+
+Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+(*-F^a*(e+f*x)^(m+1)/(f*n)*ExpIntegralE[1-(m+1)/n,-b*(c+d*x)^n*Log[F]] *)
+  -F^a*(e+f*x)^(m+1)/(f*n*(-b*(c+d*x)^n*Log[F])^((m+1)/n))*Gamma[(m+1)/n,-b*(c+d*x)^n*Log[F]] /;
+FreeQ[{F,a,b,c,d,e,f,m,n},x] && EqQ[d*e-c*f]
+
+
+Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
+  f*(e+f*x)^(m-1)*F^(a+b*(c+d*x)^2)/(2*b*d^2*Log[F]) + 
+  (d*e-c*f)/d*Int[(e+f*x)^(m-1)*F^(a+b*(c+d*x)^2),x] - 
+  (m-1)*f^2/(2*b*d^2*Log[F])*Int[(e+f*x)^(m-2)*F^(a+b*(c+d*x)^2),x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && FractionQ[m] && m>1
+
+
+Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
+  f*(e+f*x)^(m+1)*F^(a+b*(c+d*x)^2)/((m+1)*f^2) + 
+  2*b*d*(d*e-c*f)*Log[F]/(f^2*(m+1))*Int[(e+f*x)^(m+1)*F^(a+b*(c+d*x)^2),x] - 
+  2*b*d^2*Log[F]/(f^2*(m+1))*Int[(e+f*x)^(m+2)*F^(a+b*(c+d*x)^2),x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && RationalQ[m] && m<-1
+
+
+Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  (e+f*x)^(m+1)*F^(a+b*(c+d*x)^n)/(f*(m+1)) -
+  b*d*n*Log[F]/(f*(m+1))*Int[(e+f*x)^(m+1)*(c+d*x)^(n-1)*F^(a+b*(c+d*x)^n),x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && IntegerQ[n] && n>2 && RationalQ[m] && m<-1
+
+
+Int[F_^(a_.+b_./(c_.+d_.*x_))/(e_.+f_.*x_),x_Symbol] :=
+  d/f*Int[F^(a+b/(c+d*x))/(c+d*x),x] - 
+  (d*e-c*f)/f*Int[F^(a+b/(c+d*x))/((c+d*x)*(e+f*x)),x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f]
+
+
+Int[(e_.+f_.*x_)^m_*F_^(a_.+b_./(c_.+d_.*x_)),x_Symbol] :=
+  (e+f*x)^(m+1)*F^(a+b/(c+d*x))/(f*(m+1)) + 
+  b*d*Log[F]/(f*(m+1))*Int[(e+f*x)^(m+1)*F^(a+b/(c+d*x))/(c+d*x)^2,x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && IntegerQ[m] && m<-1
+
+
+Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_)/(e_.+f_.*x_),x_Symbol] :=
+  Defer[Int][F^(a+b*(c+d*x)^n)/(e+f*x),x] /;
+FreeQ[{F,a,b,c,d,e,f,n},x] && NeQ[d*e-c*f]
+
+
+Int[u_^m_.*F_^v_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*F^ExpandToSum[v,x],x] /;
+FreeQ[{F,m},x] && LinearQ[u,x] && BinomialQ[v,x] && Not[LinearMatchQ[u,x] && BinomialMatchQ[v,x]]
+
+
+Int[u_*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
+  Int[ExpandLinearProduct[F^(a+b*(c+d*x)^n),u,c,d,x],x] /;
+FreeQ[{F,a,b,c,d,n},x] && PolynomialQ[u,x]
+
+
+Int[u_.*F_^(a_.+b_.*v_),x_Symbol] :=
+  Int[u*F^(a+b*NormalizePowerOfLinear[v,x]),x] /;
+FreeQ[{F,a,b},x] && PolynomialQ[u,x] && PowerOfLinearQ[v,x] && Not[PowerOfLinearMatchQ[v,x]]
+
+
+(* Int[u_.*F_^(a_.+b_.*v_^n_),x_Symbol] :=
+  Int[u*F^(a+b*ExpandToSum[v,x]^n),x] /;
+FreeQ[{F,a,b,n},x] && PolynomialQ[u,x] && LinearQ[v,x] && Not[LinearMatchQ[v,x]] *)
+
+
+(* Int[u_.*F_^u_,x_Symbol] :=
+  Int[u*F^ExpandToSum[u,x],x] /;
+FreeQ[F,x] && PolynomialQ[u,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]] *)
+
+
+Int[F_^(a_.+b_./(c_.+d_.*x_))/((e_.+f_.*x_)*(g_.+h_.*x_)),x_Symbol] :=
+  -d/(f*(d*g-c*h))*Subst[Int[F^(a-b*h/(d*g-c*h)+d*b*x/(d*g-c*h))/x,x],x,(g+h*x)/(c+d*x)] /;
+FreeQ[{F,a,b,c,d,e,f},x] && EqQ[d*e-c*f]
+
+
+Int[(g_.+h_.*x_)^m_.*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
+  F^(e+f*b/d)*Int[(g+h*x)^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,m},x] && EqQ[b*c-a*d]
+
+
+Int[(g_.+h_.*x_)^m_.*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
+  Int[(g+h*x)^m*F^((d*e+b*f)/d-f*(b*c-a*d)/(d*(c+d*x))),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,m},x] && NeQ[b*c-a*d] && EqQ[d*g-c*h]
+
+
+Int[F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_))/(g_.+h_.*x_),x_Symbol] :=
+  d/h*Int[F^(e+f*(a+b*x)/(c+d*x))/(c+d*x),x] - 
+  (d*g-c*h)/h*Int[F^(e+f*(a+b*x)/(c+d*x))/((c+d*x)*(g+h*x)),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h},x] && NeQ[b*c-a*d] && NeQ[d*g-c*h]
+
+
+Int[(g_.+h_.*x_)^m_*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
+  (g+h*x)^(m+1)*F^(e+f*(a+b*x)/(c+d*x))/(h*(m+1)) - 
+  f*(b*c-a*d)*Log[F]/(h*(m+1))*Int[(g+h*x)^(m+1)*F^(e+f*(a+b*x)/(c+d*x))/(c+d*x)^2,x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h},x] && NeQ[b*c-a*d] && NeQ[d*g-c*h] && IntegerQ[m] && m<-1
+
+
+Int[F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_))/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
+  -d/(h*(d*i-c*j))*Subst[Int[F^(e+f*(b*i-a*j)/(d*i-c*j)-(b*c-a*d)*f*x/(d*i-c*j))/x,x],x,(i+j*x)/(c+d*x)] /;
+FreeQ[{F,a,b,c,d,e,f,g,h},x] && EqQ[d*g-c*h]
+
+
+Int[F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  F^(a-b^2/(4*c))*Int[F^((b+2*c*x)^2/(4*c)),x] /;
+FreeQ[{F,a,b,c},x]
+
+
+Int[F_^v_,x_Symbol] :=
+  Int[F^ExpandToSum[v,x],x] /;
+FreeQ[F,x] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
+
+
+Int[(d_.+e_.*x_)*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*F^(a+b*x+c*x^2)/(2*c*Log[F]) /;
+FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m-1)*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
+  (m-1)*e^2/(2*c*Log[F])*Int[(d+e*x)^(m-2)*F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d] && RationalQ[m] && m>1
+
+
+Int[F_^(a_.+b_.*x_+c_.*x_^2)/(d_.+e_.*x_),x_Symbol] :=
+  1/(2*e)*F^(a-b^2/(4*c))*ExpIntegralEi[(b+2*c*x)^2*Log[F]/(4*c)] /;
+FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  (d+e*x)^(m+1)*F^(a+b*x+c*x^2)/(e*(m+1)) - 
+  2*c*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+2)*F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d] && RationalQ[m] && m<-1
+
+
+Int[(d_.+e_.*x_)*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
+  (b*e-2*c*d)/(2*c)*Int[F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  e*(d+e*x)^(m-1)*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
+  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*F^(a+b*x+c*x^2),x] -
+  (m-1)*e^2/(2*c*Log[F])*Int[(d+e*x)^(m-2)*F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d] && RationalQ[m] && m>1
+
+
+Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  (d+e*x)^(m+1)*F^(a+b*x+c*x^2)/(e*(m+1)) -
+  (b*e-2*c*d)*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+1)*F^(a+b*x+c*x^2),x] -
+  2*c*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+2)*F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d] && RationalQ[m] && m<-1
+
+
+Int[(d_.+e_.*x_)^m_.*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Defer[Int][(d+e*x)^m*F^(a+b*x+c*x^2),x] /;
+FreeQ[{F,a,b,c,d,e,m},x]
+
+
+Int[u_^m_.*F_^v_,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*F^ExpandToSum[v,x],x] /;
+FreeQ[{F,m},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+Int[x_^m_.*F_^(e_.*(c_.+d_.*x_))*(a_.+b_.*F_^v_)^p_,x_Symbol] :=
+  With[{u=IntHide[F^(e*(c+d*x))*(a+b*F^v)^p,x]},
+  Dist[x^m,u,x] - m*Int[x^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e},x] && EqQ[2*e*(c+d*x)-v] && RationalQ[m] && m>0 && NegativeIntegerQ[p]
+
+
+Int[(F_^(e_.*(c_.+d_.*x_)))^n_.*(a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.)^p_.,x_Symbol] :=
+  1/(d*e*n*Log[F])*Subst[Int[(a+b*x)^p,x],x,(F^(e*(c+d*x)))^n] /;
+FreeQ[{F,a,b,c,d,e,n,p},x]
+
+
+Int[(G_^(h_.(f_.+g_.*x_)))^m_.*(a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.)^p_.,x_Symbol] :=
+  (G^(h*(f+g*x)))^m/(F^(e*(c+d*x)))^n*Int[(F^(e*(c+d*x)))^n*(a+b*(F^(e*(c+d*x)))^n)^p,x] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[d*e*n*Log[F]-g*h*m*Log[G]]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  With[{m=FullSimplify[g*h*Log[G]/(d*e*Log[F])]},
+  Denominator[m]*G^(f*h-c*g*h/d)/(d*e*Log[F])*Subst[Int[x^(Numerator[m]-1)*(a+b*x^Denominator[m])^p,x],x,F^(e*(c+d*x)/Denominator[m])] /;
+ RationalQ[m] && Abs[m]>=1] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  With[{m=FullSimplify[d*e*Log[F]/(g*h*Log[G])]},
+  Denominator[m]/(g*h*Log[G])*Subst[Int[x^(Denominator[m]-1)*(a+b*F^(c*e-d*e*f/g)*x^Numerator[m])^p,x],x,G^(h*(f+g*x)/Denominator[m])] /;
+ RationalQ[m] && Abs[m]>1] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  Int[Expand[G^(h*(f+g*x))*(a+b*F^(e*(c+d*x)))^p,x],x] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[p]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
+  a^p*G^(h*(f+g*x))/(g*h*Log[G])*Hypergeometric2F1[-p,g*h*Log[G]/(d*e*Log[F]),g*h*Log[G]/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x] && (NegativeIntegerQ[p] || RationalQ[a] && a>0)
+
+
+Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
+  (a+b*F^(e*(c+d*x)))^p/(1+(b/a)*F^(e*(c+d*x)))^p*Int[G^(h*(f+g*x))*(1+b/a*F^(e*(c+d*x)))^p,x] /;
+FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x] && Not[NegativeIntegerQ[p] || RationalQ[a] && a>0]
+
+
+Int[G_^(h_. u_)*(a_+b_.*F_^(e_.*v_))^p_,x_Symbol] :=
+  Int[G^(h*ExpandToSum[u,x])*(a+b*F^(e*ExpandToSum[v,x]))^p,x] /;
+FreeQ[{F,G,a,b,e,h,p},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  With[{m=FullSimplify[(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])]},
+  Denominator[m]*G^(f*h-c*g*h/d)*H^(r*t-c*s*t/d)/(d*e*Log[F])*
+    Subst[Int[x^(Numerator[m]-1)*(a+b*x^Denominator[m])^p,x],x,F^(e*(c+d*x)/Denominator[m])] /;
+ RationalQ[m]] /;
+FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t,p},x]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  G^((f-c*g/d)*h)*Int[H^(t*(r+s*x))*(b+a*F^(-e*(c+d*x)))^p,x] /;
+FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && EqQ[d*e*p*Log[F]+g*h*Log[G]] && IntegerQ[p]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  Int[Expand[G^(h*(f+g*x))*H^(t*(r+s*x))*(a+b*F^(e*(c+d*x)))^p,x],x] /;
+FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && PositiveIntegerQ[p]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
+  a^p*G^(h*(f+g*x))*H^(t*(r+s*x))/(g*h*Log[G]+s*t*Log[H])*
+    Hypergeometric2F1[-p,(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F]),(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
+FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && NegativeIntegerQ[p]
+
+
+Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
+  G^(h*(f+g*x))*H^(t*(r+s*x))*(a+b*F^(e*(c+d*x)))^p/((g*h*Log[G]+s*t*Log[H])*((a+b*F^(e*(c+d*x)))/a)^p)*
+    Hypergeometric2F1[-p,(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F]),(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
+FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t,p},x] && Not[IntegerQ[p]]
+
+
+Int[G_^(h_. u_)*H_^(t_. w_)*(a_+b_.*F_^(e_.*v_))^p_,x_Symbol] :=
+  Int[G^(h*ExpandToSum[u,x])*H^(t*ExpandToSum[w,x])*(a+b*F^(e*ExpandToSum[v,x]))^p,x] /;
+FreeQ[{F,G,H,a,b,e,h,t,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
+
+
+Int[F_^(e_.*(c_.+d_.*x_))*(a_.*x_^n_.+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  (a*x^n+b*F^(e*(c+d*x)))^(p+1)/(b*d*e*(p+1)*Log[F]) - 
+  a*n/(b*d*e*Log[F])*Int[x^(n-1)*(a*x^n+b*F^(e*(c+d*x)))^p,x] /;
+FreeQ[{F,a,b,c,d,e,n,p},x] && NeQ[p+1]
+
+
+Int[x_^m_.*F_^(e_.*(c_.+d_.*x_))*(a_.*x_^n_.+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
+  x^m*(a*x^n+b*F^(e*(c+d*x)))^(p+1)/(b*d*e*(p+1)*Log[F]) - 
+  a*n/(b*d*e*Log[F])*Int[x^(m+n-1)*(a*x^n+b*F^(e*(c+d*x)))^p,x] - 
+  m/(b*d*e*(p+1)*Log[F])*Int[x^(m-1)*(a*x^n+b*F^(e*(c+d*x)))^(p+1),x] /;
+FreeQ[{F,a,b,c,d,e,m,n,p},x] && NeQ[p+1]
+
+
+Int[(f_.+g_.*x_)^m_./(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[(f+g*x)^m/(b-q+2*c*F^u),x] - 2*c/q*Int[(f+g*x)^m/(b+q+2*c*F^u),x]] /;
+FreeQ[{F,a,b,c,f,g},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*F_^u_/(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[(f+g*x)^m*F^u/(b-q+2*c*F^u),x] - 2*c/q*Int[(f+g*x)^m*F^u/(b+q+2*c*F^u),x]] /;
+FreeQ[{F,a,b,c,f,g},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*(h_+i_.*F_^u_)/(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]},
+  (Simplify[(2*c*h-b*i)/q]+i)*Int[(f+g*x)^m/(b-q+2*c*F^u),x] - 
+  (Simplify[(2*c*h-b*i)/q]-i)*Int[(f+g*x)^m/(b+q+2*c*F^u),x]] /;
+FreeQ[{F,a,b,c,f,g,h,i},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
+
+
+Int[x_^m_./(a_.*F_^(c_.+d_.*x_)+b_.*F_^v_),x_Symbol] :=
+  With[{u=IntHide[1/(a*F^(c+d*x)+b*F^v),x]},
+  x^m*u - m*Int[x^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d},x] && EqQ[(c+d*x)+v] && RationalQ[m] && m>0
+
+
+Int[u_/(a_+b_.*F_^v_+c_.*F_^w_),x_Symbol] :=
+  Int[u*F^v/(c+a*F^v+b*F^(2*v)),x] /;
+FreeQ[{F,a,b,c},x] && LinearQ[v,x] && LinearQ[w,x] && EqQ[v+w] &&
+  If[RationalQ[Coefficient[v,x,1]], Coefficient[v,x,1]>0, LeafCount[v]<LeafCount[w]]
+
+
+Int[F_^(g_.*(d_.+e_.*x_)^n_.)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[F^(g*(d+e*x)^n),1/(a+b*x+c*x^2),x],x] /;
+FreeQ[{F,a,b,c,d,e,g,n},x]
+
+
+Int[F_^(g_.*(d_.+e_.*x_)^n_.)/(a_+c_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[F^(g*(d+e*x)^n),1/(a+c*x^2),x],x] /;
+FreeQ[{F,a,c,d,e,g,n},x]
+
+
+Int[u_^m_.*F_^(g_.*(d_.+e_.*x_)^n_.)/(a_.+b_.*x_+c_*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[F^(g*(d+e*x)^n),u^m/(a+b*x+c*x^2),x],x] /;
+FreeQ[{F,a,b,c,d,e,g,n},x] && PolynomialQ[u,x] && IntegerQ[m]
+
+
+Int[u_^m_.*F_^(g_.*(d_.+e_.*x_)^n_.)/(a_+c_*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[F^(g*(d+e*x)^n),u^m/(a+c*x^2),x],x] /;
+FreeQ[{F,a,c,d,e,g,n},x] && PolynomialQ[u,x] && IntegerQ[m]
+
+
+Int[F_^((a_.+b_.*x_^4)/x_^2),x_Symbol] :=
+  Sqrt[Pi]*Exp[2*Sqrt[-a*Log[F]]*Sqrt[-b*Log[F]]]*Erf[(Sqrt[-a*Log[F]]+Sqrt[-b*Log[F]]*x^2)/x]/
+    (4*Sqrt[-b*Log[F]]) -
+  Sqrt[Pi]*Exp[-2*Sqrt[-a*Log[F]]*Sqrt[-b*Log[F]]]*Erf[(Sqrt[-a*Log[F]]-Sqrt[-b*Log[F]]*x^2)/x]/
+    (4*Sqrt[-b*Log[F]]) /;
+FreeQ[{F,a,b},x]
+
+
+Int[x_^m_.*(E^x_+x_^m_.)^n_,x_Symbol] :=
+  -(E^x+x^m)^(n+1)/(n+1) +
+  Int[(E^x+x^m)^(n+1),x] +
+  m*Int[x^(m-1)*(E^x+x^m)^n,x] /;
+RationalQ[m,n] && m>0 && n<0 && n!=-1
+
+
+Int[Log[a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.],x_Symbol] :=
+  1/(d*e*n*Log[F])*Subst[Int[Log[a+b*x]/x,x],x,(F^(e*(c+d*x)))^n] /;
+FreeQ[{F,a,b,c,d,e,n},x] && PositiveQ[a]
+
+
+Int[Log[a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.],x_Symbol] :=
+  x*Log[a+b*(F^(e*(c+d*x)))^n] - b*d*e*n*Log[F]*Int[x*(F^(e*(c+d*x)))^n/(a+b*(F^(e*(c+d*x)))^n),x] /;
+FreeQ[{F,a,b,c,d,e,n},x] && Not[PositiveQ[a]]
+
+
+(* Int[u_.*(a_.*F_^v_)^n_,x_Symbol] :=
+  a^n*Int[u*F^(n*v),x] /;
+FreeQ[{F,a},x] && IntegerQ[n] *)
+
+
+Int[u_.*(a_.*F_^v_)^n_,x_Symbol] :=
+  (a*F^v)^n/F^(n*v)*Int[u*F^(n*v),x] /;
+FreeQ[{F,a,n},x] && Not[IntegerQ[n]]
+
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfExponential[u,x]},
+  v/D[v,x]*Subst[Int[FunctionOfExponentialFunction[u,x]/x,x],x,v]] /;
+FunctionOfExponentialQ[u,x]
+
+
+Int[u_.*(a_.*F_^v_+b_.*F_^w_)^n_,x_Symbol] :=
+  Int[u*F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n,x] /;
+FreeQ[{F,a,b,n},x] && NegativeIntegerQ[n] && LinearQ[{v,w},x]
+
+
+Int[u_.*(a_.*F_^v_+b_.*G_^w_)^n_,x_Symbol] :=
+  Int[u*F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n,x] /;
+FreeQ[{F,G,a,b,n},x] && NegativeIntegerQ[n] && LinearQ[{v,w},x]
+
+
+Int[u_.*(a_.*F_^v_+b_.*F_^w_)^n_,x_Symbol] :=
+  (a*F^v+b*F^w)^n/(F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n)*Int[u*F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n,x] /;
+FreeQ[{F,a,b,n},x] && Not[IntegerQ[n]] && LinearQ[{v,w},x]
+
+
+Int[u_.*(a_.*F_^v_+b_.*G_^w_)^n_,x_Symbol] :=
+  (a*F^v+b*G^w)^n/(F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n)*Int[u*F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n,x] /;
+FreeQ[{F,G,a,b,n},x] && Not[IntegerQ[n]] && LinearQ[{v,w},x]
+
+
+Int[u_.*F_^v_*G_^w_,x_Symbol] :=
+  Int[u*NormalizeIntegrand[E^(v*Log[F]+w*Log[G]),x],x] /;
+FreeQ[{F,G},x] && (BinomialQ[v+w,x] || PolynomialQ[v+w,x] && Exponent[v+w,x]<=2)
+
+
+Int[F_^u_*(v_+w_)*y_.,x_Symbol] :=
+  With[{z=v*y/(Log[F]*D[u,x])},
+  F^u*z /;
+ EqQ[D[z,x]-w*y]] /;
+FreeQ[F,x]
+
+
+Int[F_^u_*v_^n_.*w_,x_Symbol] :=
+  With[{z=Log[F]*v*D[u,x]+(n+1)*D[v,x]},
+  Coefficient[w,x,Exponent[w,x]]/Coefficient[z,x,Exponent[z,x]]*F^u*v^(n+1) /;
+ Exponent[w,x]==Exponent[z,x] && EqQ[w*Coefficient[z,x,Exponent[z,x]]-z*Coefficient[w,x,Exponent[w,x]]]] /;
+FreeQ[{F,n},x] && PolynomialQ[u,x] && PolynomialQ[v,x] && PolynomialQ[w,x]
+
+
+
+`)
+
+func resourcesRubi2ExponentialsMBytes() ([]byte, error) {
+	return _resourcesRubi2ExponentialsM, nil
+}
+
+func resourcesRubi2ExponentialsM() (*asset, error) {
+	bytes, err := resourcesRubi2ExponentialsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/2 Exponentials.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi3LogarithmsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Logarithm Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*3.1 u (a+b log(c (d (e+f x)^p)^q))^n*)
+
+
+(* Int[(e_.+f_.*x_)^m_*Log[a_+b_.*x_]*(c_+d_.*x_)^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Log[a+b*x],(e+f*x)^m*(c+d*x)^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && FractionQ[m] && IGtQ[n,0] *)
+
+
+Int[(e_.+f_.*x_)^m_*Log[a_+b_.*x_]*(c_+d_.*x_)^n_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/f*Subst[Int[x^(k*(m+1)-1)*Log[-(b*e-a*f)/f+b*x^k/f]*(-(d*e-c*f)/f+d*x^k/f)^n,x],x,(e+f*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && FractionQ[m] && ILtQ[n,0]
+
+
+Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[c_+d_.*x_]/x_,x_Symbol] :=
+  -Log[g*(h*(b*x)^p)^q]*PolyLog[2,-d*x] + p*q*PolyLog[3,-d*x] /;
+FreeQ[{b,c,d,g,h,p,q},x] && EqQ[c,1]
+
+
+Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[cd_*(c_+d_.*x_)]/x_,x_Symbol] :=
+  -Log[g*(h*(b*x)^p)^q]*PolyLog[2,-cd*d*x] + p*q*PolyLog[3,-cd*d*x] /;
+FreeQ[{b,c,cd,d,g,h,p,q},x] && EqQ[cd*c,1]
+
+
+Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
+  r*s*Int[Log[g*(h*(b*x)^p)^q]*Log[1+d*x]/x,x] - 
+  (r*s*Log[1+d*x]-Log[i*(j*(1+d*x)^r)^s])*Int[Log[g*(h*(b*x)^p)^q]/x,x]/;
+FreeQ[{b,c,d,g,h,i,j,p,q,r,s},x] && EqQ[c,1] && NeQ[1+d*x,i*(j*(1+d*x)^r)^s]
+
+
+Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
+  Log[g*(h*(b*x)^p)^q]^2*Log[i*(j*(c+d*x)^r)^s]/(2*p*q) - d*r*s/(2*p*q)*Int[Log[g*(h*(b*x)^p)^q]^2/(c+d*x),x]/;
+FreeQ[{b,c,d,g,h,i,j,p,q,r,s},x] && NeQ[c,1]
+
+
+Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
+  Log[x]*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s] - 
+  d*r*s*Int[Log[x]*Log[g*(h*(a+b*x)^p)^q]/(c+d*x),x] - 
+  d*p*q*Int[Log[x]*Log[i*(j*(c+d*x)^r)^s]/(c+d*x),x]/;
+FreeQ[{a,b,c,d,g,h,i,j,p,q,r,s},x] && EqQ[b*c-a*d,0]
+
+
+(*Int[Log[a_+b_.*x_]*Log[c_+d_.*x_]/x_,x_Symbol] :=*)
+  (*Log[-b*x/a]*Log[a+b*x]*Log[c+d*x] + *)
+  (*1/2*Log[-b*x/a]*Log[a*(c+d*x)/(c*(a+b*x))]^2 + *)
+  (*1/2*Log[-(b*c-a*d)/(d*(a+b*x))]*Log[a*(c+d*x)/(c*(a+b*x))]^2 - *)
+  (*1/2*Log[a*(c+d*x)/(c*(a+b*x))]^2*Log[(b*c-a*d)*x/(c*(a+b*x))] - *)
+  (*Log[-b*x/a]*Log[a+b*x]*Log[1+d*x/c] + *)
+  (*Log[-(d*x/c)]*Log[a+b*x]*Log[1+d*x/c] - *)
+  (*Log[-b*x/a]*Log[a*(c+d*x)/(c*(a+b*x))]*Log[1+d*x/c] + *)
+  (*Log[-d*x/c]*Log[a*(c+d*x)/(c*(a+b*x))]*Log[1+d*x/c] + *)
+  (*1/2*Log[-b*x/a]*Log[1+d*x/c]^2 - *)
+  (*1/2*Log[-d*x/c]*Log[1+d*x/c]^2 + *)
+  (*Log[c+d*x]*PolyLog[2,1+b*x/a] - *)
+  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,1+b*x/a] - *)
+  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,a*(c+d*x)/(c*(a+b*x))] + *)
+  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,b*(c+d*x)/(d*(a+b*x))] + *)
+  (*Log[a+b*x]*PolyLog[2,1+d*x/c] + *)
+  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,1+d*x/c] - *)
+  (*PolyLog[3,1+b*x/a] +*)
+  (*PolyLog[3,a*(c+d*x)/(c*(a+b*x))] - *)
+  (*PolyLog[3,b*(c+d*x)/(d*(a+b*x))] - *)
+  (*PolyLog[3,1+d*x/c]/;*)
+(*FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]*)
+
+
+Int[Log[v_]*Log[w_]/x_,x_Symbol] :=
+  Int[Log[ExpandToSum[v,x]]*Log[ExpandToSum[w,x]]/x,x] /;
+LinearQ[{v,w},x] && Not[LinearMatchQ[{v,w},x]]
+
+
+Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
+  p*q*Int[Log[a+b*x]*Log[i*(j*(c+d*x)^r)^s]/x,x] - 
+  (p*q*Log[a+b*x]-Log[g*(h*(a+b*x)^p)^q])*Int[Log[i*(j*(c+d*x)^r)^s]/x,x]/;
+FreeQ[{a,b,c,d,g,h,i,j,p,q,r,s},x] && NeQ[b*c-a*d,0] && NeQ[a+b*x,g*(h*(a+b*x)^p)^q]
+
+
+Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/(e_+f_.*x_),x_Symbol] :=
+  1/f*Subst[Int[Log[g*(h*Simp[-(b*e-a*f)/f+b*x/f,x]^p)^q]*Log[i*(j*Simp[-(d*e-c*f)/f+d*x/f,x]^r)^s]/x,x],x,e+f*x]/;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s},x]
+
+
+Int[(e_.+f_.*x_)^m_.*Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.],x_Symbol] :=
+  (e+f*x)^(m+1)*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s]/(f*(m+1)) - 
+  d*r*s/(f*(m+1))*Int[(e+f*x)^(m+1)*Log[g*(h*(a+b*x)^p)^q]/(c+d*x),x] - 
+  b*p*q/(f*(m+1))*Int[(e+f*x)^(m+1)*Log[i*(j*(c+d*x)^r)^s]/(a+b*x),x]/;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,m,p,q,r,s},x] && m!=-1 && RationalQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.],x_Symbol] :=
+  Defer[Int][(e+f*x)^m*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s],x]/;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,m,p,q,r,s},x]
+
+
+Int[Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.],x_Symbol] :=
+  (e+f*x)*Log[c*(d*(e+f*x)^p)^q]/f - p*q*x /;
+FreeQ[{c,d,e,f,p,q},x]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/f - b*n*p*q*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && GtQ[n,0]
+
+
+Int[1/Log[d_.*(e_.+f_.*x_)],x_Symbol] :=
+  LogIntegral[d*(e+f*x)]/(d*f) /;
+FreeQ[{d,e,f},x]
+
+
+Int[1/(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
+  (e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*ExpIntegralEi[(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
+FreeQ[{a,b,c,d,e,f,p,q},x]
+
+
+Int[1/Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
+  Sqrt[Pi]*Rt[b*p*q,2]*(e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*
+    Erfi[Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]/Rt[b*p*q,2]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && PosQ[b*p*q]
+
+
+Int[1/Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
+  Sqrt[Pi]*Rt[-b*p*q,2]*(e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*
+    Erf[Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]/Rt[-b*p*q,2]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && NegQ[b*p*q]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*f*p*q*(n+1)) - 
+  1/(b*p*q*(n+1))*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && LtQ[n,-1]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/
+    (f*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q))*(-(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q))^n)*
+    Gamma[n+1,-(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && Not[IntegerQ[2*n]]
+
+
+Int[1/((g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])),x_Symbol] :=
+  Log[RemoveContent[a+b*Log[c*(d*(e+f*x)^p)^q],x]]/(b*h*p*q) /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[f*g-e*h,0]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
+  (a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p,q},x] && EqQ[f*g-e*h,0] && NeQ[n,-1]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(h*(m+1)) - 
+  b*n*p*q/(m+1)*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && GtQ[n,0]
+
+
+Int[(g_.+h_.*x_)^m_./Log[d_.*(e_.+f_.*x_)^p_.],x_Symbol] :=
+  (h/f)^(p-1)*LogIntegral[d*(e+f*x)^p]/(d*f*p) /;
+FreeQ[{d,e,f,g,h,m,p},x] && EqQ[m-(p-1),0] && EqQ[f*g-e*h,0] && (IntegerQ[p] || PositiveQ[h/f])
+
+
+Int[(g_.+h_.*x_)^m_/Log[d_.*(e_.+f_.*x_)^p_.],x_Symbol] :=
+  (g+h*x)^(p-1)/(e+f*x)^(p-1)*Int[(e+f*x)^(p-1)/Log[d*(e+f*x)^p],x] /;
+FreeQ[{d,e,f,g,h,m,p},x] && EqQ[m-(p-1),0] && EqQ[f*g-e*h,0] && Not[IntegerQ[p] || PositiveQ[h/f]]
+
+
+Int[(g_.+h_.*x_)^m_./(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
+  (g+h*x)^(m+1)/(b*h*p*q*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
+    ExpIntegralEi[(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1]
+
+
+Int[(g_.+h_.*x_)^m_./Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
+  Sqrt[Pi]*(g+h*x)^(m+1)/(b*h*p*q*Rt[(m+1)/(b*p*q),2]*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
+    Erfi[Rt[(m+1)/(b*p*q),2]*Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && PosQ[(m+1)/(b*p*q)]
+
+
+Int[(g_.+h_.*x_)^m_./Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
+  Sqrt[Pi]*(g+h*x)^(m+1)/(b*h*p*q*Rt[-(m+1)/(b*p*q),2]*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
+    Erf[Rt[-(m+1)/(b*p*q),2]*Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && NegQ[(m+1)/(b*p*q)]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) - 
+  (m+1)/(b*p*q*(n+1))*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && LtQ[n,-1]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/
+    (h*(m+1)*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q))*(-(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q))^n)*
+    Gamma[n+1,-(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[f*g-e*h,0] && NeQ[m,-1]
+
+
+Int[Log[c_.*(e_.+f_.*x_)]/(g_.+h_.*x_),x_Symbol] :=
+  -1/h*PolyLog[2,-Together[c*f/h]*(g+h*x)] /;
+FreeQ[{c,e,f,g,h},x] && EqQ[h+c*(f*g-e*h),0]
+
+
+Int[(a_.+b_.*Log[c_.*(e_.+f_.*x_)])/(g_.+h_.*x_),x_Symbol] :=
+  (a+b*Log[c*(e-f*g/h)])*Log[g+h*x]/h + b*Int[Log[-h*(e+f*x)/(f*g-e*h)]/(g+h*x),x] /;
+FreeQ[{a,b,c,e,f,g,h},x] && NeQ[h+c*(f*g-e*h),0] && PositiveQ[c*(e-f*g/h)]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
+  (a+b*Log[c*(d*(e+f*x)^p)^q])^n/h*Log[f*(g+h*x)/(f*g-e*h)] - 
+  b*f*n*p*q/h*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)*Log[f*(g+h*x)/(f*g-e*h)]/(e+f*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[n]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
+  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(h*(m+1)) - 
+  b*f*p*q/(h*(m+1))*Int[(g+h*x)^(m+1)/(e+f*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && NeQ[f*g-e*h,0] && NeQ[m,-1]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_/(g_.+h_.*x_)^2,x_Symbol] :=
+  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/((f*g-e*h)*(g+h*x)) - 
+  b*f*n*p*q/(f*g-e*h)*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)/(g+h*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && GtQ[n,0]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(h*(m+1)) - 
+  b*f*n*p*q/(h*(m+1))*Int[(g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)/(e+f*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && NeQ[f*g-e*h,0] && GtQ[n,0] && NeQ[m,-1] && IntegersQ[2*m,2*n] && 
+  (n==1 || Not[PositiveIntegerQ[m]] || n==2 && NeQ[m,1])
+
+
+Int[(g_.+h_.*x_)^m_./(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
+  Int[ExpandIntegrand[(g+h*x)^m/(a+b*Log[c*(d*(e+f*x)^p)^q]),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[m]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  (e+f*x)*(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*f*p*q*(n+1)) + 
+  m*(f*g-e*h)/(b*f*p*q*(n+1))*Int[(g+h*x)^(m-1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] - 
+  (m+1)/(b*p*q*(n+1))*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && LtQ[n,-1] && GtQ[m,0]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,n,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[m]
+
+
+Int[u_^m_.*(a_.+b_.*Log[c_.*(d_.*v_^p_)^q_.])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Log[c*(d*ExpandToSum[v,x]^p)^q])^n,x] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  Defer[Int][(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x]
+
+
+Int[Log[c_./(e_.+f_.*x_)]/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
+  f/(h*(f*i-e*j))*PolyLog[2,Simplify[f*(i+j*x)/(j*(e+f*x))]] /;
+FreeQ[{c,e,f,g,h,i,j},x] && EqQ[f*g-e*h,0] && EqQ[f*i+j*(c-e),0]
+
+
+Int[(a_+b_.*Log[c_./(e_.+f_.*x_)])/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
+  a*Int[1/((g+h*x)*(i+j*x)),x] + b*Int[Log[c/(e+f*x)]/((g+h*x)*(i+j*x)),x] /;
+FreeQ[{a,b,c,e,f,g,h,i,j},x] && EqQ[f*g-e*h,0] && EqQ[f*i+j*(c-e),0]
+
+
+Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(g_.+h_.*x_),x_Symbol] :=
+  With[{u=IntHide[(i+j*x)^m/(g+h*x),x]},
+  Dist[a+b*Log[c*(d*(e+f*x)^p)^q],u] - b*h*p*q*Int[SimplifyIntegrand[u/(g+h*x),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q},x] && EqQ[f*g-e*h,0] && IntegerQ[m+1/2]
+
+
+Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(e_.+f_.*x_)])^n_./(g_.+h_.*x_),x_Symbol] :=
+  1/(c^m*f^m*h)*Subst[Int[(a+b*x)^n*(c*f*i-c*e*j+j*E^x)^m,x],x,Log[c*(e+f*x)]] /;
+FreeQ[{a,b,c,e,f,g,h,i,j,n},x] && EqQ[f*g-e*h,0] && PositiveIntegerQ[m] && (IntegerQ[n] || m>0)
+
+
+Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
+  With[{u=ExpandIntegrand[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,(i+j*x)^m/(g+h*x),x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q},x] && IntegerQ[m] && PositiveIntegerQ[n]
+
+
+Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
+  Defer[Int][(i+j*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(g+h*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,m,n,p,q},x]
+
+
+Int[Log[j_.*(k_.+m_.*x_)]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  -PolyLog[2,Together[1-j*(k+m*x)]]/h*(a+b*Log[c*(d*(e+f*x)^p)^q])^n + 
+  b*f*n*p*q/h*Int[PolyLog[2,Together[1-j*(k+m*x)]]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,j,k,m,p,q},x] && EqQ[h-h*j*k+g*j*m,0] && GtQ[n,0]
+
+
+Int[Log[i_.*(j_.*(k_.+m_.*x_)^r_.)^s_.]*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
+  Log[i*(j*(k+m*x)^r)^s]*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) - 
+  m*r*s/(b*h*p*q*(n+1))*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(k+m*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,n,p,q,r,s},x] && EqQ[f*g-e*h,0] && NeQ[n,-1]
+
+
+Int[Log[c_./(e_.+f_.*x_)]/(g_+h_.*x_^2),x_Symbol] :=
+  -f/(2*e*h)*PolyLog[2,Simplify[(-e+f*x)/(e+f*x)]] /;
+FreeQ[{c,e,f,g,h},x] && EqQ[f^2*g+e^2*h,0] && EqQ[c-2*e,0]
+
+
+Int[(a_.+b_.*Log[c_./(e_.+f_.*x_)])/(g_+h_.*x_^2),x_Symbol] :=
+  (a+b*Log[c/(2*e)])*Int[1/(g+h*x^2),x] + b*Int[Log[2*e/(e+f*x)]/(g+h*x^2),x] /;
+FreeQ[{c,e,f,g,h},x] && EqQ[f^2*g+e^2*h,0] && PositiveQ[c/(2*e)] && (NeQ[c-2*e,0] || NeQ[a,0])
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(g_.+h_.*x_+i_.*x_^2),x_Symbol] :=
+  e*f*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/((e+f*x)*(f*g+e*i*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,p,q},x] && EqQ[f^2*g-e*f*h+e^2*i,0]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_+f_.*x_)^p_.)^q_.])/(g_+i_.*x_^2),x_Symbol] :=
+  e*f*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/((e+f*x)*(f*g+e*i*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,i,p,q},x] && EqQ[f^2*g+e^2*i,0]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/Sqrt[g_+h_.*x_^2],x_Symbol] :=
+  With[{u=IntHide[1/Sqrt[g+h*x^2],x]},  
+  u*(a+b*Log[c*(d*(e+f*x)^p)^q]) - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && PositiveQ[g]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(Sqrt[g1_+h1_.*x_]*Sqrt[g2_+h2_.*x_]),x_Symbol] :=
+  With[{u=IntHide[1/Sqrt[g1*g2+h1*h2*x^2],x]},  
+  u*(a+b*Log[c*(d*(e+f*x)^p)^q]) - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g1,h1,g2,h2,p,q},x] && EqQ[g2*h1+g1*h2,0] && PositiveQ[g1] && PositiveQ[g2]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/Sqrt[g_+h_.*x_^2],x_Symbol] :=
+  Sqrt[1+h/g*x^2]/Sqrt[g+h*x^2]*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/Sqrt[1+h/g*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && Not[PositiveQ[g]]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(Sqrt[g1_+h1_.*x_]*Sqrt[g2_+h2_.*x_]),x_Symbol] :=
+  Sqrt[1+h1*h2/(g1*g2)*x^2]/(Sqrt[g1+h1*x]*Sqrt[g2+h2*x])*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/Sqrt[1+h1*h2/(g1*g2)*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,g1,h1,g2,h2,p,q},x] && EqQ[g2*h1+g1*h2,0]
+
+
+Int[Log[1+i_.*(j_.+k_.*x_)^m_.]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  -PolyLog[2,-i*(j+k*x)^m]/(h*m)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n + 
+  b*f*n*p*q/(h*m)*Int[PolyLog[2,-i*(j+k*x)^m]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,p,q},x] && GtQ[n,0] && EqQ[h*j-g*k,0]
+
+
+Int[PolyLog[r_,i_.*(j_.+k_.*x_)^m_.]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  PolyLog[r+1,i*(j+k*x)^m]/(h*m)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n - 
+  b*f*n*p*q/(h*m)*Int[PolyLog[r+1,i*(j+k*x)^m]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,p,q,r},x] && GtQ[n,0] && EqQ[h*j-g*k,0]
+
+
+Int[Px_.*F_[g_.+h_.*x_]^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
+  With[{u=IntHide[Px*F[g+h*x]^m,x]},
+  Dist[(a+b*Log[c*(d*(e+f*x)^p)^q]),u,x] - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && PolynomialQ[Px,x] && PositiveIntegerQ[m] && 
+  MemberQ[{Log,ArcSin,ArcCos,ArcTan,ArcCot,ArcSinh, ArcCosh,ArcTanh, ArcCoth},F]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(e_+f_.*x_^m_)^p_.)^q_.])^n_./x_,x_Symbol] :=
+  1/m*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n/x,x],x,x^m] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.*(x_^m_*(f_+e_.*x_^r_.))^p_.)^q_.])^n_./x_,x_Symbol] :=
+  1/m*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n/x,x],x,x^m] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[m+r,0] && PositiveIntegerQ[n]
+
+
+Int[x_^r1_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_^r_)^p_.)^q_.])^n_.,x_Symbol] :=
+  1/r*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x,x^r] /;
+FreeQ[{a,b,c,d,e,f,n,p,q,r},x] && EqQ[r1-(r-1),0]
+
+
+Int[x_^r1_.*(g_.+h_.*x_^r_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_^r_)^p_.)^q_.])^n_.,x_Symbol] :=
+  1/r*Subst[Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x,x^r] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q,r},x] && EqQ[r1-(r-1),0]
+
+
+Int[(a_.+b_.*Log[c_.*x_^n_.])/(d_+e_.*x_^2),x_Symbol] :=
+  With[{u=IntHide[1/(d+e*x^2),x]},  
+  Dist[(a+b*Log[c*x^n]),u] - b*n*Int[u/x,x]] /;
+FreeQ[{a,b,c,d,e,n},x]
+
+
+Int[Log[c_.*(a_.+b_.*x_^mn_)]/(x_*(d_+e_.*x_^n_.)),x_Symbol] :=
+  1/(d*n)*PolyLog[2,-Together[b*c*(d+e*x^n)/(d*x^n)]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n+mn,0] && EqQ[d-a*c*d+b*c*e,0]
+
+
+Int[Log[c_.*x_^mn_*(b_.+a_.*x_^n_.)]/(x_*(d_+e_.*x_^n_.)),x_Symbol] :=
+  1/(d*n)*PolyLog[2,-Together[b*c*(d+e*x^n)/(d*x^n)]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n+mn,0] && EqQ[d-a*c*d+b*c*e,0]
+
+
+Int[Px_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q},x] && PolynomialQ[Px,x]
+
+
+Int[RFx_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[RFx*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,p,q},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[u_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_+g_.*x_^2)^p_.)^q_.])^n_.,x_Symbol] :=
+  Int[u*(a+b*Log[c*(d*(f+2*g*x)^(2*p)/(4^p*g^p))^q])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,q,n},x] && EqQ[f^2-4*e*g,0] && IntegerQ[p]
+
+
+Int[u_.*(a_.+b_.*Log[c_.*(d_.*v_^p_.)^q_.])^n_.,x_Symbol] :=
+  Int[u*(a+b*Log[c*(d*ExpandToSum[v,x]^p)^q])^n,x] /;
+FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[v,x] && 
+  Not[MatchQ[c*(d*v^p)^q, cc_.*(dd_.*(e_.+f_.*x)^pp_.)^qq_. /; FreeQ[{cc,dd,e,f,pp,qq},x]]]
+
+
+Int[Log[a_.*(b_.*(c_.*x_^n_.)^p_)^q_]^r_.,x_Symbol] :=
+  Subst[Int[Log[x^(n*p*q)]^r,x],x^(n*p*q),a*(b*(c*x^n)^p)^q] /;
+FreeQ[{a,b,c,n,p,q,r},x]
+
+
+Int[x_^m_.*Log[a_.*(b_.*(c_.*x_^n_.)^p_)^q_]^r_.,x_Symbol] :=
+  Subst[Int[x^m*Log[x^(n*p*q)]^r,x],x^(n*p*q),a*(b*(c*x^n)^p)^q] /;
+FreeQ[{a,b,c,m,n,p,q,r},x] && NeQ[m,-1] && Not[x^(n*p*q)===a*(b*(c*x^n)^p)^q]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*3.2 u log(e (f (a+b x)^p (c+d x)^q)^r)^s*)
+
+
+Int[u_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  Int[u*Log[e*(b^p*f/d^p*(c+d*x)^(p+q))^r]^s,x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && EqQ[b*c-a*d,0] && IntegerQ[p]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  (a+b*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/b - 
+  r*s/b*Int[(b*c*p+a*d*q+b*d*(p+q)*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0]
+
+
+Int[Log[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]/(g_.+h_.*x_),x_Symbol] :=
+  1/h*PolyLog[2,Together[c-a*e]/(c+d*x)] /;
+FreeQ[{a,b,c,d,e,g,h},x] && NeQ[b*c-a*d,0] && EqQ[d*g-c*h,0] && EqQ[d-b*e,0]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./(g_.+h_.*x_),x_Symbol] :=
+  -Log[-(b*c-a*d)/(d*(a+b*x))]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/h + 
+  p*r*s (b*c-a*d)/h*Int[Log[-(b*c-a*d)/(d*(a+b*x))]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[b*g-a*h,0] && EqQ[p+q,0]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]/(g_.+h_.*x_),x_Symbol] :=
+  Log[g+h*x]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]/h - 
+  b*p*r/h*Int[Log[g+h*x]/(a+b*x),x] - 
+  d*q*r/h*Int[Log[g+h*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r},x] && NeQ[b*c-a*d,0]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_/(g_.+h_.*x_),x_Symbol] :=
+  d/h*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(c+d*x),x] - 
+  (d*g-c*h)/h*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((c+d*x)*(g+h*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,1]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./(g_.+h_.*x_)^2,x_Symbol] :=
+  (a+b*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((b*g-a*h)*(g+h*x)) - 
+  p*r*s*(b*c-a*d)/(b*g-a*h)*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((c+d*x)*(g+h*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && NeQ[b*g-a*h,0]
+
+
+Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_/(g_.+h_.*x_)^3,x_Symbol] :=
+  d/(d*g-c*h)*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(g+h*x)^2,x] - 
+  h/(d*g-c*h)*Int[(c+d*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(g+h*x)^3,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && EqQ[b*g-a*h,0] && NeQ[d*g-c*h,0]
+
+
+Int[(g_.+h_.*x_)^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  (g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(h*(m+1)) - 
+  p*r*s*(b*c-a*d)/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && NeQ[m,-1] && EqQ[p+q,0]
+
+
+Int[(g_.+h_.*x_)^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  (g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(h*(m+1)) - 
+  b*p*r*s/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(a+b*x),x] - 
+  d*q*r*s/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && NeQ[m,-1] && NeQ[p+q,0]
+
+
+Int[1/((g_.+h_.*x_)^2*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]),x_Symbol] :=
+  b*(c+d*x)*(e*(f*(a+b*x)^p*(c+d*x)^q)^r)^(1/(p*r))/(h*p*r*(b*c-a*d)*(g+h*x))*
+    ExpIntegralEi[-1/(p*r)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]] /;
+FreeQ[{a,b,c,d,e,f,g,h,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[b*g-a*h,0]
+
+
+Int[Log[i_.*(j_.*(h_.*x_)^t_.)^u_.]^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]/x_,x_Symbol] :=
+  Log[i*(j*(h*x)^t)^u]^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]/(t*u*(m+1)) - 
+  b*p*r/(t*u*(m+1))*Int[Log[i*(j*(h*x)^t)^u]^(m+1)/(a+b*x),x] - 
+  d*q*r/(t*u*(m+1))*Int[Log[i*(j*(h*x)^t)^u]^(m+1)/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f,h,i,j,m,p,q,r,t,u},x] && NeQ[b*c-a*d,0] && IGtQ[m,0]
+
+
+Int[Log[i_.*(j_.*(h_.*x_)^t_.)^u_.]^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./x_,x_Symbol] :=
+  Defer[Int][Log[i*(j*(h*x)^t)^u]^m*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/x,x] /;
+FreeQ[{a,b,c,d,e,f,h,i,j,m,p,q,r,s,t,u},x] && NeQ[b*c-a*d,0]
+
+
+Int[u_*Log[e_.*(c_.+d_.*x_)/(a_.+b_.*x_)],x_Symbol] :=
+  With[{g=Coeff[Simplify[1/(u*(a+b*x))],x,0],h=Coeff[Simplify[1/(u*(a+b*x))],x,1]},
+  -(b-d*e)*PolyLog[2,(b-d*e)*(g+h*x)/(h*(a+b*x))]/(e*h*(b*c-a*d)) /;
+ EqQ[g*(b-d*e)-h*(a-c*e),0]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d,0] && LinearQ[Simplify[1/(u*(a+b*x))],x]
+
+
+Int[u_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{g=Coeff[Simplify[1/(u*(a+b*x))],x,0],h=Coeff[Simplify[1/(u*(a+b*x))],x,1]},
+  -Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*g-a*h)*Log[-(b*c-a*d)*(g+h*x)/((d*g-c*h)*(a+b*x))] + 
+  p*r*s*(b*c-a*d)/(b*g-a*h)*
+    Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x))*Log[-(b*c-a*d)*(g+h*x)/((d*g-c*h)*(a+b*x))],x] /;
+ NeQ[b*g-a*h,0] && NeQ[d*g-c*h,0]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && LinearQ[Simplify[1/(u*(a+b*x))],x]
+
+
+Int[u_/Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
+  With[{h=Simplify[u*(a+b*x)*(c+d*x)]},
+  h*Log[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]]/(p*r*(b*c-a*d)) /;
+ FreeQ[h,x]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0]
+
+
+Int[u_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{h=Simplify[u*(a+b*x)*(c+d*x)]},
+  h*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(p*r*(s+1)*(b*c-a*d)) /;
+ FreeQ[h,x]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && NeQ[s,-1]
+
+
+Int[u_*Log[v_]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{g=Simplify[(v-1)*(c+d*x)/(a+b*x)],h=Simplify[u*(a+b*x)*(c+d*x)]},
+  -h*PolyLog[2,-g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*c-a*d) + 
+  h*p*r*s*Int[PolyLog[2,-g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
+ FreeQ[{g,h},x]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0]
+
+
+Int[v_*Log[i_.*(j_.*(g_.+h_.*x_)^t_.)^u_.]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{k=Simplify[v*(a+b*x)*(c+d*x)]},
+  k*Log[i*(j*(g+h*x)^t)^u]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(p*r*(s+1)*(b*c-a*d)) - 
+  k*h*t*u/(p*r*(s+1)*(b*c-a*d))*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(g+h*x),x] /;
+ FreeQ[k,x]] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s,t,u},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && NeQ[s,-1]
+
+
+Int[u_*PolyLog[n_,v_]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{g=Simplify[v*(c+d*x)/(a+b*x)],h=Simplify[u*(a+b*x)*(c+d*x)]},
+  h*PolyLog[n+1,g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*c-a*d) - 
+  h*p*r*s*Int[PolyLog[n+1,g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
+ FreeQ[{g,h},x]] /;
+FreeQ[{a,b,c,d,e,f,n,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^(n+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((m+1)*(b*c-a*d)) - 
+  p*r*s*(b*c-a*d)/((m+1)*(b*c-a*d))*Int[(a+b*x)^m*(c+d*x)^n*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r,s},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[m+n+2,0] && NeQ[m,-1] && IGtQ[s,0]
+
+
+Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_./Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
+  (a+b*x)^(m+1)*(c+d*x)^(n+1)/(p*r*(b*c-a*d)*(e*(f*(a+b*x)^p*(c+d*x)^q)^r)^((m+1)/(p*r)))*
+    ExpIntegralEi[(m+1)/(p*r)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[m+n+2,0] && NeQ[m,-1]
+
+
+Int[RFx_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
+  p*r*Int[RFx*Log[a+b*x],x] + 
+  q*r*Int[RFx*Log[c+d*x],x] - 
+  (p*r*Log[a+b*x]+q*r*Log[c+d*x] - Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r])*Int[RFx,x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && RationalFunctionQ[RFx,x] && NeQ[b*c-a*d,0] && 
+  Not[MatchQ[RFx,u_.*(a+b*x)^m_.*(c+d*x)^n_. /; IntegersQ[m,n]]]
+
+
+(* Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
+  With[{u=IntHide[RFx,x]},  
+  u*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r] - b*p*r*Int[u/(a+b*x),x] - d*q*r*Int[u/(c+d*x),x] /;
+ NonsumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r},x] && RationalFunctionQ[RFx,x] && NeQ[b*c-a*d,0] *)
+
+
+Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && RationalFunctionQ[RFx,x] && IGtQ[s,0]
+
+
+Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
+  Defer[Int][RFx*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s,x] /;
+FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && RationalFunctionQ[RFx,x]
+
+
+Int[u_.*Log[e_.*(f_.*v_^p_.*w_^q_.)^r_.]^s_.,x_Symbol] :=
+  Int[u*Log[e*(f*ExpandToSum[v,x]^p*ExpandToSum[w,x]^q)^r]^s,x] /;
+FreeQ[{e,f,p,q,r,s},x] && LinearQ[{v,w},x] && Not[LinearMatchQ[{v,w},x]]
+
+
+Int[u_.*Log[e_.*(f_.*(g_+v_/w_))^r_.]^s_.,x_Symbol] :=
+  Int[u*Log[e*(f*ExpandToSum[g*w+v,x]/ExpandToSum[w,x])^r]^s,x] /;
+FreeQ[{e,f,g,r,s},x] && LinearQ[{v,w},x]
+
+
+(* Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/(e_+f_.*x_),x_Symbol] :=
+  1/f*Subst[Int[Log[g*(h*Simp[-(b*e-a*f)/f+b*x/f,x]^p)^q]*Log[i*(j*Simp[-(d*e-c*f)/f+d*x/f,x]^r)^s]/x,x],x,e+f*x] /;
+FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s},x] *)
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*3.3 Miscellaneous logarithms*)
+
+
+Int[Log[c_.*(a_.+b_.*x_^n_)^p_.],x_Symbol] :=
+  x*Log[c*(a+b*x^n)^p] -
+  b*n*p*Int[x^n/(a+b*x^n),x] /;
+FreeQ[{a,b,c,n,p},x]
+
+
+Int[Log[c_.*v_^p_.],x_Symbol] :=
+  Int[Log[c*ExpandToSum[v,x]^p],x] /;
+FreeQ[{c,p},x] && BinomialQ[v,x] && Not[BinomialMatchQ[v,x]]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.])/(f_.+g_.*x_),x_Symbol] :=
+  Log[f+g*x]*(a+b*Log[c*(d+e*x^n)^p])/g - 
+  b*e*n*p/g*Int[x^(n-1)*Log[f+g*x]/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x]
+
+
+Int[(f_.+g_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.]),x_Symbol] :=
+  (f+g*x)^(m+1)*(a+b*Log[c*(d+e*x^n)^p])/(g*(m+1)) - 
+  b*e*n*p/(g*(m+1))*Int[x^(n-1)*(f+g*x)^(m+1)/(d+e*x^n),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[m+1]
+
+
+Int[u_^m_.*(a_.+b_.*Log[c_.*v_^p_.]),x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Log[c*ExpandToSum[v,x]^p]),x] /;
+FreeQ[{a,b,c,m,p},x] && LinearQ[u,x] && BinomialQ[v,x] && Not[LinearMatchQ[u,x] && BinomialMatchQ[v,x]]
+
+
+Int[ArcSin[f_.+g_.*x_]^m_.*(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.]),x_Symbol] :=
+  With[{w=IntHide[ArcSin[f+g*x]^m,x]},  
+  Dist[a+b*Log[c*(d+e*x^n)^p],w,x] - 
+  b*e*n*p*Int[SimplifyIntegrand[x^(n-1)*w/(d+e*x^n),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && PositiveIntegerQ[m]
+
+
+Int[(a_.+b_.*Log[c_.*(d_.+e_.*x_^2)^p_.])/(f_.+g_.*x_^2),x_Symbol] :=
+  With[{u=IntHide[1/(f+g*x^2),x]},  
+  u*(a+b*Log[c*(d+e*x^2)^p]) - 2*b*e*p*Int[(x*u)/(d+e*x^2),x]] /;
+FreeQ[{a,b,c,d,e,f,g,p},x]
+
+
+Int[(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
+  x*(a+b*Log[c*(d+e*x^2)^p])^n - 
+  2*b*e*n*p*Int[x^2*(a+b*Log[c*(d+e*x^2)^p])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
+  1/2*Subst[Int[x^((m-1)/2)*(a+b*Log[c*(d+e*x)^p])^n,x],x,x^2] /;
+FreeQ[{a,b,c,d,e,p},x] && PositiveIntegerQ[n] && IntegerQ[(m-1)/2]
+
+
+Int[x_^m_.*(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*Log[c*(d+e*x^2)^p])^n/(m+1) - 
+  2*b*e*n*p/(m+1)*Int[x^(m+2)*(a+b*Log[c*(d+e*x^2)^p])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && PositiveIntegerQ[n] && Not[IntegerQ[(m-1)/2]]
+
+
+Int[u_*Log[v_],x_Symbol] :=
+  With[{w=DerivativeDivides[v,u*(1-v),x]},
+  w*PolyLog[2,Together[1-v]] /;
+ Not[FalseQ[w]]]
+
+
+Int[(a_.+b_.*Log[u_])*Log[v_]*w_,x_Symbol] :=
+  With[{z=DerivativeDivides[v,w*(1-v),x]},
+  z*(a+b*Log[u])*PolyLog[2,Together[1-v]] - 
+  b*Int[SimplifyIntegrand[z*PolyLog[2,Together[1-v]]*D[u,x]/u,x],x] /;
+ Not[FalseQ[z]]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x]
+
+
+Int[Log[c_.*(a_+b_.*(d_.+e_.*x_)^n_)^p_.],x_Symbol] :=
+  (d+e*x)*Log[c*(a+b*(d+e*x)^n)^p]/e -
+  b*n*p*Int[1/(b+a*(d+e*x)^(-n)),x] /;
+FreeQ[{a,b,c,d,e,p},x] && RationalQ[n] && n<0
+
+
+Int[Log[c_.*(a_+b_.*(d_.+e_.*x_)^n_.)^p_.],x_Symbol] :=
+  (d+e*x)*Log[c*(a+b*(d+e*x)^n)^p]/e - n*p*x +
+  a*n*p*Int[1/(a+b*(d+e*x)^n),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[RationalQ[n] && n<0]
+
+
+Int[(a_.+b_.*Log[c_.*(d_+e_./(f_.+g_.*x_))^p_.])^n_.,x_Symbol] :=
+  (e+d*(f+g*x))*(a+b*Log[c*(d+e/(f+g*x))^p])^n/(d*g) - 
+  b*e*n*p/(d*g)*Subst[Int[(a+b*Log[c*(d+e*x)^p])^(n-1)/x,x],x,1/(f+g*x)] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
+  x*(a+b*Log[c*RFx^p])^n - 
+  b*n*p*Int[SimplifyIntegrand[x*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x],x] /;
+FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*Log[c_.*RFx_^p_.])^n_./(d_.+e_.*x_),x_Symbol] :=
+  Log[d+e*x]*(a+b*Log[c*RFx^p])^n/e - 
+  b*n*p/e*Int[Log[d+e*x]*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x] /;
+FreeQ[{a,b,c,d,e,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*Log[c*RFx^p])^n/(e*(m+1)) - 
+  b*n*p/(e*(m+1))*Int[SimplifyIntegrand[(d+e*x)^(m+1)*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && (n==1 || IntegerQ[m]) && NeQ[m+1]
+
+
+Int[Log[c_.*RFx_^n_.]/(d_+e_.*x_^2),x_Symbol] :=
+  With[{u=IntHide[1/(d+e*x^2),x]},  
+  u*Log[c*RFx^n] - n*Int[SimplifyIntegrand[u*D[RFx,x]/RFx,x],x]] /;
+FreeQ[{c,d,e,n},x] && RationalFunctionQ[RFx,x] && Not[PolynomialQ[RFx,x]]
+
+
+Int[Log[c_.*Px_^n_.]/Qx_,x_Symbol] :=
+  With[{u=IntHide[1/Qx,x]},  
+  u*Log[c*Px^n] - n*Int[SimplifyIntegrand[u*D[Px,x]/Px,x],x]] /;
+FreeQ[{c,n},x] && QuadraticQ[{Qx,Px},x] && EqQ[D[Px/Qx,x]]
+
+
+Int[RGx_*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(a+b*Log[c*RFx^p])^n,RGx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && RationalFunctionQ[RGx,x] && PositiveIntegerQ[n]
+
+
+Int[RGx_*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[RGx*(a+b*Log[c*RFx^p])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && RationalFunctionQ[RGx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_.+b_.*Log[u_]),x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfLinear[RFx*(a+b*Log[u]),x]},
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
+ Not[FalseQ[lst]]] /;
+FreeQ[{a,b},x] && RationalFunctionQ[RFx,x]
+
+
+Int[(f_.+g_.*x_)^m_.*Log[1+e_.*(F_^(c_.*(a_.+b_.*x_)))^n_.],x_Symbol] :=
+  -(f+g*x)^m*PolyLog[2,-e*(F^(c*(a+b*x)))^n]/(b*c*n*Log[F]) + 
+  g*m/(b*c*n*Log[F])*Int[(f+g*x)^(m-1)*PolyLog[2,-e*(F^(c*(a+b*x)))^n],x] /;
+FreeQ[{F,a,b,c,e,f,g,n},x] && RationalQ[m] && m>0
+
+
+Int[(f_.+g_.*x_)^m_.*Log[d_+e_.*(F_^(c_.*(a_.+b_.*x_)))^n_.],x_Symbol] :=
+  (f+g*x)^(m+1)*Log[d+e*(F^(c*(a+b*x)))^n]/(g*(m+1)) - 
+  (f+g*x)^(m+1)*Log[1+e/d*(F^(c*(a+b*x)))^n]/(g*(m+1)) + 
+  Int[(f+g*x)^m*Log[1+e/d*(F^(c*(a+b*x)))^n],x] /;
+FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0 && NeQ[d-1]
+
+
+Int[Log[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
+  x*Log[d+e*x+f*Sqrt[a+b*x+c*x^2]] + 
+  f^2*(b^2-4*a*c)/2*Int[x/((2*d*e-b*f^2)*(a+b*x+c*x^2)-f*(b*d-2*a*e+(2*c*d-b*e)*x)*Sqrt[a+b*x+c*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e^2-c*f^2]
+
+
+Int[Log[d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]],x_Symbol] :=
+  x*Log[d+e*x+f*Sqrt[a+c*x^2]] - 
+  a*c*f^2*Int[x/(d*e*(a+c*x^2)+f*(a*e-c*d*x)*Sqrt[a+c*x^2]),x] /;
+FreeQ[{a,c,d,e,f},x] && EqQ[e^2-c*f^2]
+
+
+Int[(g_.*x_)^m_.*Log[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
+  (g*x)^(m+1)*Log[d+e*x+f*Sqrt[a+b*x+c*x^2]]/(g*(m+1)) + 
+  f^2*(b^2-4*a*c)/(2*g*(m+1))*Int[(g*x)^(m+1)/((2*d*e-b*f^2)*(a+b*x+c*x^2)-f*(b*d-2*a*e+(2*c*d-b*e)*x)*Sqrt[a+b*x+c*x^2]),x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[e^2-c*f^2] && NeQ[m+1] && IntegerQ[2*m]
+
+
+Int[(g_.*x_)^m_.*Log[d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]],x_Symbol] :=
+  (g*x)^(m+1)*Log[d+e*x+f*Sqrt[a+c*x^2]]/(g*(m+1)) - 
+  a*c*f^2/(g*(m+1))*Int[(g*x)^(m+1)/(d*e*(a+c*x^2)+f*(a*e-c*d*x)*Sqrt[a+c*x^2]),x] /;
+FreeQ[{a,c,d,e,f,g,m},x] && EqQ[e^2-c*f^2] && NeQ[m+1] && IntegerQ[2*m]
+
+
+Int[v_.*Log[d_.+e_.*x_+f_.*Sqrt[u_]],x_Symbol] :=
+  Int[v*Log[d+e*x+f*Sqrt[ExpandToSum[u,x]]],x] /;
+FreeQ[{d,e,f},x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]] && (EqQ[v-1] || MatchQ[v,(g_.*x)^m_. /; FreeQ[{g,m},x]])
+
+
+Int[Log[u_],x_Symbol] :=
+  x*Log[u] - Int[SimplifyIntegrand[x*D[u,x]/u,x],x] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[Log[u_]/(a_.+b_.*x_),x_Symbol] :=
+  Log[a+b*x]*Log[u]/b -
+  1/b*Int[SimplifyIntegrand[Log[a+b*x]*D[u,x]/u,x],x] /;
+FreeQ[{a,b},x] && RationalFunctionQ[D[u,x]/u,x] && (NeQ[a] || Not[BinomialQ[u,x] && EqQ[BinomialDegree[u,x]^2-1]])
+
+
+Int[(a_.+b_.*x_)^m_.*Log[u_],x_Symbol] :=
+  (a+b*x)^(m+1)*Log[u]/(b*(m+1)) - 
+  1/(b*(m+1))*Int[SimplifyIntegrand[(a+b*x)^(m+1)*D[u,x]/u,x],x] /;
+FreeQ[{a,b,m},x] && InverseFunctionFreeQ[u,x] && NeQ[m+1] (* && Not[FunctionOfQ[x^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]] *)
+
+
+Int[Log[u_]/Qx_,x_Symbol] :=
+  With[{v=IntHide[1/Qx,x]},  
+  v*Log[u] - Int[SimplifyIntegrand[v*D[u,x]/u,x],x]] /;
+QuadraticQ[Qx,x] && InverseFunctionFreeQ[u,x]
+
+
+(* Int[x_^m_.*Px_.*Log[u_],x_Symbol] :=
+  With[{v=IntHide[x^m*Px,x]},  
+  Dist[Log[u],v] - Int[SimplifyIntegrand[v*D[u,x]/u,x],x]] /;
+FreeQ[m,x] && PolynomialQ[Px,x] && InverseFunctionFreeQ[u,x] *)
+
+
+Int[u_^(a_.*x_)*Log[u_],x_Symbol] :=
+  u^(a*x)/a - Int[SimplifyIntegrand[x*u^(a*x-1)*D[u,x],x],x] /;
+FreeQ[a,x] && InverseFunctionFreeQ[u,x]
+
+
+Int[v_*Log[u_],x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[Log[u],w,x] - 
+  Int[SimplifyIntegrand[w*D[u,x]/u,x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[Log[v_]*Log[w_],x_Symbol] :=
+  x*Log[v]*Log[w] - 
+  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/v,x],x] - 
+  Int[SimplifyIntegrand[x*Log[v]*D[w,x]/w,x],x] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+Int[u_*Log[v_]*Log[w_],x_Symbol] :=
+  With[{z=IntHide[u,x]},  
+  Dist[Log[v]*Log[w],z,x] - 
+  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/v,x],x] - 
+  Int[SimplifyIntegrand[z*Log[v]*D[w,x]/w,x],x] /;
+ InverseFunctionFreeQ[z,x]] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+Int[Log[a_.*Log[b_.*x_^n_.]^p_.],x_Symbol] :=
+  x*Log[a*Log[b*x^n]^p] - 
+  n*p*Int[1/Log[b*x^n],x] /;
+FreeQ[{a,b,n,p},x]
+
+
+Int[Log[a_.*Log[b_.*x_^n_.]^p_.]/x_,x_Symbol] :=
+  Log[b*x^n]*(-p+Log[a*Log[b*x^n]^p])/n /;
+FreeQ[{a,b,n,p},x]
+
+
+Int[x_^m_.*Log[a_.*Log[b_.*x_^n_.]^p_.],x_Symbol] :=
+  x^(m+1)*Log[a*Log[b*x^n]^p]/(m+1) - 
+  n*p/(m+1)*Int[x^m/Log[b*x^n],x] /;
+FreeQ[{a,b,m,n,p},x] && NeQ[m+1]
+
+
+Int[(A_.+B_.*Log[c_.+d_.*x_])/Sqrt[a_+b_.*Log[c_.+d_.*x_]],x_Symbol] :=
+  (b*A-a*B)/b*Int[1/Sqrt[a+b*Log[c+d*x]],x] +
+  B/b*Int[Sqrt[a+b*Log[c+d*x]],x] /;
+FreeQ[{a,b,c,d,A,B},x] && NeQ[b*A-a*B]
+
+
+Int[f_^(a_.*Log[u_]),x_Symbol] :=
+  Int[u^(a*Log[f]),x] /;
+FreeQ[{a,f},x]
+
+
+(* If[ShowSteps,
+
+Int[u_/x_,x_Symbol] :=
+  With[{lst=FunctionOfLog[u,x]},
+  ShowStep["","Int[F[Log[a*x^n]]/x,x]","Subst[Int[F[x],x],x,Log[a*x^n]]/n",Hold[
+  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]]]] /;
+ Not[FalseQ[lst]]] /;
+SimplifyFlag && NonsumQ[u],
+
+Int[u_/x_,x_Symbol] :=
+  With[{lst=FunctionOfLog[u,x]},
+  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]] /;
+ Not[FalseQ[lst]]] /;
+NonsumQ[u]] *)
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfLog[Cancel[x*u],x]},
+  ShowStep["","Int[F[Log[a*x^n]]/x,x]","Subst[Int[F[x],x],x,Log[a*x^n]]/n",Hold[
+  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]]]] /;
+ Not[FalseQ[lst]]] /;
+SimplifyFlag && NonsumQ[u],
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfLog[Cancel[x*u],x]},
+  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]] /;
+ Not[FalseQ[lst]]] /;
+NonsumQ[u]]
+
+
+Int[u_.*Log[Gamma[v_]],x_Symbol] :=
+  (Log[Gamma[v]]-LogGamma[v])*Int[u,x] + Int[u*LogGamma[v],x]
+
+
+Int[u_.*(a_. w_+b_. w_*Log[v_]^n_.)^p_.,x_Symbol] :=
+  Int[u*w^p*(a+b*Log[v]^n)^p,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[p]
+
+
+Int[u_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  Defer[Int][u*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q},x] && AlgebraicFunctionQ[u,x]
+
+
+
+`)
+
+func resourcesRubi3LogarithmsMBytes() ([]byte, error) {
+	return _resourcesRubi3LogarithmsM, nil
+}
+
+func resourcesRubi3LogarithmsM() (*asset, error) {
+	bytes, err := resourcesRubi3LogarithmsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/3 Logarithms.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi41SineM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Trig Function Product Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.0 (a sin)^m (b trg)^n*)
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  Int[DeactivateTrig[u,x],x] /;
+SimplifyFlag && FunctionOfTrigOfLinearQ[u,x],
+
+Int[u_,x_Symbol] :=
+  Int[DeactivateTrig[u,x],x] /;
+FunctionOfTrigOfLinearQ[u,x]]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*cos[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (a*Sin[e+f*x])^(m+1)*(b*Cos[e+f*x])^(n+1)/(a*b*f*(m+1)) /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n+2,0] && NeQ[m,-1]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*cos[e_.+f_.*x_]^n_.,x_Symbol] :=
+  1/(a*f)*Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Sin[e+f*x]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[(m-1)/2] && 0<m<n]
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_.*sin[e_.+f_.*x_]^n_.,x_Symbol] :=
+  -1/(a*f)*Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Cos[e+f*x]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[(m-1)/2] && 0<m<=n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*(a*Sin[e+f*x])^(m-1)*(b*Cos[e+f*x])^(n+1)/(b*f*(n+1)) + 
+  a^2*(m-1)/(b^2*(n+1))*Int[(a*Sin[e+f*x])^(m-2)*(b*Cos[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && GtQ[m,1] && LtQ[n,-1] && (IntegersQ[2*m,2*n] || EqQ[m+n,0])
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(a*Cos[e+f*x])^(m-1)*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) + 
+  a^2*(m-1)/(b^2*(n+1))*Int[(a*Cos[e+f*x])^(m-2)*(b*Sin[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && GtQ[m,1] && LtQ[n,-1] && (IntegersQ[2*m,2*n] || EqQ[m+n,0])
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*(b*Cos[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m-1)/(b*f*(m+n)) + 
+  a^2*(m-1)/(m+n)*Int[(b*Cos[e+f*x])^n*(a*Sin[e+f*x])^(m-2),x] /;
+FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m+n,0] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(b*Sin[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m-1)/(b*f*(m+n)) + 
+  a^2*(m-1)/(m+n)*Int[(b*Sin[e+f*x])^n*(a*Cos[e+f*x])^(m-2),x] /;
+FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m+n,0] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*Cos[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m+1)/(a*b*f*(m+1)) + 
+  (m+n+2)/(a^2*(m+1))*Int[(b*Cos[e+f*x])^n*(a*Sin[e+f*x])^(m+2),x] /;
+FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(b*Sin[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m+1)/(a*b*f*(m+1)) + 
+  (m+n+2)/(a^2*(m+1))*Int[(b*Sin[e+f*x])^n*(a*Cos[e+f*x])^(m+2),x] /;
+FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
+
+
+Int[Sqrt[a_.*sin[e_.+f_.*x_]]*Sqrt[b_.*cos[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[a*Sin[e+f*x]]*Sqrt[b*Cos[e+f*x]]/Sqrt[Sin[2*e+2*f*x]]*Int[Sqrt[Sin[2*e+2*f*x]],x] /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[1/(Sqrt[a_.*sin[e_.+f_.*x_]]*Sqrt[b_.*cos[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[Sin[2*e+2*f*x]]/(Sqrt[a*Sin[e+f*x]]*Sqrt[b*Cos[e+f*x]])*Int[1/Sqrt[Sin[2*e+2*f*x]],x] /;
+FreeQ[{a,b,e,f},x]
+
+
+(* Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sin[e+f*x])^m*(b*Cos[e+f*x])^n/(a*Tan[e+f*x])^m*Int[(a*Tan[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n,0] *)
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k*a*b/f*Subst[Int[x^(k*(m+1)-1)/(a^2+b^2*x^(2*k)),x],x,(a*Sin[e+f*x])^(1/k)/(b*Cos[e+f*x])^(1/k)]] /;
+FreeQ[{a,b,e,f},x] && EqQ[m+n,0] && GtQ[m,0] && LtQ[m,1]
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k*a*b/f*Subst[Int[x^(k*(m+1)-1)/(a^2+b^2*x^(2*k)),x],x,(a*Cos[e+f*x])^(1/k)/(b*Sin[e+f*x])^(1/k)]] /;
+FreeQ[{a,b,e,f},x] && EqQ[m+n,0] && GtQ[m,0] && LtQ[m,1]
+
+
+(* Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^(2*IntPart[(n-1)/2]+1)*(b*Cos[e+f*x])^(2*FracPart[(n-1)/2])/(a*f*(Cos[e+f*x]^2)^FracPart[(n-1)/2])*
+    Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m,n},x] && (RationalQ[n] || Not[RationalQ[m]] && (EqQ[b-1] || NeQ[a-1])) *)
+
+
+(* Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^(2*IntPart[(n-1)/2]+1)*(b*Sin[e+f*x])^(2*FracPart[(n-1)/2])/(a*f*(Sin[e+f*x]^2)^FracPart[(n-1)/2])*
+    Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Cos[e+f*x]] /;
+FreeQ[{a,b,e,f,m,n},x] *)
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^(2*IntPart[(n-1)/2]+1)*(b*Sin[e+f*x])^(2*FracPart[(n-1)/2])*(a*Cos[e+f*x])^(m+1)/(a*f*(m+1)*(Sin[e+f*x]^2)^FracPart[(n-1)/2])*
+    Hypergeometric2F1[(1+m)/2,(1-n)/2,(3+m)/2,Cos[e+f*x]^2] /;
+FreeQ[{a,b,e,f,m,n},x] && SimplerQ[n,m]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^(2*IntPart[(n-1)/2]+1)*(b*Cos[e+f*x])^(2*FracPart[(n-1)/2])*(a*Sin[e+f*x])^(m+1)/(a*f*(m+1)*(Cos[e+f*x]^2)^FracPart[(n-1)/2])*
+    Hypergeometric2F1[(1+m)/2,(1-n)/2,(3+m)/2,Sin[e+f*x]^2] /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
+  b*(a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+1)) /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m-n+2,0] && NeQ[m,1]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*b*(a*Sin[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) - 
+  a^2*b^2*(m-1)/(n-1)*Int[(a*Sin[e+f*x])^(m-2)*(b*Sec[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f},x] && GtQ[n,1] && GtQ[m,1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m-n)) - 
+  (n+1)/(b^2*(m-n))*Int[(a*Sin[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m+1)) - 
+  (n+1)/(a^2*b^2*(m+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Sec[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && LtQ[n,-1] && LtQ[m,-1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m-n)) - 
+  (n+1)/(b^2*(m-n))*Int[(a*Sin[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f,m},x] && LtQ[n,-1] && NeQ[m-n,0] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*b*(a*Sin[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(m-n)) + 
+  a^2*(m-1)/(m-n)*Int[(a*Sin[e+f*x])^(m-2)*(b*Sec[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m-n,0] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+1)) + 
+  (m-n+2)/(a^2*(m+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Sec[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*Cos[e+f*x])^n*(b*Sec[e+f*x])^n*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && IntegerQ[m-1/2] && IntegerQ[n-1/2]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  1/b^2*(b*Cos[e+f*x])^(n+1)*(b*Sec[e+f*x])^(n+1)*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && LtQ[n,1]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*(b*Cos[e+f*x])^(n-1)*(b*Sec[e+f*x])^(n-1)*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*b)^IntPart[n]*(a*Sin[e+f*x])^FracPart[n]*(b*Csc[e+f*x])^FracPart[n]*Int[(a*Sin[e+f*x])^(m-n),x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.0 (a trg)^m (b tan)^n*)
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  -b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n-1]
+
+
+Int[sin[e_.+f_.*x_]^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
+  -1/f*Subst[Int[(1-x^2)^((m+n-1)/2)/x^n,x],x,Cos[e+f*x]] /;
+FreeQ[{e,f},x] && IntegersQ[m,n,(m+n-1)/2]
+
+
+Int[sin[e_.+f_.*x_]^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  b*ff/f*Subst[Int[(ff*x)^(m+n)/(b^2+ff^2*x^2)^(m/2+1),x],x,b*Tan[e+f*x]/ff]] /;
+FreeQ[{b,e,f,n},x] && IntegerQ[m/2]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[(ff*x)^(m+n)/(a^2-ff^2*x^2)^((n+1)/2),x],x,a*Sin[e+f*x]/ff]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-1)/(a^2*f*(n-1)) - 
+  b^2*(m+2)/(a^2*(n-1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f},x] && GtQ[n,1] && (LtQ[m,-1] || EqQ[m,-1] && EqQ[n,3/2]) && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*(n-1)) - 
+  b^2*(m+n-1)/(n-1)*Int[(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n] && Not[GtQ[m,1] && Not[IntegerQ[(m-1)/2]]]
+
+
+Int[Sqrt[a_.*sin[e_.+f_.*x_]]/(b_.*tan[e_.+f_.*x_])^(3/2),x_Symbol]:=
+  2*Sqrt[a*Sin[e+f*x]]/(b*f*Sqrt[b*Tan[e+f*x]]) + a^2/b^2*Int[Sqrt[b*Tan[e+f*x]]/(a*Sin[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) - 
+  a^2*(n+1)/(b^2*m)*Int[(a*Sin[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && LtQ[n,-1] && GtQ[m,1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  (a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*(m+n+1)) - 
+  (n+1)/(b^2*(m+n+1))*Int[(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f,m},x] && LtQ[n,-1] && NeQ[m+n+1,0] && IntegersQ[2*m,2*n] && Not[n==-3/2 && EqQ[m,1]]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol]:=
+  -b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) + 
+  a^2*(m+n-1)/m*Int[(a*Sin[e+f*x])^(m-2)*(b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && (GtQ[m,1] || EqQ[m,1] && EqQ[n,1/2]) && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol]:=
+  b*(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-1)/(a^2*f*(m+n+1)) + 
+  (m+2)/(a^2*(m+n+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && NeQ[m+n+1,0] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_*tan[e_.+f_.*x_]^n_,x_Symbol]:=
+  1/a^n*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[n] && Not[IntegerQ[m]]
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  Cos[e+f*x]^n*(b*Tan[e+f*x])^n/(a*Sin[e+f*x])^n*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]] && (ILtQ[m,0] || EqQ[m,1] && EqQ[n,-1/2] || IntegersQ[m-1/2,n-1/2])
+
+
+Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  a*Cos[e+f*x]^(n+1)*(b*Tan[e+f*x])^(n+1)/(b*(a*Sin[e+f*x])^(n+1))*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]]
+
+
+Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/a)^FracPart[m]*Int[(b*Tan[e+f*x])^n/(Sec[e+f*x]/a)^m,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+Int[(a_.*cot[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Cot[e+f*x])^m*(b*Tan[e+f*x])^m*Int[(b*Tan[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  -(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n+1]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a/f*Subst[Int[(a*x)^(m-1)*(-1+x^2)^((n-1)/2),x],x,Sec[e+f*x]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[m/2] && 0<m<n+1]
+
+
+Int[sec[e_.+f_.*x_]^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  1/f*Subst[Int[(b*x)^n*(1+x^2)^(m/2-1),x],x,Tan[e+f*x]] /;
+FreeQ[{b,e,f,n},x] && IntegerQ[m/2] && Not[IntegerQ[(n-1)/2] && 0<n<m-1]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
+  a^2*(m-2)/(b^2*(n+1))*Int[(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && RationalQ[m,n] && n<-1 && (m>1 || m==1 && n==-3/2) && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
+  (m+n+1)/(b^2*(n+1))*Int[(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n<-1 && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) - 
+  b^2*(n-1)/(a^2*m)*Int[(a*Sec[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f},x] && RationalQ[m,n] && n>1 && (m<-1 || m==-1 && n==3/2) && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) - 
+  b^2*(n-1)/(m+n-1)*Int[(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n>1 && NeQ[m+n-1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) + 
+  (m+n+1)/(a^2*m)*Int[(a*Sec[e+f*x])^(m+2)*(b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && RationalQ[m] && (m<-1 || m==-1 && RationalQ[n] && n==-1/2) && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+1)/(b*f*(m+n-1)) + 
+  a^2*(m-2)/(m+n-1)*Int[(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && RationalQ[m] && (m>1 || m==1 && RationalQ[n] && n==1/2) && NeQ[m+n-1] && IntegersQ[2*m,2*n]
+
+
+Int[sec[e_.+f_.*x_]/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol]:=
+  Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*Sqrt[b*Tan[e+f*x]])*Int[1/(Sqrt[Cos[e+f*x]]*Sqrt[Sin[e+f*x]]),x] /;
+FreeQ[{b,e,f},x]
+
+
+Int[Sqrt[b_.*tan[e_.+f_.*x_]]/sec[e_.+f_.*x_],x_Symbol]:=
+  Sqrt[Cos[e+f*x]]*Sqrt[b*Tan[e+f*x]]/Sqrt[Sin[e+f*x]]*Int[Sqrt[Cos[e+f*x]]*Sqrt[Sin[e+f*x]],x] /;
+FreeQ[{b,e,f},x]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  a^(m+n)*(b*Tan[e+f*x])^n/((a*Sec[e+f*x])^n*(b*Sin[e+f*x])^n)*Int[(b*Sin[e+f*x])^n/Cos[e+f*x]^(m+n),x] /;
+FreeQ[{a,b,e,f,m,n},x] && IntegerQ[n+1/2] && IntegerQ[m+1/2]
+
+
+(* Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)*(Cos[e+f*x]^2)^((m+n+1)/2)/(b*f*(b*Sin[e+f*x])^(n+1))*
+    Subst[Int[x^n/(1-x^2/b^2)^((m+n+1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[(n-1)/2]] && Not[IntegerQ[m/2]] *)
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
+  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)*(Cos[e+f*x]^2)^((m+n+1)/2)/(b*f*(n+1))*
+    Hypergeometric2F1[(n+1)/2,(m+n+1)/2,(n+3)/2,Sin[e+f*x]^2] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[(n-1)/2]] && Not[IntegerQ[m/2]]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/a)^FracPart[m]*Int[(b*Tan[e+f*x])^n/(Sin[e+f*x]/a)^m,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.0 (a csc)^m (b sec)^n*)
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) /;
+FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n-2] && NeQ[n-1]
+
+
+Int[csc[e_.+f_.*x_]^m_.*sec[e_.+f_.*x_]^n_.,x_Symbol] :=
+  1/f*Subst[Int[(1+x^2)^((m+n)/2-1)/x^m,x],x,Tan[e+f*x]] /;
+FreeQ[{e,f},x] && IntegersQ[m,n,(m+n)/2]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*sec[e_.+f_.*x_]^n_.,x_Symbol] :=
+  -1/(f*a^n)*Subst[Int[x^(m+n-1)/(-1+x^2/a^2)^((n+1)/2),x],x,a*Csc[e+f*x]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2] && Not[IntegerQ[(m+1)/2] && 0<m<n]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_*csc[e_.+f_.*x_]^n_.,x_Symbol] :=
+  1/(f*a^n)*Subst[Int[x^(m+n-1)/(-1+x^2/a^2)^((n+1)/2),x],x,a*Sec[e+f*x]] /;
+FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2] && Not[IntegerQ[(m+1)/2] && 0<m<n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)/(f*b*(m-1)) + 
+  a^2*(n+1)/(b^2*(m-1))*Int[(a*Csc[e+f*x])^(m-2)*(b*Sec[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f},x] && RationalQ[m,n] && m>1 && n<-1 && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a*Csc[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(f*a*(n-1)) + 
+  b^2*(m+1)/(a^2*(n-1))*Int[(a*Csc[e+f*x])^(m+2)*(b*Sec[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f},x] && RationalQ[m,n] && m<-1 && n>1 && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
+  -a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(m-1)) + 
+  a^2*(m+n-2)/(m-1)*Int[(a*Csc[e+f*x])^(m-2)*(b*Sec[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && IntegersQ[2*m,2*n] && Not[n>m]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) + 
+  b^2*(m+n-2)/(n-1)*Int[(a*Csc[e+f*x])^m*(b*Sec[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
+  b*(a*Csc[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+n)) + 
+  (m+1)/(a^2*(m+n))*Int[(a*Csc[e+f*x])^(m+2)*(b*Sec[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,n},x] && RationalQ[m] && m<-1 && NeQ[m+n] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)/(b*f*(m+n)) + 
+  (n+1)/(b^2*(m+n))*Int[(a*Csc[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n<-1 && NeQ[m+n] && IntegersQ[2*m,2*n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Csc[e+f*x])^m*(b*Sec[e+f*x])^n/Tan[e+f*x]^n*Int[Tan[e+f*x]^n,x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]] && EqQ[m+n]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a*Csc[e+f*x])^m*(b*Sec[e+f*x])^n*(a*Sin[e+f*x])^m*(b*Cos[e+f*x])^n*Int[(a*Sin[e+f*x])^(-m)*(b*Cos[e+f*x])^(-n),x] /;
+FreeQ[{a,b,e,f,m,n},x] && IntegerQ[m-1/2] && IntegerQ[n-1/2]
+
+
+Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2/b^2*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m-1)*(b*Cos[e+f*x])^(n+1)*
+    Int[(a*Sin[e+f*x])^(-m)*(b*Cos[e+f*x])^(-n),x] /;
+FreeQ[{a,b,e,f,m,n},x] && Not[SimplerQ[-m,-n]]
+
+
+Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2/b^2*(a*Sec[e+f*x])^(m-1)*(b*Csc[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m-1)*(b*Sin[e+f*x])^(n+1)*
+    Int[(a*Cos[e+f*x])^(-m)*(b*Sin[e+f*x])^(-n),x] /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+
+
+
+(* ::Section:: *)
+(*Sine Function Integration Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.1.1 (a+b sin)^n*)
+
+
+Int[sin[c_.+d_.*x_]^n_,x_Symbol] :=
+  -1/d*Subst[Int[Expand[(1-x^2)^((n-1)/2),x],x],x,Cos[c+d*x]] /;
+FreeQ[{c,d},x] && PositiveIntegerQ[(n-1)/2]
+
+
+Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+(* -Cot[c+d*x]*(c*Sin[c+d*x])^n/(d*n) + b^2*(n-1)/n*Int[(b*Sin[c+d*x])^(n-2),x] *)
+  -b*Cos[c+d*x]*(b*Sin[c+d*x])^(n-1)/(d*n) + b^2*(n-1)/n*Int[(b*Sin[c+d*x])^(n-2),x] /;
+FreeQ[{b,c,d},x] && IntegerQ[2*n] && n>1
+
+
+Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  Cos[c+d*x]*(b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  (n+2)/(b^2*(n+1))*Int[(b*Sin[c+d*x])^(n+2),x] /;
+FreeQ[{b,c,d},x] && IntegerQ[2*n] && n<-1
+
+
+Int[sin[c_.+Pi/2+d_.*x_],x_Symbol] :=
+  Sin[c+d*x]/d /;
+FreeQ[{c,d},x]
+
+
+Int[sin[c_.+d_.*x_],x_Symbol] :=
+  -Cos[c+d*x]/d /;
+FreeQ[{c,d},x]
+
+
+(* Int[1/sin[c_.+d_.*x_],x_Symbol] :=
+  Int[Csc[c+d*x],x] /;
+FreeQ[{c,d},x] *)
+
+
+Int[Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
+  2/d*EllipticE[1/2*(c-Pi/2+d*x),2] /;
+FreeQ[{c,d},x]
+
+
+Int[Sqrt[b_*sin[c_.+d_.*x_]],x_Symbol] :=
+  Sqrt[b*Sin[c+d*x]]/Sqrt[Sin[c+d*x]]*Int[Sqrt[Sin[c+d*x]],x] /;
+FreeQ[{b,c,d},x]
+
+
+Int[1/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
+  2/d*EllipticF[1/2*(c-Pi/2+d*x),2] /;
+FreeQ[{c,d},x]
+
+
+Int[1/Sqrt[b_*sin[c_.+d_.*x_]],x_Symbol] :=
+  Sqrt[Sin[c+d*x]]/Sqrt[b*Sin[c+d*x]]*Int[1/Sqrt[Sin[c+d*x]],x] /;
+FreeQ[{b,c,d},x]
+
+
+(* Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  Cos[c+d*x]/(b*d*Sqrt[Cos[c+d*x]^2])*Subst[Int[x^n/Sqrt[1-x^2/b^2],x],x,b*Sin[c+d*x]] /;
+FreeQ[{b,c,d,n},x] && Not[IntegerQ[2*n]] *)
+
+
+Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  Cos[c+d*x]*(b*Sin[c+d*x])^(n+1)/(b*d*(n+1)*Sqrt[Cos[c+d*x]^2])*Hypergeometric2F1[1/2,(n+1)/2,(n+3)/2,Sin[c+d*x]^2] /;
+FreeQ[{b,c,d,n},x] && Not[IntegerQ[2*n]]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^2,x_Symbol] :=
+  (2*a^2+b^2)*x/2 - 2*a*b*Cos[c+d*x]/d - b^2*Cos[c+d*x]*Sin[c+d*x]/(2*d) /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(a+b*sin[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[n]
+
+
+Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  -2*b*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]]) /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n-1)/(d*n) +
+  a*(2*n-1)/n*Int[(a+b*Sin[c+d*x])^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2]
+
+
+Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  -Cos[c+d*x]/(d*(b+a*Sin[c+d*x])) /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
+
+
+Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  -2/d*Subst[Int[1/(2*a-x^2),x],x,b*Cos[c+d*x]/Sqrt[a+b*Sin[c+d*x]]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*Cos[c+d*x]*(a+b*Sin[c+d*x])^n/(a*d*(2*n+1)) +
+  (n+1)/(a*(2*n+1))*Int[(a+b*Sin[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
+
+
+(* Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^2*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]]*Sqrt[a-b*Sin[c+d*x]])*Subst[Int[(a+b*x)^(n-1/2)/Sqrt[a-b*x],x],x,Sin[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] *)
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -2^(n+1/2)*a^(n-1/2)*b*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]])*Hypergeometric2F1[1/2,1/2-n,3/2,1/2*(1-b*Sin[c+d*x]/a)] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && PositiveQ[a]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^IntPart[n]*(a+b*Sin[c+d*x])^FracPart[n]/(1+b/a*Sin[c+d*x])^FracPart[n]*Int[(1+b/a*Sin[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && Not[PositiveQ[a]]
+
+
+Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  2*Sqrt[a+b]/d*EllipticE[1/2*(c-Pi/2+d*x),2*b/(a+b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a+b]
+
+
+Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  2*Sqrt[a-b]/d*EllipticE[1/2*(c+Pi/2+d*x),-2*b/(a-b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a-b]
+
+
+Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  Sqrt[a+b*Sin[c+d*x]]/Sqrt[(a+b*Sin[c+d*x])/(a+b)]*Int[Sqrt[a/(a+b)+b/(a+b)*Sin[c+d*x]],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && Not[PositiveQ[a+b]]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n-1)/(d*n) + 
+  1/n*Int[(a+b*Sin[c+d*x])^(n-2)*Simp[a^2*n+b^2*(n-1)+a*b*(2*n-1)*Sin[c+d*x],x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
+
+
+Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  With[{q=Rt[a^2-b^2,2]},
+  x/q + 2/(d*q)*ArcTan[b*Cos[c+d*x]/(a+q+b*Sin[c+d*x])]] /;
+FreeQ[{a,b,c,d},x] && PositiveQ[a^2-b^2] && PosQ[a]
+
+
+Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  With[{q=Rt[a^2-b^2,2]},
+  -x/q - 2/(d*q)*ArcTan[b*Cos[c+d*x]/(a-q+b*Sin[c+d*x])]] /;
+FreeQ[{a,b,c,d},x] && PositiveQ[a^2-b^2] && NegQ[a]
+
+
+Int[1/(a_+b_.*sin[c_.+Pi/2+d_.*x_]),x_Symbol] :=
+  With[{e=FreeFactors[Tan[(c+d*x)/2],x]},
+  2*e/d*Subst[Int[1/(a+b+(a-b)*e^2*x^2),x],x,Tan[(c+d*x)/2]/e]] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  With[{e=FreeFactors[Tan[(c+d*x)/2],x]},
+  2*e/d*Subst[Int[1/(a+2*b*e*x+a*e^2*x^2),x],x,Tan[(c+d*x)/2]/e]] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  2/(d*Sqrt[a+b])*EllipticF[1/2*(c-Pi/2+d*x),2*b/(a+b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a+b]
+
+
+Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  2/(d*Sqrt[a-b])*EllipticF[1/2*(c+Pi/2+d*x),-2*b/(a-b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a-b]
+
+
+Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
+  Sqrt[(a+b*Sin[c+d*x])/(a+b)]/Sqrt[a+b*Sin[c+d*x]]*Int[1/Sqrt[a/(a+b)+b/(a+b)*Sin[c+d*x]],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && Not[PositiveQ[a+b]]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n+1)/(d*(n+1)*(a^2-b^2)) + 
+  1/((n+1)*(a^2-b^2))*Int[(a+b*Sin[c+d*x])^(n+1)*Simp[a*(n+1)-b*(n+2)*Sin[c+d*x],x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  Cos[c+d*x]/(d*Sqrt[1+Sin[c+d*x]]*Sqrt[1-Sin[c+d*x]])*Subst[Int[(a+b*x)^n/(Sqrt[1+x]*Sqrt[1-x]),x],x,Sin[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*n]]
+
+
+Int[(a_+b_.*sin[c_.+d_.*x_]*cos[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[(a+b*Sin[2*c+2*d*x]/2)^n,x] /;
+FreeQ[{a,b,c,d,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.1.2 (g cos)^p (a+b sin)^m*)
+
+
+Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  1/(b^p*f)*Subst[Int[(a+x)^(m+(p-1)/2)*(a-x)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2] && (p>=-1 || Not[IntegerQ[m+1/2] && EqQ[a^2-b^2]])
+
+
+Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  1/(b^p*f)*Subst[Int[(a+x)^m*(b^2-x^2)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)/(f*g*(p+1)) + a*Int[(g*Cos[e+f*x])^p,x] /;
+FreeQ[{a,b,e,f,g,p},x] && (IntegerQ[2*p] || NeQ[a^2-b^2])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && p<-1 && 2*m+p>=0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*m) /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[Simplify[m+p+1]] && Not[NegativeIntegerQ[p]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*Simplify[2*m+p+1]) + 
+  Simplify[m+p+1]/(a*Simplify[2*m+p+1])*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+p+1]] && NeQ[2*m+p+1] && Not[PositiveIntegerQ[m]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m-1)) /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && NeQ[m-1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
+  a*(2*m+p-1)/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[(2*m+p-1)/2]] && NeQ[m+p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(p+1)) + 
+  a*(m+p+1)/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>0 && p<=-2*m && IntegersQ[m+1/2,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(p+1)) + 
+  b^2*(2*m+p-1)/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-2),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>1 && p<-1 && IntegersQ[2*m,2*p]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[g_.*cos[e_.+f_.*x_]],x_Symbol] :=
+  a*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sqrt[1+Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] + 
+  b*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sin[e+f*x]/(Sqrt[g*Cos[e+f*x]]*Sqrt[1+Cos[e+f*x]]),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
+  a*(2*m+p-1)/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m>0 && NeQ[m+p] && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+p)) + 
+  g^2*(p-1)/(a*(m+p))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && (m>-2 || EqQ[2*m+p+1] || m==-2 && IntegerQ[p]) && 
+  NeQ[m+p] && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  2*g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+p+1)) + 
+  g^2*(p-1)/(b^2*(2*m+p+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+2),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m<=-2 && p>1 && NeQ[2*m+p+1] && Not[NegativeIntegerQ[m+p+1]] && 
+  IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) + 
+  (m+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && NeQ[2*m+p+1] && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)/(b*f*(p-1)) + g^2/a*Int[(g*Cos[e+f*x])^(p-2),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p>1 && IntegerQ[2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)/(a*f*g*(p-1)*(a+b*Sin[e+f*x])) + 
+  p/(a*(p-1))*Int[(g*Cos[e+f*x])^p,x] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && Not[RationalQ[p] && p>=1] && IntegerQ[2*p]
+
+
+Int[Sqrt[g_.*cos[e_.+f_.*x_]]/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  g*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sqrt[1+Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] - 
+  g*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(b+b*Cos[e+f*x]+a*Sin[e+f*x])*Int[Sin[e+f*x]/(Sqrt[g*Cos[e+f*x]]*Sqrt[1+Cos[e+f*x]]),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  g*Sqrt[g*Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(b*f) + 
+  g^2/(2*a)*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2*b*(g*Cos[e+f*x])^(p+1)/(f*g*(2*p-1)*(a+b*Sin[e+f*x])^(3/2)) + 
+  2*a*(p-2)/(2*p-1)*Int[(g*Cos[e+f*x])^p/(a+b*Sin[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p>2 && IntegerQ[2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)/(a*f*g*(p+1)*Sqrt[a+b*Sin[e+f*x]]) + 
+  a*(2*p+1)/(2*g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)/(a+b*Sin[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  a^m*(g*Cos[e+f*x])^(p+1)/(f*g*(1+Sin[e+f*x])^((p+1)/2)*(1-Sin[e+f*x])^((p+1)/2))*
+    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  a^2*(g*Cos[e+f*x])^(p+1)/(f*g*(a+b*Sin[e+f*x])^((p+1)/2)*(a-b*Sin[e+f*x])^((p+1)/2))*
+    Subst[Int[(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*Sin[e+f*x]/(f*g*(p+1)) + 
+  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)*(a*(p+2)+b*(m+p+2)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && 0<m<1 && p<-1 && (IntegersQ[2*m,2*p] || IntegerQ[m])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(b+a*Sin[e+f*x])/(f*g*(p+1)) + 
+  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-2)*(b^2*(m-1)+a^2*(p+2)+a*b*(m+p+1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m>1 && p<-1 && (IntegersQ[2*m,2*p] || IntegerQ[m])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
+  1/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-2)*(b^2*(m-1)+a^2*(m+p)+a*b*(2*m+p-1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && NeQ[m+p] && (IntegersQ[2*m,2*p] || IntegerQ[m])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) + 
+  g^2*(p-1)/(b*(m+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)*Sin[e+f*x],x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a^2-b^2)*(m+1)) + 
+  1/((a^2-b^2)*(m+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(a*(m+1)-b*(m+p+2)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+p)) + 
+  g^2*(p-1)/(b*(m+p))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^m*(b+a*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p>1 && NeQ[m+p] && IntegersQ[2*m,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)*(b-a*Sin[e+f*x])/(f*g*(a^2-b^2)*(p+1)) + 
+  1/(g^2*(a^2-b^2)*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m*(a^2*(p+2)-b^2*(m+p+2)+a*b*(m+p+3)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegersQ[2*m,2*p]
+
+
+Int[1/(Sqrt[g_.*cos[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2*Sqrt[2]*Sqrt[g*Cos[e+f*x]]*Sqrt[(a+b*Sin[e+f*x])/((a-b)*(1-Sin[e+f*x]))]/
+   (f*g*Sqrt[a+b*Sin[e+f*x]]*Sqrt[(1+Cos[e+f*x]+Sin[e+f*x])/(1+Cos[e+f*x]-Sin[e+f*x])])*
+   Subst[Int[1/Sqrt[1+(a+b)*x^4/(a-b)],x],x,Sqrt[(1+Cos[e+f*x]+Sin[e+f*x])/(1+Cos[e+f*x]-Sin[e+f*x])]] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(1-Sin[e+f*x])*(a+b*Sin[e+f*x])^(m+1)*(-(a-b)*(1-Sin[e+f*x])/((a+b)*(1+Sin[e+f*x])))^(m/2)/
+    (f*(a+b)*(m+1))*
+    Hypergeometric2F1[m+1,m/2+1,m+2,2*(a+b*Sin[e+f*x])/((a+b)*(1+Sin[e+f*x]))] /;
+FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && EqQ[m+p+1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a-b)*(p+1)) + 
+  a/(g^2*(a-b))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && EqQ[m+p+2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a-b)*(p+1)) - 
+  b*(m+p+2)/(g^2*(a-b)*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m,x] + 
+  a/(g^2*(a-b))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+p+2]
+
+
+Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  With[{q=Rt[-a^2+b^2,2]},
+  a*g/(2*b)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q+b*Cos[e+f*x])),x] - 
+  a*g/(2*b)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q-b*Cos[e+f*x])),x] + 
+  b*g/f*Subst[Int[Sqrt[x]/(g^2*(a^2-b^2)+b^2*x^2),x],x,g*Cos[e+f*x]]] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[1/(Sqrt[g_.*cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  With[{q=Rt[-a^2+b^2,2]},
+  -a/(2*q)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q+b*Cos[e+f*x])),x] - 
+  a/(2*q)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q-b*Cos[e+f*x])),x] + 
+  b*g/f*Subst[Int[1/(Sqrt[x]*(g^2*(a^2-b^2)+b^2*x^2)),x],x,g*Cos[e+f*x]]] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/
+    (b*f*(m+p)*(-b*(1-Sin[e+f*x])/(a+b*Sin[e+f*x]))^((p-1)/2)*(b*(1+Sin[e+f*x])/(a+b*Sin[e+f*x]))^((p-1)/2))*
+  AppellF1[-p-m,(1-p)/2,(1-p)/2,1-p-m,(a+b)/(a+b*Sin[e+f*x]),(a-b)/(a+b*Sin[e+f*x])] /;
+FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m] && Not[PositiveIntegerQ[m+p+1]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)/(f*(1-(a+b*Sin[e+f*x])/(a-b))^((p-1)/2)*(1-(a+b*Sin[e+f*x])/(a+b))^((p-1)/2))*
+    Subst[Int[(-b/(a-b)-b*x/(a-b))^((p-1)/2)*(b/(a+b)-b*x/(a+b))^((p-1)/2)*(a+b*x)^m,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && Not[PositiveIntegerQ[m]]
+
+
+Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  g^(2*IntPart[p])*(g*Cos[e+f*x])^FracPart[p]*(g*Sec[e+f*x])^FracPart[p]*Int[(a+b*Sin[e+f*x])^m/(g*Cos[e+f*x])^p,x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.1.3 (g tan)^p (a+b sin)^m*)
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  1/a*Int[Sec[e+f*x]^2*(g*Tan[e+f*x])^p,x] - 1/(b*g)*Int[Sec[e+f*x]*(g*Tan[e+f*x])^(p+1),x] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && NeQ[p+1]
+
+
+Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  1/f*Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[(p+1)/2]
+
+
+Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  a^p*Int[Sin[e+f*x]^p/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && p==2*m
+
+
+Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a^p*Int[ExpandIntegrand[Sin[e+f*x]^p*(a+b*Sin[e+f*x])^(m-p/2)/(a-b*Sin[e+f*x])^(p/2),x],x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,p/2] && (p<0 || m-p/2>0)
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Int[ExpandIntegrand[(g*Tan[e+f*x])^p,(a+b*Sin[e+f*x])^m,x],x] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a^(2*m)*Int[ExpandIntegrand[(g*Tan[e+f*x])^p*Sec[e+f*x]^(-m),(a*Sec[e+f*x]-b*Tan[e+f*x])^(-m),x],x] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[m]
+
+
+Int[tan[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(a+b*Sin[e+f*x])^m/(a*f*(2*m-1)*Cos[e+f*x]) - 
+  1/(a^2*(2*m-1))*Int[(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m-1)*Sin[e+f*x])/Cos[e+f*x]^2,x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && RationalQ[m] && m<0
+
+
+Int[tan[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Cos[e+f*x]) + 
+  1/(b*m)*Int[(a+b*Sin[e+f*x])^m*(b*(m+1)+a*Sin[e+f*x])/Cos[e+f*x]^2,x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[RationalQ[m] && m<0]
+
+
+Int[tan[e_.+f_.*x_]^4*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m,x] - Int[(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2)/Cos[e+f*x]^4,x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^2,x_Symbol] :=
+  -(a+b*Sin[e+f*x])^(m+1)/(a*f*Tan[e+f*x]) + 
+  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*(b*m-a*(m+1)*Sin[e+f*x])/Sin[e+f*x],x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && m<-1
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_./tan[e_.+f_.*x_]^2,x_Symbol] :=
+  -(a+b*Sin[e+f*x])^m/(f*Tan[e+f*x]) + 
+  1/a*Int[(a+b*Sin[e+f*x])^m*(b*m-a*(m+1)*Sin[e+f*x])/Sin[e+f*x],x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && Not[m<-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
+  -2/(a*b)*Int[(a+b*Sin[e+f*x])^(m+2)/Sin[e+f*x]^3,x] + 
+  1/a^2*Int[(a+b*Sin[e+f*x])^(m+2)*(1+Sin[e+f*x]^2)/Sin[e+f*x]^4,x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && m<-1
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m,x] + Int[(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2)/Sin[e+f*x]^4,x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && Not[m<-1]
+
+
+Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]]/(b*f*Cos[e+f*x])*
+    Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && IntegerQ[p/2]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (g*Tan[e+f*x])^(p+1)*(a-b*Sin[e+f*x])^((p+1)/2)*(a+b*Sin[e+f*x])^((p+1)/2)/(f*g*(b*Sin[e+f*x])^(p+1))*
+    Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[IntegerQ[p]]
+
+
+Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  1/f*Subst[Int[(x^p*(a+x)^m)/(b^2-x^2)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && IntegerQ[(p+1)/2]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Int[ExpandIntegrand[(g*Tan[e+f*x])^p,(a+b*Sin[e+f*x])^m,x],x] /;
+FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^2,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m*(1-Sin[e+f*x]^2)/Sin[e+f*x]^2,x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
+  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
+  (3*a^2+b^2*(m-2))*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a^2*b*f*(m+1)*Sin[e+f*x]^2) - 
+  1/(3*a^2*b*(m+1))*Int[(a+b*Sin[e+f*x])^(m+1)/Sin[e+f*x]^3*
+    Simp[6*a^2-b^2*(m-1)*(m-2)+a*b*(m+1)*Sin[e+f*x]-(3*a^2-b^2*m*(m-2))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
+
+
+(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
+  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Sin[e+f*x]^2) - 
+  1/(3*a*b*m)*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^3*
+    Simp[6*a^2-b^2*m*(m-2)+a*b*(m+3)*Sin[e+f*x]-(3*a^2-b^2*m*(m-1))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1] && IntegerQ[2*m] *)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
+  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
+  b*(m-2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(6*a^2*f*Sin[e+f*x]^2) - 
+  1/(6*a^2)*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^2*
+    Simp[8*a^2-b^2*(m-1)*(m-2)+a*b*m*Sin[e+f*x]-(6*a^2-b^2*m*(m-2))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1] && IntegerQ[2*m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^6,x_Symbol] :=
+  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(5*a*f*Sin[e+f*x]^5) - 
+  b*(m-4)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(20*a^2*f*Sin[e+f*x]^4) + 
+  a*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*m*(m-1)*Sin[e+f*x]^3) + 
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Sin[e+f*x]^2) + 
+  1/(20*a^2*b^2*m*(m-1))*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^4*
+    Simp[60*a^4-44*a^2*b^2*(m-1)*m+b^4*m*(m-1)*(m-3)*(m-4)+a*b*m*(20*a^2-b^2*m*(m-1))*Sin[e+f*x]-
+      (40*a^4+b^4*m*(m-1)*(m-2)*(m-4)-20*a^2*b^2*(m-1)*(2*m+1))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && NeQ[m-1] && IntegerQ[2*m]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  a/(a^2-b^2)*Int[(g*Tan[e+f*x])^p/Sin[e+f*x]^2,x] - 
+  b*g/(a^2-b^2)*Int[(g*Tan[e+f*x])^(p-1)/Cos[e+f*x],x] - 
+  a^2*g^2/(a^2-b^2)*Int[(g*Tan[e+f*x])^(p-2)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*p] && p>1
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  1/a*Int[(g*Tan[e+f*x])^p/Cos[e+f*x]^2,x] - 
+  b/(a^2*g)*Int[(g*Tan[e+f*x])^(p+1)/Cos[e+f*x],x] - 
+  (a^2-b^2)/(a^2*g^2)*Int[(g*Tan[e+f*x])^(p+2)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*p] && p<-1
+
+
+Int[Sqrt[g_.*tan[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  Sqrt[Cos[e+f*x]]*Sqrt[g*Tan[e+f*x]]/Sqrt[Sin[e+f*x]]*Int[Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[1/(Sqrt[g_*tan[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*Sqrt[g*Tan[e+f*x]])*Int[Sqrt[Cos[e+f*x]]/(Sqrt[Sin[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[ExpandIntegrand[Sin[e+f*x]^p*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]^2)^(p/2),x],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && IntegersQ[m,p/2]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Defer[Int][(g*Tan[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+Int[(g_.*cot[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
+  g^(2*IntPart[p])*(g*Cot[e+f*x])^FracPart[p]*(g*Tan[e+f*x])^FracPart[p]*Int[(a+b*Sin[e+f*x])^m/(g*Tan[e+f*x])^p,x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.2.1 (a+b sin)^m (c+d sin)^n*)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (2*a*c+b*d)*x/2 - (b*c+a*d)*Cos[e+f*x]/f - b*d*Cos[e+f*x]*Sin[e+f*x]/(2*f) /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  b*x/d - (b*c-a*d)/d*Int[1/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  a*c*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[Cos[e+f*x]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Sin[e+f*x]]) /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NeQ[n+1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(2*n+1)) - 
+  b*(2*m-1)/(d*(2*n+1))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m-1/2] && RationalQ[n] && n<-1 && 
+  Not[NegativeIntegerQ[m+n] && 2*m+n+1>0]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(m+n)) + 
+  a*(2*m-1)/(m+n)*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m-1/2] && Not[RationalQ[n] && n<-1] && 
+  Not[PositiveIntegerQ[n-1/2] && n<m] && Not[NegativeIntegerQ[m+n] && 2*m+n+1>0]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[1/Cos[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+1] && NeQ[m+1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
+  (m+n+1)/(a*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+n+1]] && NeQ[m+1/2] && 
+  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
+  (m+n+1)/(a*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && 
+  Not[RationalQ[n] && m<n<-1] && IntegersQ[2*m,2*n]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/Cos[e+f*x]^(2*FracPart[m])*
+    Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (FractionQ[m] || Not[FractionQ[n]])
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^2/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b^2*Cos[e+f*x]/(d*f) + 1/d*Int[Simp[a^2*d-b*(b*c-2*a*d)*Sin[e+f*x],x]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[1/((a_.+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(a+b*Sin[e+f*x]),x] - d/(b*c-a*d)*Int[1/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  c*Int[(b*Sin[e+f*x])^m,x] + d/b*Int[(b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{b,c,d,e,f,m},x]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[a*d*m+b*c*(m+1)]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
+  (a*d*m+b*c*(m+1))/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) + 
+  (a*d*m+b*c*(m+1))/(b*(m+1))*Int[(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  (b*c-a*d)/b*Int[1/Sqrt[a+b*Sin[e+f*x]],x] + d/b*Int[Sqrt[a+b*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) + 
+  1/(m+1)*Int[(a+b*Sin[e+f*x])^(m-1)*Simp[b*d*m+a*c*(m+1)+(a*d*m+b*c*(m+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && IntegerQ[2*m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[(a*c-b*d)*(m+1)-(b*c-a*d)*(m+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  c*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*Subst[Int[(a+b*x)^m*Sqrt[1+d/c*x]/Sqrt[1-d/c*x],x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]] && EqQ[c^2-d^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)/b*Int[(a+b*Sin[e+f*x])^m,x] + d/b*Int[(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(d*sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && RationalQ[n]
+
+
+Int[sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) - 
+  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m+1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*(b*(m+1)-a*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])/(a*f*(2*m+1)) + 
+  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*c*d*(m-1)+b*(d^2+c^2*(m+1))+d*(a*d*(m-1)+b*c*(m+2))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  -d^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[b*(d^2*(m+1)+c^2*(m+2))-d*(a*d-2*b*c*(m+2))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)) + 
+  b^2/(d*(n+1)*(b*c+a*d))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[a*c*(m-2)-b*d*(m-2*n-4)-(b*c*(m-1)-a*d*(m+2*n+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1 && n<-1 && 
+  (IntegersQ[2*m,2*n] || IntegerQ[m+1/2] || IntegerQ[m] && EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^n*
+    Simp[a*b*c*(m-2)+b^2*d*(n+1)+a^2*d*(m+n)-b*(b*c*(m-1)-a*d*(3*m+2*n-2))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1 && 
+  Not[RationalQ[n] && n<-1] && (IntegersQ[2*m,2*n] || IntegerQ[m+1/2] || IntegerQ[m] && EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*Simp[a*d*n-b*c*(m+1)-b*d*(m+n+1)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
+  (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)/(a*f*(2*m+1)) + 
+  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-2)*
+    Simp[b*(c^2*(m+1)+d^2*(n-1))+a*c*d*(m-n+1)+d*(a*d*(m-n+1)+b*c*(m+n))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && n>1 && 
+  (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(a*f*(2*m+1)*(b*c-a*d)) + 
+  1/(a*(2*m+1)*(b*c-a*d))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[b*c*(m+1)-a*d*(2*m+n+2)+b*d*(m+n+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
+  Not[RationalQ[n] && n>0] && (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n-1)/(a*f*(a+b*Sin[e+f*x])) - 
+  d/(a*b)*Int[(c+d*Sin[e+f*x])^(n-2)*Simp[b*d*(n-1)-a*c*n+(b*c*(n-1)-a*d*n)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && 
+  (IntegerQ[2*n] || EqQ[c])
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b^2*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(a*f*(b*c-a*d)*(a+b*Sin[e+f*x])) + 
+  d/(a*(b*c-a*d))*Int[(c+d*Sin[e+f*x])^n*(a*n-b*(n+1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<0 && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(a*f*(a+b*Sin[e+f*x])) + 
+  d*n/(a*b)*Int[(c+d*Sin[e+f*x])^(n-1)*(a-b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Sin[e+f*x]]) + 
+  2*n*(b*c+a*d)/(b*(2*n+1))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>0 && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_.+d_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  -2*b^2*Cos[e+f*x]/(f*(b*c+a*d)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]) /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*c-a*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)*Sqrt[a+b*Sin[e+f*x]]) + 
+  (2*n+3)*(b*c-a*d)/(2*b*(n+1)*(c^2-d^2))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && NeQ[2*n+3] && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -2*b/f*Subst[Int[1/(b*c+a*d-d*x^2),x],x,b*Cos[e+f*x]/Sqrt[a+b*Sin[e+f*x]]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2/f*Subst[Int[1/Sqrt[1-x^2/a],x],x,b*Cos[e+f*x]/Sqrt[a+b*Sin[e+f*x]]] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2*b/f*Subst[Int[1/(b+d*x^2),x],x,b*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*Subst[Int[(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[IntegerQ[2*n]]
+
+
+Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  d/b*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  (b*c-a*d)/b*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2*d*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Sin[e+f*x]]) - 
+  1/(b*(2*n-1))*Int[(c+d*Sin[e+f*x])^(n-2)/Sqrt[a+b*Sin[e+f*x]]*
+    Simp[a*c*d-b*(2*d^2*(n-1)+c^2*(2*n-1))+d*(a*d-b*c*(4*n-3))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
+
+
+Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -d*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)*Sqrt[a+b*Sin[e+f*x]]) - 
+  1/(2*b*(n+1)*(c^2-d^2))*Int[(c+d*Sin[e+f*x])^(n+1)*Simp[a*d-2*b*c*(n+1)+b*d*(2*n+3)*Sin[e+f*x],x]/Sqrt[a+b*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/Sqrt[a+b*Sin[e+f*x]],x] - d/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -Sqrt[2]/(Sqrt[a]*f)*Subst[Int[1/Sqrt[1-x^2],x],x,b*Cos[e+f*x]/(a+b*Sin[e+f*x])] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b] && PositiveQ[a]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*a/f*Subst[Int[1/(2*b^2-(a*c-b*d)*x^2),x],x,b*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)/(f*(m+n)) + 
+  1/(b*(m+n))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-2)*
+    Simp[d*(a*c*m+b*d*(n-1))+b*c^2*(m+n)+d*(a*d*m+b*c*(m+2*n-1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && IntegerQ[n]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*Subst[Int[(1+b/a*x)^(m-1/2)*(c+d*x)^n/Sqrt[1-b/a*x],x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*(d/b)^n*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
+    Subst[Int[(a-x)^n*(2*a-x)^(m-1/2)/Sqrt[x],x],x,a-b*Sin[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && PositiveQ[d/b]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (d/b)^IntPart[n]*(d*Sin[e+f*x])^FracPart[n]/(b*Sin[e+f*x])^FracPart[n]*Int[(a+b*Sin[e+f*x])^m*(b*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[PositiveQ[d/b]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]/(1+b/a*Sin[e+f*x])^FracPart[m]*
+    Int[(1+b/a*Sin[e+f*x])^m*(d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[PositiveQ[a]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^2*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[IntegerQ[m]]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  2*c*d/b*Int[(b*Sin[e+f*x])^(m+1),x] + Int[(b*Sin[e+f*x])^m*(c^2+d^2*Sin[e+f*x]^2),x] /;
+FreeQ[{b,c,d,e,f,m},x]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  -(b^2*c^2-2*a*b*c*d+a^2*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) - 
+  1/(b*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
+    Simp[b*(m+1)*(2*b*c*d-a*(c^2+d^2))+(a^2*d^2-2*a*b*c*d*(m+2)+b^2*(d^2*(m+1)+c^2*(m+2)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  -d^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[b*(d^2*(m+1)+c^2*(m+2))-d*(a*d-2*b*c*(m+2))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(d*sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(b^2*c^2-2*a*b*c*d+a^2*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-3)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[b*(m-2)*(b*c-a*d)^2+a*d*(n+1)*(c*(a^2+b^2)-2*a*b*d)+
+      (b*(n+1)*(a*b*c^2+c*d*(a^2+b^2)-3*a*b*d^2)-a*(n+2)*(b*c-a*d)^2)*Sin[e+f*x]+
+      b*(b^2*(c^2-d^2)-m*(b*c-a*d)^2+d*n*(2*a*b*c-d*(a^2+b^2)))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>2 && n<-1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-3)*(c+d*Sin[e+f*x])^n*
+    Simp[a^3*d*(m+n)+b^2*(b*c*(m-2)+a*d*(n+1))-
+      b*(a*b*c-b^2*d*(m+n-1)-3*a^2*d*(m+n))*Sin[e+f*x]-
+      b^2*(b*c*(m-1)-a*d*(3*m+2*n-2))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>2 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>2 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
+
+
+Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  -2*a*d*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) - 
+  d^2/(a^2-b^2)*Int[Sqrt[a+b*Sin[e+f*x]]/(d*Sin[e+f*x])^(3/2),x] /; 
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[c_+d_.*sin[e_.+f_.*x_]]/(a_.+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  (c-d)/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
+  (b*c-a*d)/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /; 
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
+    Simp[a*c*(m+1)+b*d*n+(a*d*(m+1)-b*c*(m+2))*Sin[e+f*x]-b*d*(m+n+2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
+  IntegersQ[2*m,2*n]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^(3/2)/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  d/b*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
+  a*d/b*Int[Sqrt[d*Sin[e+f*x]]/(a+b*Sin[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(c_+d_.*sin[e_.+f_.*x_])^(3/2)/(a_.+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  d^2/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  (b*c-a*d)/b^2*Int[Simp[b*c+a*d+2*b*d*Sin[e+f*x],x]/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-2)*
+    Simp[c*(a*c-b*d)*(m+1)+d*(b*c-a*d)*(n-1)+(d*(a*c-b*d)*(m+1)-c*(b*c-a*d)*(m+2))*Sin[e+f*x]-d*(b*c-a*d)*(m+n+1)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 1<n<2 && 
+  IntegersQ[2*m,2*n]
+
+
+Int[1/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2*b*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) + 
+  d/(a^2-b^2)*Int[(b+a*Sin[e+f*x])/(Sqrt[a+b*Sin[e+f*x]]*(d*Sin[e+f*x])^(3/2)),x] /; 
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[1/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  1/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
+  b/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[a*(b*c-a*d)*(m+1)+b^2*d*(m+n+2)-(b^2*c+b*(b*c-a*d)*(m+1))*Sin[e+f*x]-b^2*d*(m+n+3)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
+  IntegersQ[2*m,2*n] && 
+  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
+
+
+Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]/(a_.+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  d/b*Int[1/Sqrt[c+d*Sin[e+f*x]],x] + 
+  (b*c-a*d)/b*Int[1/((a+b*Sin[e+f*x])*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^(3/2)/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  b/d*Int[Sqrt[a+b*Sin[e+f*x]],x] - (b*c-a*d)/d*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2/(f*(a+b)*Sqrt[c+d])*EllipticPi[2*b/(a+b),1/2*(e-Pi/2+f*x),2*d/(c+d)] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PositiveQ[c+d]
+
+
+Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2/(f*(a-b)*Sqrt[c-d])*EllipticPi[-2*b/(a-b),1/2*(e+Pi/2+f*x),-2*d/(c-d)] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PositiveQ[c-d]
+
+
+Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[(c+d*Sin[e+f*x])/(c+d)]/Sqrt[c+d*Sin[e+f*x]]*Int[1/((a+b*Sin[e+f*x])*Sqrt[c/(c+d)+d/(c+d)*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && Not[PositiveQ[c+d]]
+
+
+Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  2*c*Rt[b*(c+d),2]*Tan[e+f*x]*Sqrt[1+Csc[e+f*x]]*Sqrt[1-Csc[e+f*x]]/(d*f*Sqrt[c^2-d^2])*
+    EllipticPi[(c+d)/d,ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
+FreeQ[{b,c,d,e,f},x] && PositiveQ[c^2-d^2] && PosQ[(c+d)/b] && PositiveQ[c^2]
+
+
+Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  2*b*Tan[e+f*x]/(d*f)*Rt[(c+d)/b,2]*Sqrt[c*(1+Csc[e+f*x])/(c-d)]*Sqrt[c*(1-Csc[e+f*x])/(c+d)]*
+    EllipticPi[(c+d)/d,ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && PosQ[(c+d)/b]
+
+
+Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[b*Sin[e+f*x]]/Sqrt[-b*Sin[e+f*x]]*Int[Sqrt[-b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NegQ[(c+d)/b]
+
+
+(* Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  a*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]),x] + 
+  b/d*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] *)
+
+
+(* Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  2*(a+b*Sin[e+f*x])/(d*f*Rt[(a+b)/d,2]*Cos[e+f*x])*Sqrt[a*(1-Sin[e+f*x])/(a+b*Sin[e+f*x])]*Sqrt[a*(1+Sin[e+f*x])/(a+b*Sin[e+f*x])]*
+    EllipticPi[b/(a+b),ArcSin[Rt[(a+b)/d,2]*(Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]])],-(a-b)/(a+b)] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && PosQ[(a+b)/d] *)
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  2*(a+b*Sin[e+f*x])/(d*f*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
+    Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
+    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*
+    EllipticPi[b*(c+d)/(d*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PosQ[(a+b)/(c+d)]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[-c-d*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]]*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[-c-d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NegQ[(a+b)/(c+d)]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*d/(f*Sqrt[a+b*d])*EllipticF[ArcSin[Cos[e+f*x]/(1+d*Sin[e+f*x])],-(a-b*d)/(a+b*d)] /;
+FreeQ[{a,b,d,e,f},x] && NegativeQ[a^2-b^2] && EqQ[d^2-1] && PositiveQ[b*d]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[Sign[b]*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[Sign[b]*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f},x] && NegativeQ[a^2-b^2] && PositiveQ[b^2] && Not[EqQ[d^2-1] && PositiveQ[b*d]]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*Sqrt[a^2]*Sqrt[-Cot[e+f*x]^2]/(a*f*Sqrt[a^2-b^2]*Cot[e+f*x])*Rt[(a+b)/d,2]*
+    EllipticF[ArcSin[Sqrt[a+b*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]/Rt[(a+b)/d,2]],-(a+b)/(a-b)] /;
+FreeQ[{a,b,d,e,f},x] && PositiveQ[a^2-b^2] && PosQ[(a+b)/d] && PositiveQ[a^2]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*Tan[e+f*x]/(a*f)*Rt[(a+b)/d,2]*Sqrt[a*(1-Csc[e+f*x])/(a+b)]*Sqrt[a*(1+Csc[e+f*x])/(a-b)]*
+    EllipticF[ArcSin[Sqrt[a+b*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]/Rt[(a+b)/d,2]],-(a+b)/(a-b)] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && PosQ[(a+b)/d]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[-d*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[-d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && NegQ[(a+b)/d]
+
+
+Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2*(c+d*Sin[e+f*x])/(f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cos[e+f*x])*
+    Sqrt[(b*c-a*d)*(1-Sin[e+f*x])/((a+b)*(c+d*Sin[e+f*x]))]*
+    Sqrt[-(b*c-a*d)*(1+Sin[e+f*x])/((a-b)*(c+d*Sin[e+f*x]))]*
+    EllipticF[ArcSin[Rt[(c+d)/(a+b),2]*(Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]])],(a+b)*(c-d)/((a-b)*(c+d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PosQ[(c+d)/(a+b)]
+
+
+Int[1/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[-a-b*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]*Int[1/(Sqrt[-a-b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NegQ[(c+d)/(a+b)]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^(3/2)/Sqrt[a_.+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -a*d/(2*b)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
+  d/(2*b)*Int[Sqrt[d*Sin[e+f*x]]*(a+2*b*Sin[e+f*x])/Sqrt[a+b*Sin[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n-1)*
+    Simp[a^2*c*d*(m+n)+b*d*(b*c*(m-1)+a*d*n)+
+      (a*d*(2*b*c+a*d)*(m+n)-b*d*(a*c-b*d*(m+n-1)))*Sin[e+f*x]+
+      b*d*(b*c*n+a*d*(2*m+n-1))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && 0<m<2 && -1<n<2 && 
+  NeQ[m+n] && (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b/d*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] - 
+  (b*c-a*d)/d*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[m]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+(* Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(d_./sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(d*Csc[e+f*x])^(n-m)*(b+a*Csc[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] *)
+
+
+(* Int[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(d_./cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(d*Sec[e+f*x])^(n-m)*(b+a*Sec[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] *)
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.*(d_.*sin[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Sin[e + f*x])^p)^FracPart[n]/(d*Sin[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.*(d_.*cos[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Cos[e + f*x])^p)^FracPart[n]/(d*Cos[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^n,x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[n]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^m,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*cos[e_.+f_.*x_])^m_.*(c_+d_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(b+a*Sec[e+f*x])^m*(c+d*Sec[e+f*x])^n/Sec[e+f*x]^m,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Sin[e+f*x]^n*(c+d*Csc[e+f*x])^n/(d+c*Sin[e+f*x])^n*Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+Int[(a_+b_.*cos[e_.+f_.*x_])^m_*(c_+d_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  Cos[e+f*x]^n*(c+d*Sec[e+f*x])^n/(d+c*Cos[e+f*x])^n*Int[(a+b*Cos[e+f*x])^m*(d+c*Cos[e+f*x])^n/Cos[e+f*x]^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.2.2 (g cos)^p (a+b sin)^m (c+d sin)^n*)
+
+
+Int[cos[e_.+f_.*x_]*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  1/(b*f)*Subst[Int[(a+x)^m*(c+d/b*x)^n,x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_.*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  a*Int[Cos[e+f*x]^p*(d*Sin[e+f*x])^n,x] + b/d*Int[Cos[e+f*x]^p*(d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,n,p},x] && IntegerQ[(p-1)/2] && IntegerQ[n] && (p<0 && NeQ[a^2-b^2] || 0<n<p-1 || p+1<-n<2*p+1)
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  1/a*Int[Cos[e+f*x]^(p-2)*(d*Sin[e+f*x])^n,x] - 
+  1/(b*d)*Int[Cos[e+f*x]^(p-2)*(d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,n,p},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2] && IntegerQ[n] && (0<n<(p+1)/2 || p<=-n<2*p-3 || 0<n<=-p)
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  1/(b^p*f)*Subst[Int[(a+x)^(m+(p-1)/2)*(a-x)^((p-1)/2)*(c+d/b*x)^n,x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,e,f,c,d,m,n},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2]
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  1/(b^p*f)*Subst[Int[(a+x)^m*(c+d/b*x)^n*(b^2-x^2)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_.*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  a*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n,x] + b/d*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n,x] - 
+  g^2/(b*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*c^m/g^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && n^2<m^2]
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  1/(a^(p/2)*c^(p/2))*Int[(a+b*Sin[e+f*x])^(m+p/2)*(c+d*Sin[e+f*x])^(n+p/2),x] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[p/2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  g*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[(g*Cos[e+f*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
+    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*Int[(g*Cos[e+f*x])^(2*m+p)/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && EqQ[m-n-1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m-n-1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && NeQ[m-n-1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(2*n+p+1)) - 
+  b*(2*m+p-1)/(d*(2*n+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[m+p/2-1/2]] && RationalQ[n] && n<-1 && 
+  NeQ[2*n+p+1] && Not[NegativeIntegerQ[Simplify[m+n+p]] && Simplify[2*m+n+3*p/2+1]>0]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m+n+p)) + 
+  a*(2*m+p-1)/(m+n+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[m+p/2-1/2]] && Not[RationalQ[n] && n<-1] && 
+  Not[PositiveIntegerQ[Simplify[n+p/2-1/2]] && m-n>0] && Not[NegativeIntegerQ[Simplify[m+n+p]] && Simplify[2*m+n+3*p/2+1]>0]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
+    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*Int[(g*Cos[e+f*x])^(2*m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p+1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(m-n)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+p+1] && NeQ[m-n]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(2*m+p+1)) + 
+  (m+n+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+n+p+1]] && NeQ[2*m+p+1] && 
+  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(2*n+p+1)) - 
+  b*(2*m+p-1)/(d*(2*n+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<-1 && NeQ[2*n+p+1] && 
+  IntegersQ[2*m,2*n,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m+n+p)) + 
+  a*(2*m+p-1)/(m+n+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m>0 && NeQ[m+n+p] && 
+  Not[RationalQ[n] && 0<n<m] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(2*m+p+1)) + 
+  (m+n+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && NeQ[2*m+p+1] && 
+  Not[RationalQ[n] && m<n<-1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
+    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*
+    Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (FractionQ[m] || Not[FractionQ[n]])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[a*d*m+b*c*(m+p+1)]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c+a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(p+1)) + 
+  b*(a*d*m+b*c*(m+p+1))/(a*g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>-1 && p<-1
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
+  (a*d*m+b*c*(m+p+1))/(b*(m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[(2*m+p+1)/2]] && NeQ[m+p+1]
+
+
+Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  2*(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(2*m+3)) + 
+  1/(b^3*(2*m+3))*Int[(a+b*Sin[e+f*x])^(m+2)*(b*c+2*a*d*(m+1)-b*d*(2*m+3)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-3/2
+
+
+Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  d*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)/(b^2*f*(m+3)) - 
+  1/(b^2*(m+3))*Int[(a+b*Sin[e+f*x])^(m+1)*(b*d*(m+2)-a*c*(m+3)+(b*c*(m+3)-a*d*(m+4))*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && -3/2<=m<0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) + 
+  (a*d*m+b*c*(m+p+1))/(a*b*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1 || NegativeIntegerQ[Simplify[m+p]]) && NeQ[2*m+p+1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
+  (a*d*m+b*c*(m+p+1))/(b*(m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && NeQ[m+p+1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])/(f*g*(p+1)) + 
+  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)*Simp[a*c*(p+2)+b*d*m+b*c*(m+p+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m>0 && p<-1 && IntegerQ[2*m] && 
+  Not[m==1 && NeQ[c^2-d^2] && SimplerQ[c+d*x,a+b*x]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
+  1/(m+p+1)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*Simp[a*c*(m+p+1)+b*d*m+(a*d*m+b*c*(m+p+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[p] && p<-1] && IntegerQ[2*m] && 
+  Not[m==1 && NeQ[c^2-d^2] && SimplerQ[c+d*x,a+b*x]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)*(b*c*(m+p+1)-a*d*p+b*d*(m+1)*Sin[e+f*x])/(b^2*f*(m+1)*(m+p+1)) + 
+  g^2*(p-1)/(b^2*(m+1)*(m+p+1))*
+    Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)*Simp[b*d*(m+1)+(b*c*(m+p+1)-a*d*p)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && NeQ[m+p+1] && IntegerQ[2*m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a^2-b^2)*(m+1)) + 
+  1/((a^2-b^2)*(m+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*Simp[(a*c-b*d)*(m+1)-(b*c-a*d)*(m+p+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)*(b*c*(m+p+1)-a*d*p+b*d*(m+p)*Sin[e+f*x])/(b^2*f*(m+p)*(m+p+1)) + 
+  g^2*(p-1)/(b^2*(m+p)*(m+p+1))*
+    Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^m*Simp[b*(a*d*m+b*c*(m+p+1))+(a*b*c*(m+p+1)-d*(a^2*p-b^2*(m+p)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p>1 && NeQ[m+p] && NeQ[m+p+1] && IntegerQ[2*m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)*(b*c-a*d-(a*c-b*d)*Sin[e+f*x])/(f*g*(a^2-b^2)*(p+1)) + 
+  1/(g^2*(a^2-b^2)*(p+1))*
+    Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m*Simp[c*(a^2*(p+2)-b^2*(m+p+2))+a*b*d*m+b*(a*c-b*d)*(m+p+3)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegerQ[2*m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(c_.+d_.*sin[e_.+f_.*x_])/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  d/b*Int[(g*Cos[e+f*x])^p,x] + (b*c-a*d)/b*Int[(g*Cos[e+f*x])^p/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  c*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
+    Subst[Int[(1+d/c*x)^((p+1)/2)*(1-d/c*x)^((p-1)/2)*(a+b*x)^m,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^(2*m)*Int[(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && 2*m+p==0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(2*b*f*g*(m+1)) + 
+  a/(2*g^2)*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[m-p]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*m) - 
+  1/g^2*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[m+p+1]
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  1/a^p*Int[ExpandTrig[(d*sin[e+f*x])^n*(a-b*sin[e+f*x])^(p/2)*(a+b*sin[e+f*x])^(m+p/2),x],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,n,p/2] && (m>0 && p>0 && -m-p<n<-1 || m>2 && p<0 && m+p/2>0)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  1/b^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1)*(a-b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && (NegativeIntegerQ[m] || Not[PositiveIntegerQ[n]])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,g,n},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && (2*m+p==0 || 2*m+p>0 && p<-1)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) - 
+  1/(a^2*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m+p+1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m<=-1/2 && NeQ[2*m+p+1]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*g*(m+p+2)) + 
+  1/(b*(m+p+2))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m*(b*(m+1)-a*(p+1)*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && NeQ[m+p+2]
+
+
+Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  1/b^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1)*(a-b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegersQ[2*m,2*n]
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  -2/(a*b*d)*Int[(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+2),x] + 
+  1/a^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+2)*(1+Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  1/d^4*Int[(d*Sin[e+f*x])^(n+4)*(a+b*Sin[e+f*x])^m,x] + 
+  Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[PositiveIntegerQ[m]]
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*
+    Subst[Int[(d*x)^n*(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && IntegerQ[m]
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Cos[e+f*x]/(a^(p-2)*f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
+    Subst[Int[(d*x)^n(a+b*x)^(m+p/2-1/2)*(a-b*x)^(p/2-1/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && Not[IntegerQ[m]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveIntegerQ[n])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a^m*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
+    Subst[Int[(d*x)^n*(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,d,e,f,n,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)/(f*(a+b*Sin[e+f*x])^((p-1)/2)*(a-b*Sin[e+f*x])^((p-1)/2))*
+    Subst[Int[(d*x)^n*(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -g*(g*Cos[e+f*x])^(p-1)*Sqrt[d*Sin[e+f*x]]*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(m+1)) + 
+  g^2*(2*m+3)/(2*a*(m+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)/Sqrt[d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && EqQ[m+p+1/2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  2*(g*Cos[e+f*x])^(p+1)*Sqrt[d*Sin[e+f*x]]*(a+b*Sin[e+f*x])^m/(d*f*g*(2*m+1)) + 
+  2*a*m/(g^2*(2*m+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)/Sqrt[d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && EqQ[m+p+3/2]
+
+
+Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*(1-Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+(* Int[cos[e_.+f_.*x_]^4*sin[e_.+f_.*x_]^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a^2-b^2)*Cos[e+f*x]*Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*b^2*d*(m+1)) - 
+  (a^2*(n+1)-b^2*(m+n+2))*Cos[e+f*x]*Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+2)/(a^2*b^2*d*(n+1)*(m+1)) + 
+  1/(a^2*b*(n+1)*(m+1))*Int[Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+1)*
+    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && n<-1 *)
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(n+1)) - 
+  (a^2*(n+1)-b^2*(m+n+2))*Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(a^2*b*d^2*f*(n+1)*(m+1)) + 
+  1/(a^2*b*d*(n+1)*(m+1))*Int[(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)*
+    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && n<-1
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a^2-b^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*b^2*d*f*(m+1)) + 
+  (a^2*(n-m+1)-b^2*(m+n+2))*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^(n+1)/(a^2*b^2*d*f*(m+1)*(m+2)) - 
+  1/(a^2*b^2*(m+1)*(m+2))*Int[(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^n*
+    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+3)+a*b*(m+2)*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && Not[n<-1] && (m<-2 || EqQ[m+n+4])
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  (a^2-b^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*b^2*d*f*(m+1)) - 
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^(n+1)/(b^2*d*f*(m+n+4)) - 
+  1/(a*b^2*(m+1)*(m+n+4))*Int[(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^n*
+    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+3)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && Not[n<-1] && NeQ[m+n+4]
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*d*f*(n+1)) - 
+  b*(m+n+2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+2)/(a^2*d^2*f*(n+1)*(n+2)) - 
+  1/(a^2*d^2*(n+1)*(n+2))*Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n+2)*
+    Simp[a^2*n*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*m*Sin[e+f*x]-(a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && RationalQ[n] && n<-1 && 
+  (n<-2 || EqQ[m+n+4])
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*d*f*(n+1)) - 
+  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+2)/(b*d^2*f*(m+n+4)) + 
+  1/(a*b*d*(n+1)*(m+n+4))*Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n+1)*
+    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+4)+a*b*(m+3)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+3)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && RationalQ[n] && n<-1 && 
+  NeQ[m+n+4]
+
+
+Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  a*(n+3)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(b^2*d*f*(m+n+3)*(m+n+4)) - 
+  Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(b*d^2*f*(m+n+4)) - 
+  1/(b^2*(m+n+3)*(m+n+4))*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*
+    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+3)*(m+n+4)+a*b*m*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+3)*(m+n+5))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && Not[RationalQ[n] && n<-1] && 
+  NeQ[m+n+3] && NeQ[m+n+4]
+
+
+Int[cos[e_.+f_.*x_]^6*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(n+1)) - 
+  b*(m+n+2)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(a^2*d^2*f*(n+1)*(n+2)) - 
+  a*(n+5)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+3)*(a+b*Sin[e+f*x])^(m+1)/(b^2*d^3*f*(m+n+5)*(m+n+6)) + 
+  Cos[e+f*x]*(d*Sin[e+f*x])^(n+4)*(a+b*Sin[e+f*x])^(m+1)/(b*d^4*f*(m+n+6)) + 
+  1/(a^2*b^2*d^2*(n+1)*(n+2)*(m+n+5)*(m+n+6))*
+    Int[(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^m*
+      Simp[a^4*(n+1)*(n+2)*(n+3)*(n+5)-a^2*b^2*(n+2)*(2*n+1)*(m+n+5)*(m+n+6)+b^4*(m+n+2)*(m+n+3)*(m+n+5)*(m+n+6) + 
+        a*b*m*(a^2*(n+1)*(n+2)-b^2*(m+n+5)*(m+n+6))*Sin[e+f*x] - 
+        (a^4*(n+1)*(n+2)*(4+n)*(n+5)+b^4*(m+n+2)*(m+n+4)*(m+n+5)*(m+n+6)-a^2*b^2*(n+1)*(n+2)*(m+n+5)*(2*n+2*m+13))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && NeQ[n+1] && NeQ[n+2] && NeQ[m+n+5] && 
+  NeQ[m+n+6] && Not[PositiveIntegerQ[m]]
+
+
+Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[ExpandTrig[(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m*(1-sin[e+f*x]^2)^(p/2),x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[m,2*n,p/2] && (m<-1 || m==-1 && p>0)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p,sin[e+f*x]^n/(a+b*sin[e+f*x]),x],x] /;
+FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && IntegerQ[n] && (n<0 || PositiveIntegerQ[p+1/2])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n,x] - 
+  b*g^2/(a^2*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1),x] - 
+  g^2*(a^2-b^2)/(a^2*d^2)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 && (n<=-2 || n==-3/2 && p==3/2)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g^2/(a*b)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(b-a*Sin[e+f*x]),x] + 
+  g^2*(a^2-b^2)/(a*b*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 && (n<-1 || p==3/2 && n==-1/2)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g^2/b^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] - 
+  g^2*(a^2-b^2)/b^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1
+
+
+(* Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] - 
+  g^2/d^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 *)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  a*d^2/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-2),x] - 
+  b*d/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1),x] - 
+  a^2*d^2/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^(n-2)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1 && n>1
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -d/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1)*(b-a*Sin[e+f*x]),x] + 
+  a*b*d/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^(n-1)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1 && n>0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] - 
+  b^2/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1
+
+
+Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(Sqrt[sin[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  -4*Sqrt[2]*g/f*Subst[Int[x^2/(((a+b)*g^2+(a-b)*x^4)*Sqrt[1-x^4/g^2]),x],x,Sqrt[g*Cos[e+f*x]]/Sqrt[1+Sin[e+f*x]]] /;
+FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(Sqrt[d_*sin[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  Sqrt[Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[Sqrt[g*Cos[e+f*x]]/(Sqrt[Sin[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(Sqrt[cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  With[{q=Rt[-a^2+b^2,2]},
+  2*Sqrt[2]*d*(b+q)/(f*q)*Subst[Int[1/((d*(b+q)+a*x^2)*Sqrt[1-x^4/d^2]),x],x,Sqrt[d*Sin[e+f*x]]/Sqrt[1+Cos[e+f*x]]] - 
+  2*Sqrt[2]*d*(b-q)/(f*q)*Subst[Int[1/((d*(b-q)+a*x^2)*Sqrt[1-x^4/d^2]),x],x,Sqrt[d*Sin[e+f*x]]/Sqrt[1+Cos[e+f*x]]]] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  Sqrt[Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]]*Int[Sqrt[d*Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  d/b*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1),x] - 
+  a*d/b*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && -1<p<1 && n>0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  1/a*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n,x] - 
+  b/(a*d)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n+1)/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && -1<p<1 && n<0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
+FreeQ[{a,b,d,e,f,g,n,p},x] && NeQ[a^2-b^2] && IntegerQ[m] && (m>0 || IntegerQ[n])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
+  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1),x] - 
+  b*g^2/(a^2*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1),x] - 
+  g^2*(a^2-b^2)/(a^2*d^2)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[m,2*n,2*p] && m<0 && p>1 && (n<=-2 || m==-1 && n==-3/2 && p==3/2)
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^(2*m)*Int[(c+d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && 2*m+p==0
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && (2*m+p==0 || 2*m+p>0 && p<-1)
+
+
+Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegersQ[2*m,2*n]
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*
+    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && IntegerQ[m]
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Cos[e+f*x]/(a^(p-2)*f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
+    Subst[Int[(a+b*x)^(m+p/2-1/2)*(a-b*x)^(p/2-1/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && Not[IntegerQ[m]]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p,(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveIntegerQ[n])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^m*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
+    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  g*(g*Cos[e+f*x])^(p-1)/(f*(a+b*Sin[e+f*x])^((p-1)/2)*(a-b*Sin[e+f*x])^((p-1)/2))*
+    Subst[Int[(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
+
+
+Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(1-Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n*(1-sin[e+f*x]^2)^(p/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[p/2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(g*cos[e+f*x])^p*(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[a^2-b^2]
+
+
+Int[(g_.*sec[e_.+f_.*x_])^p_*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(2*IntPart[p])*(g*Cos[e+f*x])^FracPart[p]*(g*Sec[e+f*x])^FracPart[p]*
+    Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(g*Cos[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[p]]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(2*IntPart[p])*(g*Sin[e+f*x])^FracPart[p]*(g*Csc[e+f*x])^FracPart[p]*
+    Int[(a+b*Cos[e+f*x])^m*(c+d*Cos[e+f*x])^n/(g*Sin[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.2.3 (g sin)^p (a+b sin)^m (c+d sin)^n*)
+
+
+Int[Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  g/d*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[g*Sin[e+f*x]],x] - 
+  c*g/d*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  b/d*Int[Sqrt[g*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
+  (b*c-a*d)/d*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  -2*b/f*Subst[Int[1/(b*c+a*d+c*g*x^2),x],x,b*Cos[e+f*x]/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  -Sqrt[a+b]/(c*f)*EllipticE[ArcSin[Cos[e+f*x]/(1+Sin[e+f*x])],-(a-b)/(a+b)] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[d-c] && PositiveQ[b^2-a^2] && PositiveQ[b]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  -Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]/(c+d*Sin[e+f*x])]/
+    (d*f*Sqrt[g*Sin[e+f*x]]*Sqrt[c^2*(a+b*Sin[e+f*x])/((a*c+b*d)*(c+d*Sin[e+f*x]))])*
+    EllipticE[ArcSin[c*Cos[e+f*x]/(c+d*Sin[e+f*x])],(b*c-a*d)/(b*c+a*d)] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  a/c*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] + 
+  (b*c-a*d)/(c*g)*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  1/c*Int[Sqrt[a+b*Sin[e+f*x]]/Sin[e+f*x],x] - 
+  d/c*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  a/c*Int[1/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] + 
+  (b*c-a*d)/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[g_.*sin[e_.+f_.*x_]]/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  -a*g/(b*c-a*d)*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] + 
+  c*g/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[Sqrt[g_.*sin[e_.+f_.*x_]]/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  2*Sqrt[-Cot[e+f*x]^2]*Sqrt[g*Sin[e+f*x]]/(f*(c+d)*Cot[e+f*x]*Sqrt[a+b*Sin[e+f*x]])*Sqrt[(b+a*Csc[e+f*x])/(a+b)]*
+    EllipticPi[2*c/(c+d),ArcSin[Sqrt[1-Csc[e+f*x]]/Sqrt[2]],2*a/(a+b)] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] - 
+  d/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[1/(Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  1/c*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] - 
+  d/(c*g)*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  d^2/(c*(b*c-a*d))*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] + 
+  1/(c*(b*c-a*d))*Int[(b*c-a*d-b*d*Sin[e+f*x])/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  1/c*Int[1/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] - d/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -d/c*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  1/c*Int[Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/Sin[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[b*c+a*d]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*a/f*Subst[Int[1/(1-a*c*x^2),x],x,Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[b*c+a*d]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  (b*c-a*d)/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
+  a/c*Int[Sqrt[c+d*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*(a+b*Sin[e+f*x])/(c*f*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
+    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
+    EllipticPi[a*(c+d)/(c*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[1/(Cos[e+f*x]*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -b/a*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
+  1/a*Int[Sqrt[a+b*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (NeQ[a^2-b^2] || NeQ[c^2-d^2])
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]/sin[e_.+f_.*x_],x_Symbol] :=
+  Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/Cos[e+f*x]*Int[Cot[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]/sin[e_.+f_.*x_],x_Symbol] :=
+  d*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  c*Int[Sqrt[a+b*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (NeQ[a^2-b^2] || NeQ[c^2-d^2])
+
+
+Int[sin[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^n*c^n*Int[Tan[e+f*x]^p*(a+b*Sin[e+f*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[p+2*n] && IntegerQ[n]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Sqrt[a-b*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(f*Cos[e+f*x])*
+    Subst[Int[(g*x)^p*(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m-1/2]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(g*sin[e+f*x])^p*(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[b*c-a*d] && (IntegersQ[m,n] || IntegersQ[m,p] || IntegersQ[n,p]) && NeQ[p-2]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(g*Sin[e+f*x])^p*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[p-2]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(m+n)*Int[(g*Sin[e+f*x])^(p-m-n)*(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (g*Csc[e+f*x])^p*(g*Sin[e+f*x])^p*Int[(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(g*Csc[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[(g*Sin[e+f*x])^(p-n)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && IntegerQ[n]
+
+
+Int[sin[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] && IntegerQ[p]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Csc[e+f*x]^p*(g*Sin[e+f*x])^p*Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && Not[IntegerQ[n]] && IntegerQ[m] && Not[IntegerQ[p]]
+
+
+Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (g*Sin[e+f*x])^n*(c+d*Csc[e+f*x])^n/(d+c*Sin[e+f*x])^n*Int[(g*Sin[e+f*x])^(p-n)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(m+n)*Int[(g*Csc[e+f*x])^(p-m-n)*(b+a*Csc[e+f*x])^m*(d+c*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (g*Csc[e+f*x])^p*(g*Sin[e+f*x])^p*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(g*Sin[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^m*Int[(g*Csc[e+f*x])^(p-m)*(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && IntegerQ[m]
+
+
+Int[csc[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(n+p),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && Not[IntegerQ[m]] && IntegerQ[n] && IntegerQ[p]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Sin[e+f*x]^p*(g*Csc[e+f*x])^p*Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(n+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && Not[IntegerQ[m]] && IntegerQ[n] && Not[IntegerQ[p]]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a+b*Sin[e+f*x])^m*(g*Csc[e+f*x])^m/(b+a*Csc[e+f*x])^m*
+    Int[(g*Csc[e+f*x])^(p-m)*(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.3.1 (a+b sin)^m (c+d sin)^n (A+B sin)*)
+
+
+Int[sin[e_.+f_.*x_]^n_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  Int[ExpandTrig[sin[e+f*x]^n*(a+b*sin[e+f*x])^m*(A+B*sin[e+f*x]),x],x] /;
+FreeQ[{a,b,e,f,A,B},x] && EqQ[A*b+a*B] && EqQ[a^2-b^2] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m)*(A+B*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  Int[(a+b*Sin[e+f*x])^m*(A*c+(B*c+A*d)*Sin[e+f*x]+B*d*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  (A*b+a*B)/(2*a*b)*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  (B*c+A*d)/(2*c*d)*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[A*b*(m+n+1)+a*B*(m-n)] && 
+  NeQ[m+1/2]
+
+
+Int[Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  B/d*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] - 
+  (B*c-A*d)/d*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
+  (a*B*(m-n)+A*b*(m+n+1))/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && 
+  (RationalQ[m] && m<-1/2 || NegativeIntegerQ[m+n] && Not[SumSimplerQ[n,1]]) && NeQ[2*m+1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) - 
+  (B*c*(m-n)-A*d*(m+n+1))/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && 
+  NeQ[m+n+1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)) /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[m+n+2] && 
+  EqQ[A*(a*d*m+b*c*(n+1))-B*(a*c*m+b*d*(n+1))]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b^2*(B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)) - 
+  b/(d*(n+1)*(b*c+a*d))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[a*A*d*(m-n-2)-B*(a*c*(m-1)+b*d*(n+1))-(A*b*d*(m+n+1)-B*(b*c*m-a*d*(n+1)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1/2 && n<-1 && 
+  IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b*B*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
+    Simp[a*A*d*(m+n+1)+B*(a*c*(m-1)+b*d*(n+1))+(A*b*d*(m+n+1)-B*(b*c*m-a*d*(2*m+n)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1/2 && 
+  Not[RationalQ[n] && n<-1] && IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
+    Simp[A*(a*d*n-b*c*(m+1))-B*(a*c*m+b*d*n)-d*(a*B*(m-n)+A*b*(m+n+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1/2 && n>0 && 
+  IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  b*(A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(a*f*(2*m+1)*(b*c-a*d)) + 
+  1/(a*(2*m+1)*(b*c-a*d))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[B*(a*c*m+b*d*(n+1))+A*(b*c*(m+1)-a*d*(2*m+n+2))+d*(A*b-a*B)*(m+n+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2 && 
+  Not[RationalQ[n] && n>0] && IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -2*b*B*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(2*n+3)*Sqrt[a+b*Sin[e+f*x]]) /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1))]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b^2*(B*c-A*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)*Sqrt[a+b*Sin[e+f*x]]) + 
+  (A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1)))/(2*d*(n+1)*(b*c+a*d))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -2*b*B*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(2*n+3)*Sqrt[a+b*Sin[e+f*x]]) + 
+  (A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1)))/(b*d*(2*n+3))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[n] && n<-1]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  (A*b-a*B)/b*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
+  B/b*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) + 
+  1/(b*(m+n+1))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)*
+    Simp[A*b*c*(m+n+1)+B*(a*c*m+b*d*n)+(A*b*d*(m+n+1)+B*(a*d*m+b*c*n))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>0 && 
+  (IntegerQ[n] || EqQ[m+1/2])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)) + 
+  1/(b*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[A*(a*d*m+b*c*(n+1))-B*(a*c*m+b*d*(n+1))+b*(B*c-A*d)*(m+n+2)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && 
+  (IntegerQ[n] || EqQ[m+1/2])
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  (A*b-a*B)/(b*c-a*d)*Int[1/Sqrt[a+b*Sin[e+f*x]],x] + 
+  (B*c-A*d)/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  B/d*Int[(a+b*Sin[e+f*x])^m,x] - (B*c-A*d)/d*Int[(a+b*Sin[e+f*x])^m/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[m+1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)/b*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] + 
+  B/b*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[A*b+a*B]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*(B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[b*(b*c-a*d)*(B*c-A*d)*(m-1)+a*d*(a*A*c+b*B*c-(A*b+a*B)*d)*(n+1)+
+      (b*(b*d*(B*c-A*d)+a*(A*c*d+B*(c^2-2*d^2)))*(n+1)-a*(b*c-a*d)*(B*c-A*d)*(n+2))*Sin[e+f*x]+
+      b*(d*(A*b*c+a*B*c-a*A*d)*(m+n+1)-b*B*(c^2*m+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1 && n<-1
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -b*B*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^n*
+    Simp[a^2*A*d*(m+n+1)+b*B*(b*c*(m-1)+a*d*(n+1))+
+      (a*d*(2*A*b+a*B)*(m+n+1)-b*B*(a*c-b*d*(m+n)))*Sin[e+f*x]+
+      b*(A*b*d*(m+n+1)-B*(b*c*m-a*d*(2*m+n)))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1 && 
+  Not[IntegerQ[n] && n>1 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
+
+
+Int[Sqrt[c_+d_.*sin[e_.+f_.*x_]]*(A_.+B_.*sin[e_.+f_.*x_])/(b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  B*d/b^2*Int[Sqrt[b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  Int[(A*c+(B*c+A*d)*Sin[e+f*x])/((b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]*(A_.+B_.*sin[e_.+f_.*x_])/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  B/b*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
+  (A*b-a*B)/b*Int[Sqrt[c+d*Sin[e+f*x]]/(a+b*Sin[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  2*(A*b-a*B)*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) + 
+  d/(a^2-b^2)*Int[(A*b-a*B+(a*A-b*B)*Sin[e+f*x])/(Sqrt[a+b*Sin[e+f*x]]*(d*Sin[e+f*x])^(3/2)),x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[a^2-b^2]
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/((b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*A*(c-d)*Tan[e+f*x]/(f*b*c^2)*Rt[(c+d)/b,2]*Sqrt[c*(1+Csc[e+f*x])/(c-d)]*Sqrt[c*(1-Csc[e+f*x])/(c+d)]*
+    EllipticE[ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
+FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2] && EqQ[A-B] && PosQ[(c+d)/b]
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/((b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -Sqrt[-b*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/((-b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2] && EqQ[A-B] && NegQ[(c+d)/b]
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -2*A*(c-d)*(a+b*Sin[e+f*x])/(f*(b*c-a*d)^2*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
+    Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
+    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*
+    EllipticE[ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B] && PosQ[(a+b)/(c+d)]
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[-c-d*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[-c-d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B] && NegQ[(a+b)/(c+d)]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  (A-B)/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
+  (A*b-a*B)/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[A-B]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  (B*a-A*b)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
+    Simp[c*(a*A-b*B)*(m+1)+d*n*(A*b-a*B)+(d*(a*A-b*B)*(m+1)-c*(A*b-a*B)*(m+2))*Sin[e+f*x]-d*(A*b-a*B)*(m+n+2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && n>0
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b^2-a*b*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(1+n)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[(a*A-b*B)*(b*c-a*d)*(m+1)+b*d*(A*b-a*B)*(m+n+2)+
+      (A*b-a*B)*(a*d*(m+1)-b*c*(m+2))*Sin[e+f*x]-
+      b*d*(A*b-a*B)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
+  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_.+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  (A*b-a*B)/(b*c-a*d)*Int[1/(a+b*Sin[e+f*x]),x] + (B*c-A*d)/(b*c-a*d)*Int[1/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  B/d*Int[(a+b*Sin[e+f*x])^m,x] - (B*c-A*d)/d*Int[(a+b*Sin[e+f*x])^m/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -2*B*Cos[e+f*x]*Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n/(f*(2*n+3)) + 
+  1/(2*n+3)*Int[(c+d*Sin[e+f*x])^(n-1)/Sqrt[a+b*Sin[e+f*x]]*
+    Simp[a*A*c*(2*n+3)+B*(b*c+2*a*d*n)+
+      (B*(a*c+b*d)*(2*n+1)+A*(b*c+a*d)*(2*n+3))*Sin[e+f*x]+
+      (A*b*d*(2*n+3)+B*(a*d+2*b*c*n))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n^2==1/4
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/(Sqrt[sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  4*A/(f*Sqrt[a+b])*EllipticPi[-1,-ArcSin[Cos[e+f*x]/(1+Sin[e+f*x])],-(a-b)/(a+b)] /;
+FreeQ[{a,b,e,f,A,B},x] && PositiveQ[b] && PositiveQ[b^2-a^2] && EqQ[A-B]
+
+
+Int[(A_+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_*sin[e_.+f_.*x_]]),x_Symbol] :=
+  Sqrt[Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/(Sqrt[Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,e,f,d,A,B},x] && PositiveQ[b] && PositiveQ[b^2-a^2] && EqQ[A-B]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  B/d*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
+  (B*c-A*d)/d*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_])^p_,x_Symbol] :=
+  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m)*(A+B*Sin[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
+  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
+
+
+(* Int[(a_+b_.*cos[e_.+f_.*x_])^m_*(c_+d_.*cos[e_.+f_.*x_])^n_*(A_.+B_.*cos[e_.+f_.*x_])^p_,x_Symbol] :=
+  a^m*c^m*Int[Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m)*(A+B*Cos[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
+  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_])^p_,x_Symbol] :=
+  Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/(f*Cos[e+f*x])*
+    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)*(A+B*x)^p,x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*cos[e_.+f_.*x_])^m_.*(c_+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_])^p_,x_Symbol] :=
+  -Sqrt[a+b*Cos[e+f*x]]*Sqrt[c+d*Cos[e+f*x]]/(f*Sin[e+f*x])*
+    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)*(A+B*x)^p,x],x,Cos[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.4.1 (a+b sin)^m (A+B sin+C sin^2)*)
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_.*(B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b*Int[(b*Sin[e+f*x])^(m+1)*(B+C*Sin[e+f*x]),x] /;
+FreeQ[{b,e,f,B,C,m},x]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) /;
+FreeQ[{b,e,f,A,C,m},x] && EqQ[A*(m+2)+C*(m+1)]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) + (A*(m+2)+C*(m+1))/(b^2*(m+1))*Int[(b*Sin[e+f*x])^(m+2),x] /;
+FreeQ[{b,e,f,A,C},x] && RationalQ[m] && m<-1
+
+
+Int[sin[e_.+f_.*x_]^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -1/f*Subst[Int[(1-x^2)^((m-1)/2)*(A+C-C*x^2),x],x,Cos[e+f*x]] /;
+FreeQ[{e,f,A,C},x] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + (A*(m+2)+C*(m+1))/(m+2)*Int[(b*Sin[e+f*x])^m,x] /;
+FreeQ[{b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  C/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[-a+b*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (A-C)*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x]),x] + C*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x])^2,x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A-B+C] && Not[IntegerQ[2*m]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (A-C)*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x]),x] + C*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x])^2,x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A+C] && Not[IntegerQ[2*m]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b-a*B+b*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
+  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*A*(m+1)+m*(b*B-a*C)+b*C*(2*m+1)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  b*(A+C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
+  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*A*(m+1)-a*C*m+b*C*(2*m+1)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
+  1/(b*(m+1)*(a^2-b^2))*
+    Int[(a+b*Sin[e+f*x])^(m+1)*Simp[b*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C+b*(A*b-a*B+b*C)*(m+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
+  1/(b*(m+1)*(a^2-b^2))*
+    Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*b*(A+C)*(m+1)-(A*b^2+a^2*C+b^2*(A+C)*(m+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[A*b*(m+2)+b*C*(m+1)+(b*B*(m+2)-a*C)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[A*b*(m+2)+b*C*(m+1)-a*C*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(A+B*Cos[e+f*x]+C*Cos[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(A+C*Sin[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(A_.+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(A+C*Cos[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.4.2 (a+b sin)^m (c+d sin)^n (A+B sin+C sin^2)*)
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(b*c-a*d)*(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
+  1/(b^2*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
+    Simp[b*(m+1)*((b*B-a*C)*(b*c-a*d)-A*b*(a*c-b*d))+
+      (b*B*(a^2*d+b^2*d*(m+1)-a*b*c*(m+2))+(b*c-a*d)*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Sin[e+f*x]-
+      b*C*d*(m+1)*(a^2-b^2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(b*c-a*d)*(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) + 
+  1/(b^2*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
+    Simp[b*(m+1)*(a*C*(b*c-a*d)+A*b*(a*c-b*d))-
+      ((b*c-a*d)*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Sin[e+f*x]+
+      b*C*d*(m+1)*(a^2-b^2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*d*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+3)) + 
+  1/(b*(m+3))*Int[(a+b*Sin[e+f*x])^m*
+    Simp[a*C*d+A*b*c*(m+3)+b*(B*c*(m+3)+d*(C*(m+2)+A*(m+3)))*Sin[e+f*x]-(2*a*C*d-b*(c*C+B*d)*(m+3))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*d*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+3)) + 
+  1/(b*(m+3))*Int[(a+b*Sin[e+f*x])^m*
+    Simp[a*C*d+A*b*c*(m+3)+b*d*(C*(m+2)+A*(m+3))*Sin[e+f*x]-(2*a*C*d-b*c*C*(m+3))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (a*A-b*B+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(2*b*c*f*(2*m+1)) - 
+  1/(2*b*c*d*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[A*(c^2*(m+1)+d^2*(2*m+n+2))-B*c*d*(m-n-1)-C*(c^2*m-d^2*(n+1))+d*((A*c+B*d)*(m+n+2)-c*C*(3*m-n))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1/2 || EqQ[m+n+2] && NeQ[2*m+1])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (a*A+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(2*b*c*f*(2*m+1)) - 
+  1/(2*b*c*d*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[A*(c^2*(m+1)+d^2*(2*m+n+2))-C*(c^2*m-d^2*(n+1))+d*(A*c*(m+n+2)-c*C*(3*m-n))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1/2 || EqQ[m+n+2] && NeQ[2*m+1])
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2*C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+3)*Sqrt[c+d*Sin[e+f*x]]) + 
+  Int[(a+b*Sin[e+f*x])^m*Simp[A+C+B*Sin[e+f*x],x]/Sqrt[c+d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2)/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
+  -2*C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+3)*Sqrt[c+d*Sin[e+f*x]]) + 
+  (A+C)*Int[(a+b*Sin[e+f*x])^m/Sqrt[c+d*Sin[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
+    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+(b*B*d*(m+n+2)-b*c*C*(2*m+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && NeQ[m+n+2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
+    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))-b*c*C*(2*m+1)*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && NeQ[m+n+2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (a*A-b*B+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(b*c-a*d)*(2*m+1)) + 
+  1/(b*(b*c-a*d)*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[A*(a*c*(m+1)-b*d*(2*m+n+2))+B*(b*c*m+a*d*(n+1))-C*(a*c*m+b*d*(n+1))+
+      (d*(a*A-b*B)*(m+n+2)+C*(b*c*(2*m+1)-a*d*(m-n-1)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  a*(A+C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(b*c-a*d)*(2*m+1)) + 
+  1/(b*(b*c-a*d)*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[A*(a*c*(m+1)-b*d*(2*m+n+2))-C*(a*c*m+b*d*(n+1))+
+      (a*A*d*(m+n+2)+C*(b*c*(2*m+1)-a*d*(m-n-1)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(c^2*C-B*c*d+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(b*d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[A*d*(a*d*m+b*c*(n+1))+(c*C-B*d)*(a*c*m+b*d*(n+1))+b*(d*(B*c-A*d)*(m+n+2)-C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
+  (RationalQ[n] && n<-1 || EqQ[m+n+2])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(c^2*C+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(b*d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[A*d*(a*d*m+b*c*(n+1))+c*C*(a*c*m+b*d*(n+1))-b*(A*d^2*(m+n+2)+C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
+  (RationalQ[n] && n<-1 || EqQ[m+n+2])
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
+    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+(C*(a*d*m-b*c*(m+1))+b*B*d*(m+n+2))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
+  NeQ[m+n+2]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
+    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+C*(a*d*m-b*c*(m+1))*Sin[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
+  NeQ[m+n+2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(c^2*C-B*c*d+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[A*d*(b*d*m+a*c*(n+1))+(c*C-B*d)*(b*c*m+a*d*(n+1)) - 
+      (d*(A*(a*d*(n+2)-b*c*(n+1))+B*(b*d*(n+1)-a*c*(n+2)))-C*(b*c*d*(n+1)-a*(c^2+d^2*(n+1))))*Sin[e+f*x] + 
+      b*(d*(B*c-A*d)*(m+n+2)-C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(c^2*C+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
+  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
+    Simp[A*d*(b*d*m+a*c*(n+1))+c*C*(b*c*m+a*d*(n+1)) - 
+      (A*d*(a*d*(n+2)-b*c*(n+1))-C*(b*c*d*(n+1)-a*(c^2+d^2*(n+1))))*Sin[e+f*x] - 
+      b*(A*d^2*(m+n+2)+C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(d*(m+n+2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
+    Simp[a*A*d*(m+n+2)+C*(b*c*m+a*d*(n+1))+
+      (d*(A*b+a*B)*(m+n+2)-C*(a*c-b*d*(m+n+1)))*Sin[e+f*x]+
+      (C*(a*d*m-b*c*(m+1))+b*B*d*(m+n+2))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>0 && 
+  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
+  1/(d*(m+n+2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
+    Simp[a*A*d*(m+n+2)+C*(b*c*m+a*d*(n+1))+(A*b*d*(m+n+2)-C*(a*c-b*d*(m+n+1)))*Sin[e+f*x]+C*(a*d*m-b*c*(m+1))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>0 && 
+  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  C/(b*d)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
+  1/b*Int[(A*b+(b*B-a*C)*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  C/(b*d)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
+  1/b*Int[(A*b-a*C*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  C/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  1/b^2*Int[(A*b^2-a^2*C+b*(b*B-2*a*C)*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  C/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
+  1/b^2*Int[(A*b^2-a^2*C-2*a*b*C*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[(m+1)*(b*c-a*d)*(a*A-b*B+a*C)+d*(A*b^2-a*b*B+a^2*C)*(m+n+2) - 
+      (c*(A*b^2-a*b*B+a^2*C)+(m+1)*(b*c-a*d)*(A*b-a*B+b*C))*Sin[e+f*x] - 
+      d*(A*b^2-a*b*B+a^2*C)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 &&
+  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
+    Simp[a*(m+1)*(b*c-a*d)*(A+C)+d*(A*b^2+a^2*C)*(m+n+2) - 
+      (c*(A*b^2+a^2*C)+b*(m+1)*(b*c-a*d)*(A+C))*Sin[e+f*x] - 
+      d*(A*b^2+a^2*C)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
+  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  C*x/(b*d) + 
+  (A*b^2-a*b*B+a^2*C)/(b*(b*c-a*d))*Int[1/(a+b*Sin[e+f*x]),x] - 
+  (c^2*C-B*c*d+A*d^2)/(d*(b*c-a*d))*Int[1/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  C*x/(b*d) + 
+  (A*b^2+a^2*C)/(b*(b*c-a*d))*Int[1/(a+b*Sin[e+f*x]),x] - 
+  (c^2*C+A*d^2)/(d*(b*c-a*d))*Int[1/(c+d*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  C/(b*d)*Int[Sqrt[a+b*Sin[e+f*x]],x] - 
+  1/(b*d)*Int[Simp[a*c*C-A*b*d+(b*c*C-b*B*d+a*C*d)*Sin[e+f*x],x]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
+  C/(b*d)*Int[Sqrt[a+b*Sin[e+f*x]],x] - 
+  1/(b*d)*Int[Simp[a*c*C-A*b*d+(b*c*C+a*C*d)*Sin[e+f*x],x]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -C*Cos[e+f*x]*Sqrt[c+d*Sin[e+f*x]]/(d*f*Sqrt[a+b*Sin[e+f*x]]) + 
+  1/(2*d)*Int[1/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]])*
+    Simp[2*a*A*d-C*(b*c-a*d)-2*(a*c*C-d*(A*b+a*B))*Sin[e+f*x]+(2*b*B*d-C*(b*c+a*d))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
+  -C*Cos[e+f*x]*Sqrt[c+d*Sin[e+f*x]]/(d*f*Sqrt[a+b*Sin[e+f*x]]) + 
+  1/(2*d)*Int[1/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]])*
+    Simp[2*a*A*d-C*(b*c-a*d)-2*(a*c*C-A*b*d)*Sin[e+f*x]-C*(b*c+a*d)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+C*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
+FreeQ[{b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(c+d*Cos[e+f*x])^n*(A+B*Cos[e+f*x]+C*Cos[e+f*x]^2),x] /;
+FreeQ[{b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(c+d*Sin[e+f*x])^n*(A+C*Sin[e+f*x]^2),x] /;
+FreeQ[{b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
+  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(c+d*Cos[e+f*x])^n*(A+C*Cos[e+f*x]^2),x] /;
+FreeQ[{b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.5 trig^m (a cos+b sin)^n*)
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(b*d*n) /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2,0]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -1/d*Subst[Int[(a^2+b^2-x^2)^((n-1)/2),x],x,b*Cos[c+d*x]-a*Sin[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && PositiveIntegerQ[(n-1)/2]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -(b*Cos[c+d*x]-a*Sin[c+d*x])*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*n) +
+  (n-1)*(a^2+b^2)/n*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && Not[OddQ[n]] && GtQ[n,1]
+
+
+Int[1/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  -1/d*Subst[Int[1/(a^2+b^2-x^2),x],x,b*Cos[c+d*x]-a*Sin[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[1/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^2,x_Symbol] :=
+  Sin[c+d*x]/(a*d*(a*Cos[c+d*x]+b*Sin[c+d*x])) /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  (b*Cos[c+d*x]-a*Sin[c+d*x])*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(d*(n+1)*(a^2+b^2)) +
+  (n+2)/((n+1)*(a^2+b^2))*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && NeQ[n,-2]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  (a^2+b^2)^(n/2)*Int[(Cos[c+d*x-ArcTan[a,b]])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[GeQ[n,1] || LeQ[n,-1]] && PositiveQ[a^2+b^2]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  (a*Cos[c+d*x]+b*Sin[c+d*x])^n/((a*Cos[c+d*x]+b*Sin[c+d*x])/Sqrt[a^2+b^2])^n*Int[Cos[c+d*x-ArcTan[a,b]]^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[GeQ[n,1] || LeQ[n,-1]] && Not[PositiveQ[a^2+b^2] || EqQ[a^2+b^2,0]]
+
+
+Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -a*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)*Sin[c+d*x]^(n-1)) + 
+  2*b*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/Sin[c+d*x]^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && GtQ[n,1]
+
+
+Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)*Cos[c+d*x]^(n-1)) + 
+  2*a*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/Cos[c+d*x]^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && GtQ[n,1]
+
+
+Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*b*d*n*Sin[c+d*x]^n) + 
+  1/(2*b)*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/Sin[c+d*x]^(n+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && LtQ[n,0]
+
+
+Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*a*d*n*Cos[c+d*x]^n) + 
+  1/(2*a)*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/Cos[c+d*x]^(n+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && LtQ[n,0]
+
+
+Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*b*d*n*Sin[c+d*x]^n)*Hypergeometric2F1[1,n,n+1,(b+a*Cot[c+d*x])/(2*b)] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && Not[IntegerQ[n]]
+
+
+Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*a*d*n*Cos[c+d*x]^n)*Hypergeometric2F1[1,n,n+1,(a+b*Tan[c+d*x])/(2*a)] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && Not[IntegerQ[n]]
+
+
+Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[(b+a*Cot[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && IntegerQ[n] && NeQ[a^2+b^2,0]
+
+
+Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[(a+b*Tan[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && IntegerQ[n] && NeQ[a^2+b^2,0]
+
+
+Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  1/d*Subst[Int[x^m*(a+b*x)^n/(1+x^2)^((m+n+2)/2),x],x,Tan[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[n] && IntegerQ[(m+n)/2] && n!=-1 && Not[n>0 && m>1]
+
+
+Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -1/d*Subst[Int[x^m*(b+a*x)^n/(1+x^2)^((m+n+2)/2),x],x,Cot[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[n] && IntegerQ[(m+n)/2] && n!=-1 && Not[n>0 && m>1]
+
+
+Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandTrig[sin[c+d*x]^m*(a*cos[c+d*x]+b*sin[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && PositiveIntegerQ[n]
+
+
+Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandTrig[cos[c+d*x]^m*(a*cos[c+d*x]+b*sin[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && PositiveIntegerQ[n]
+
+
+Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^n*b^n*Int[Sin[c+d*x]^m*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-n),x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[n]
+
+
+Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^n*b^n*Int[Cos[c+d*x]^m*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-n),x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[n]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/sin[c_.+d_.*x_],x_Symbol] :=
+  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)) + 
+  b*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
+  a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2)/Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/cos[c_.+d_.*x_],x_Symbol] :=
+  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)) + 
+  a*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
+  b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2)/Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
+
+
+Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -(a^2+b^2)*Int[Sin[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] + 
+  2*b*Int[Sin[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
+  a^2*Int[Sin[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[n,1] && LtQ[m,-1]
+
+
+Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  -(a^2+b^2)*Int[Cos[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] + 
+  2*a*Int[Cos[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
+  b^2*Int[Cos[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[n,1] && LtQ[m,-1]
+
+
+Int[sin[c_.+d_.*x_]/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  b*x/(a^2+b^2) - 
+  a/(a^2+b^2)*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[cos[c_.+d_.*x_]/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  a*x/(a^2+b^2) + 
+  b/(a^2+b^2)*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[sin[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  -a*Sin[c+d*x]^(m-1)/(d*(a^2+b^2)*(m-1)) + 
+  b/(a^2+b^2)*Int[Sin[c+d*x]^(m-1),x] + 
+  a^2/(a^2+b^2)*Int[Sin[c+d*x]^(m-2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[m,1]
+
+
+Int[cos[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  b*Cos[c+d*x]^(m-1)/(d*(a^2+b^2)*(m-1)) + 
+  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1),x] + 
+  b^2/(a^2+b^2)*Int[Cos[c+d*x]^(m-2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[m,1]
+
+
+Int[1/(sin[c_.+d_.*x_]*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])),x_Symbol] :=
+  1/a*Int[Cot[c+d*x],x] - 
+  1/a*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[1/(cos[c_.+d_.*x_]*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])),x_Symbol] :=
+  1/b*Int[Tan[c+d*x],x] + 
+  1/b*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
+
+
+Int[sin[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  Sin[c+d*x]^(m+1)/(a*d*(m+1)) - 
+  b/a^2*Int[Sin[c+d*x]^(m+1),x] + 
+  (a^2+b^2)/a^2*Int[Sin[c+d*x]^(m+2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[m,-1]
+
+
+Int[cos[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  -Cos[c+d*x]^(m+1)/(b*d*(m+1)) - 
+  a/b^2*Int[Cos[c+d*x]^(m+1),x] + 
+  (a^2+b^2)/b^2*Int[Cos[c+d*x]^(m+2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[m,-1]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/sin[c_.+d_.*x_],x_Symbol] :=
+  -(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(a*d*(n+1)) - 
+  b/a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
+  1/a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2)/Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
+
+
+Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/cos[c_.+d_.*x_],x_Symbol] :=
+  (a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  a/b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
+  1/b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2)/Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
+
+
+Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  (a^2+b^2)/a^2*Int[Sin[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^n,x] - 
+  2*b/a^2*Int[Sin[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
+  1/a^2*Int[Sin[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && LtQ[m,-1]
+
+
+Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
+  (a^2+b^2)/b^2*Int[Cos[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^n,x] - 
+  2*a/b^2*Int[Cos[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
+  1/b^2*Int[Cos[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && LtQ[m,-1]
+
+
+Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_.,x_Symbol] :=
+  Int[ExpandTrig[cos[c+d*x]^m*sin[c+d*x]^n*(a*cos[c+d*x]+b*sin[c+d*x])^p,x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  a^p*b^p*Int[Cos[c+d*x]^m*Sin[c+d*x]^n*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-p),x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[p]
+
+
+Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_./(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  b/(a^2+b^2)*Int[Cos[c+d*x]^m*Sin[c+d*x]^(n-1),x] +
+  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^n,x] -
+  a*b/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^(n-1)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && IntegersQ[m,n] && m>0 && n>0
+
+
+Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_./(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
+  Int[ExpandTrig[cos[c+d*x]^m*sin[c+d*x]^n/(a*cos[c+d*x]+b*sin[c+d*x]),x],x] /;
+FreeQ[{a,b,c,d,m,n},x] && IntegersQ[m,n]
+
+
+Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  b/(a^2+b^2)*Int[Cos[c+d*x]^m*Sin[c+d*x]^(n-1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(p+1),x] +
+  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^n*(a*Cos[c+d*x]+b*Sin[c+d*x])^(p+1),x] -
+  a*b/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^(n-1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && IntegersQ[m,n,p] && m>0 && n>0 && p<0
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.6 (a+b cos+c sin)^n*)
+
+
+Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  -2*(c*Cos[d+e*x]-b*Sin[d+e*x])/(e*Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
+
+
+Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  -(c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)/(e*n) +
+  a*(2*n-1)/n*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2] && RationalQ[n] && n>0
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  -(c-a*Sin[d+e*x])/(c*e*(c*Cos[d+e*x]-b*Sin[d+e*x])) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
+
+
+Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  Int[1/Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
+
+
+Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  (c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(2*n+1)) +
+  (n+1)/(a*(2*n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2] && RationalQ[n] && n<-1
+
+
+Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  b/(c*e)*Subst[Int[Sqrt[a+x]/x,x],x,b*Cos[d+e*x]+c*Sin[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[b^2+c^2]
+
+
+Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  Int[Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2+c^2] && PositiveQ[a+Sqrt[b^2+c^2]]
+
+
+Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/Sqrt[(a+b*Cos[d+e*x]+c*Sin[d+e*x])/(a+Sqrt[b^2+c^2])]*
+    Int[Sqrt[a/(a+Sqrt[b^2+c^2])+Sqrt[b^2+c^2]/(a+Sqrt[b^2+c^2])*Cos[d+e*x-ArcTan[b,c]]],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && NeQ[b^2+c^2] && Not[PositiveQ[a+Sqrt[b^2+c^2]]]
+
+
+Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  -(c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)/(e*n) +
+  1/n*Int[Simp[n*a^2+(n-1)*(b^2+c^2)+a*b*(2*n-1)*Cos[d+e*x]+a*c*(2*n-1)*Sin[d+e*x],x]*
+    (a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && RationalQ[n] && n>1
+
+
+(* Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  x/Sqrt[a^2-b^2-c^2] + 
+  2/(e*Sqrt[a^2-b^2-c^2])*ArcTan[(c*Cos[d+e*x]-b*Sin[d+e*x])/(a+Sqrt[a^2-b^2-c^2]+b*Cos[d+e*x]+c*Sin[d+e*x])] /;
+FreeQ[{a,b,c,d,e},x] && PositiveQ[a^2-b^2-c^2] *)
+
+
+(* Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  Log[RemoveContent[b^2+c^2+(a*b-c*Rt[-a^2+b^2+c^2,2])*Cos[d+e*x]+(a*c+b*Sqrt[-a^2+b^2+c^2])*Sin[d+e*x],x]]/
+    (2*e*Rt[-a^2+b^2+c^2,2]) - 
+  Log[RemoveContent[b^2+c^2+(a*b+c*Rt[-a^2+b^2+c^2,2])*Cos[d+e*x]+(a*c-b*Sqrt[-a^2+b^2+c^2])*Sin[d+e*x],x]]/
+    (2*e*Rt[-a^2+b^2+c^2,2]) /;
+FreeQ[{a,b,c,d,e},x] && NegativeQ[a^2-b^2-c^2] *)
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  Module[{f=FreeFactors[Cot[(d+e*x)/2],x]},
+  -f/e*Subst[Int[1/(a+c*f*x),x],x,Cot[(d+e*x)/2]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a+b]
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  Module[{f=FreeFactors[Tan[(d+e*x)/2+Pi/4],x]},
+  f/e*Subst[Int[1/(a+b*f*x),x],x,Tan[(d+e*x)/2+Pi/4]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a+c]
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  Module[{f=FreeFactors[Cot[(d+e*x)/2+Pi/4],x]},
+  -f/e*Subst[Int[1/(a+b*f*x),x],x,Cot[(d+e*x)/2+Pi/4]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[a-c] && NeQ[a-b]
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  Module[{f=FreeFactors[Tan[(d+e*x)/2],x]},
+  2*f/e*Subst[Int[1/(a+b+2*c*f*x+(a-b)*f^2*x^2),x],x,Tan[(d+e*x)/2]/f]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2]
+
+
+Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  b/(c*e)*Subst[Int[1/(x*Sqrt[a+x]),x],x,b*Cos[d+e*x]+c*Sin[d+e*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[b^2+c^2]
+
+
+Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  Int[1/Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b^2+c^2] && PositiveQ[a+Sqrt[b^2+c^2]]
+
+
+Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  Sqrt[(a+b*Cos[d+e*x]+c*Sin[d+e*x])/(a+Sqrt[b^2+c^2])]/Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]*
+    Int[1/Sqrt[a/(a+Sqrt[b^2+c^2])+Sqrt[b^2+c^2]/(a+Sqrt[b^2+c^2])*Cos[d+e*x-ArcTan[b,c]]],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && NeQ[b^2+c^2] && Not[PositiveQ[a+Sqrt[b^2+c^2]]]
+
+
+Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^(3/2),x_Symbol] :=
+  2*(c*Cos[d+e*x]-b*Sin[d+e*x])/(e*(a^2-b^2-c^2)*Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]) +
+  1/(a^2-b^2-c^2)*Int[Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2]
+
+
+Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  (-c*Cos[d+e*x]+b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/(e*(n+1)*(a^2-b^2-c^2)) +
+  1/((n+1)*(a^2-b^2-c^2))*
+    Int[(a*(n+1)-b*(n+2)*Cos[d+e*x]-c*(n+2)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && RationalQ[n] && n<-1 && n!=-3/2
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  (2*a*A-b*B-c*C)*x/(2*a^2) - (b*B+c*C)*(b*Cos[d+e*x]-c*Sin[d+e*x])/(2*a*b*c*e) + 
+  (a^2*(b*B-c*C)-2*a*A*b^2+b^2*(b*B+c*C))*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*b*c*e) /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[b^2+c^2]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  (2*a*A-c*C)*x/(2*a^2) - C*Cos[d+e*x]/(2*a*e) + c*C*Sin[d+e*x]/(2*a*b*e) + 
+  (-a^2*C+2*a*c*A+b^2*C)*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*b*e) /;
+FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b^2+c^2]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  (2*a*A-b*B)*x/(2*a^2) - b*B*Cos[d+e*x]/(2*a*c*e) + B*Sin[d+e*x]/(2*a*e) + 
+  (a^2*B-2*a*b*A+b^2*B)*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*c*e) /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2+c^2]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  (b*B+c*C)*x/(b^2+c^2) + (c*B-b*C)*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*(b*B+c*C)]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  c*C*x/(b^2+c^2) - b*C*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
+FreeQ[{a,b,c,d,e,A,C},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*c*C]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  b*B*x/(b^2+c^2) + c*B*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*b*B]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  (b*B+c*C)*x/(b^2+c^2) + (c*B-b*C)*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
+  (A*(b^2+c^2)-a*(b*B+c*C))/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*(b*B+c*C)]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  c*C*(d+e*x)/(e*(b^2+c^2)) - b*C*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
+  (A*(b^2+c^2)-a*c*C)/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,C},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*c*C]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
+  b*B*(d+e*x)/(e*(b^2+c^2)) +
+  c*B*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
+  (A*(b^2+c^2)-a*b*B)/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*b*B]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
+FreeQ[{a,b,c,d,e,A,B,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[(b*B+c*C)*n+a*A*(n+1)]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
+FreeQ[{a,b,c,d,e,A,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[c*C*n+a*A*(n+1)]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
+FreeQ[{a,b,c,d,e,A,B,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[b*B*n+a*A*(n+1)]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  ((b*B+c*C)*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e,A,B,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[(b*B+c*C)*n+a*A*(n+1)]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  (c*C*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e,A,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[c*C*n+a*A*(n+1)]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  (b*B*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e,A,B,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[b*B*n+a*A*(n+1)]
+
+
+Int[(B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (c*B-b*C)*(b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/(e*(n+1)*(b^2+c^2)) /;
+FreeQ[{b,c,d,e,B,C},x] && NeQ[n+1] && NeQ[b^2+c^2] && EqQ[b*B+c*C]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
+	Simp[a*(b*B+c*C)*n+a^2*A*(n+1)+
+      (n*(a^2*B-B*c^2+b*c*C)+a*b*A*(n+1))*Cos[d+e*x]+
+      (n*(b*B*c+a^2*C-b^2*C)+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
+    Simp[a*c*C*n+a^2*A*(n+1)+(c*b*C*n+a*b*A*(n+1))*Cos[d+e*x]+(a^2*C*n-b^2*C*n+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,C},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
+  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
+    Simp[a*b*B*n+a^2*A*(n+1)+(a^2*B*n-c^2*B*n+a*b*A*(n+1))*Cos[d+e*x]+(b*c*B*n+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
+  B/b*Int[Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] +
+  (A*b-a*B)/b*Int[1/Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B*c-b*C] && NeQ[A*b-a*B]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  (c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/
+    (e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-b*B-c*C]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  -(b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
+FreeQ[{a,b,c,d,e,A,C},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-c*C]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  (c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-b*B]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  (c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/
+    (e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
+  (a*A-b*B-c*C)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-b*B-c*C]
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  -(b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
+  (a*A-c*C)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,C},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-c*C]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
+  (c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
+  (a*A-b*B)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-b*B]
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  -(c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
+    (e*(n+1)*(a^2-b^2-c^2)) +
+  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
+    Simp[(n+1)*(a*A-b*B-c*C)+(n+2)*(a*B-b*A)*Cos[d+e*x]+(n+2)*(a*C-c*A)*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,B,C},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
+
+
+Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  (b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
+    (e*(n+1)*(a^2-b^2-c^2)) +
+  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
+    Simp[(n+1)*(a*A-c*C)-(n+2)*b*A*Cos[d+e*x]+(n+2)*(a*C-c*A)*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,C},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
+
+
+Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
+  -(c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
+    (e*(n+1)*(a^2-b^2-c^2)) +
+  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
+    Simp[(n+1)*(a*A-b*B)+(n+2)*(a*B-b*A)*Cos[d+e*x]-(n+2)*c*A*Sin[d+e*x],x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
+
+
+Int[1/(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]),x_Symbol] :=
+  Int[Cos[d+e*x]/(b+a*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[1/(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]),x_Symbol] :=
+  Int[Sin[d+e*x]/(b+a*Sin[d+e*x]+c*Cos[d+e*x]),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[cos[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^n_.,x_Symbol] :=
+  Int[(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[sin[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^n_.,x_Symbol] :=
+  Int[(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[cos[d_.+e_.*x_]^n_*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^n_,x_Symbol] :=
+  Cos[d+e*x]^n*(a+b*Sec[d+e*x]+c*Tan[d+e*x])^n/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n*Int[(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[sin[d_.+e_.*x_]^n_*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^n_,x_Symbol] :=
+  Sin[d+e*x]^n*(a+b*Csc[d+e*x]+c*Cot[d+e*x])^n/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n*Int[(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[sec[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^m_,x_Symbol] :=
+  Int[1/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && IntegerQ[n]
+
+
+Int[csc[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^m_,x_Symbol] :=
+  Int[1/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && IntegerQ[n]
+
+
+Int[sec[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^m_,x_Symbol] :=
+  Sec[d+e*x]^n*(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n/(a+b*Sec[d+e*x]+c*Tan[d+e*x])^n*Int[1/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && Not[IntegerQ[n]]
+
+
+Int[csc[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^m_,x_Symbol] :=
+  Csc[d+e*x]^n*(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n/(a+b*Csc[d+e*x]+c*Cot[d+e*x])^n*Int[1/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.7 (d trig)^m (a+b (c sin)^n)^p*)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  (4*A*(2*a+b)+B*(4*a+3*b))*x/8 - 
+  (4*A*b+B*(4*a+3*b))*Cos[e+f*x]*Sin[e+f*x]/(8*f) - 
+  b*B*Cos[e+f*x]*Sin[e+f*x]^3/(4*f) /;
+FreeQ[{a,b,e,f,A,B},x]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -B*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^p/(2*f*(p+1)) + 
+  1/(2*(p+1))*Int[(a+b*Sin[e+f*x]^2)^(p-1)*
+    Simp[a*B+2*a*A*(p+1)+(2*A*b*(p+1)+B*(b+2*a*p+2*b*p))*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B},x] && GtQ[p,0]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]^2)/(a_+b_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  B*x/b + (A*b-a*B)/b*Int[1/(a+b*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f,A,B},x]
+
+
+Int[(A_.+B_.*sin[e_.+f_.*x_]^2)/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
+  B/b*Int[Sqrt[a+b*Sin[e+f*x]^2],x] + (A*b-a*B)/b*Int[1/Sqrt[a+b*Sin[e+f*x]^2],x] /;
+FreeQ[{a,b,e,f,A,B},x]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b-a*B)*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p+1)/(2*a*f*(a+b)*(p+1)) - 
+  1/(2*a*(a+b)*(p+1))*Int[(a+b*Sin[e+f*x]^2)^(p+1)*
+    Simp[a*B-A*(2*a*(p+1)+b*(2*p+3))+2*(A*b-a*B)*(p+2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B},x] && LtQ[p,-1] && NeQ[a+b,0]
+
+
+Int[(a_.+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
+    Subst[Int[(a+(a+b)*ff^2*x^2)^p*(A+(A+B)*ff^2*x^2)/(1+ff^2*x^2)^(p+2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,A,B},x] && Not[IntegerQ[p]]
+
+
+Int[u_.*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  a^p*Int[ActivateTrig[u*cos[e+f*x]^(2*p)],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0] && IntegerQ[p]
+
+
+Int[u_.*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  Int[ActivateTrig[u*(a*cos[e+f*x]^2)^p],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  -Cot[e+f*x]*(b*Sin[e+f*x]^2)^p/(2*f*p) + 
+  b*(2*p-1)/(2*p)*Int[(b*Sin[e+f*x]^2)^(p-1),x] /;
+FreeQ[{b,e,f},x] && Not[IntegerQ[p]] && GtQ[p,1]
+
+
+Int[(b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  Cot[e+f*x]*(b*Sin[e+f*x]^2)^(p+1)/(b*f*(2*p+1)) + 
+  2*(p+1)/(b*(2*p+1))*Int[(b*Sin[e+f*x]^2)^(p+1),x] /;
+FreeQ[{b,e,f},x] && Not[IntegerQ[p]] && LtQ[p,-1]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x]^2,x]},
+  ff^((m+1)/2)/(2*f)*Subst[Int[x^((m-1)/2)*(b*ff^(n/2)*x^(n/2))^p/(1-ff*x)^((m+1)/2),x],x,Sin[e+f*x]^2/ff]] /;
+FreeQ[{b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[x^m*(b*(c*ff*x)^n)^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{b,c,e,f,n,p},x] && ILtQ[(m-1)/2,0]
+
+
+Int[u_.*(b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  (b*ff^n)^IntPart[p]*(b*Sin[e+f*x]^n)^FracPart[p]/(Sin[e+f*x]/ff)^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(Sin[e+f*x]/ff)^(n*p),x]] /;
+FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[u_.*(b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  b^IntPart[p]*(b*(c*Sin[e+f*x])^n)^FracPart[p]/(c*Sin[e+f*x])^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(c*Sin[e+f*x])^(n*p),x] /;
+FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
+  Sqrt[a]/f*EllipticE[e+f*x,-b/a] /;
+FreeQ[{a,b,e,f},x] && GtQ[a,0]
+
+
+Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
+  Sqrt[a+b*Sin[e+f*x]^2]/Sqrt[1+b*Sin[e+f*x]^2/a]*Int[Sqrt[1+(b*Sin[e+f*x]^2)/a],x] /;
+FreeQ[{a,b,e,f},x] && Not[GtQ[a,0]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^2,x_Symbol] :=
+  (8*a^2+8*a*b+3*b^2)*x/8 - 
+  b*(8*a+3*b)*Cos[e+f*x]*Sin[e+f*x]/(8*f) - 
+  b^2*Cos[e+f*x]*Sin[e+f*x]^3/(4*f) /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  -b*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p-1)/(2*f*p) + 
+  1/(2*p)*Int[(a+b*Sin[e+f*x]^2)^(p-2)*Simp[a*(b+2*a*p)+b*(2*a+b)*(2*p-1)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a+b,0] && GtQ[p,1]
+
+
+Int[1/(a_+b_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[1/(a+(a+b)*ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[1/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
+  1/(Sqrt[a]*f)*EllipticF[e+f*x,-b/a] /;
+FreeQ[{a,b,e,f},x] && GtQ[a,0]
+
+
+Int[1/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
+  Sqrt[1+b*Sin[e+f*x]^2/a]/Sqrt[a+b*Sin[e+f*x]^2]*Int[1/Sqrt[1+(b*Sin[e+f*x]^2)/a],x] /;
+FreeQ[{a,b,e,f},x] && Not[GtQ[a,0]]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  -b*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p+1)/(2*a*f*(p+1)*(a+b)) + 
+  1/(2*a*(p+1)*(a+b))*Int[(a+b*Sin[e+f*x]^2)^(p+1)*Simp[2*a*(p+1)+b*(2*p+3)-2*b*(p+2)*Sin[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a+b,0] && LtQ[p,-1]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
+    Subst[Int[(a+(a+b)*ff^2*x^2)^p/(1+ff^2*x^2)^(p+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && Not[IntegerQ[p]]
+
+
+(* Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  -ff/f*Subst[Int[(a+b+2*a*ff^2*x^2+a*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Cot[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[p] *)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+2*a*ff^2*x^2+(a+b)*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[p]
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(a+b*Sin[e+f*x]^4)^p*(Sec[e+f*x]^2)^(2*p)/(f*(a+2*a*Tan[e+f*x]^2+(a+b)*Tan[e+f*x]^4)^p)*
+    Subst[Int[(a+2*a*ff^2*x^2+(a+b)*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[p-1/2]
+
+
+Int[1/(a_+b_.*sin[e_.+f_.*x_]^n_),x_Symbol] :=
+  Module[{k},
+  Dist[2/(a*n),Sum[Int[1/(1-Sin[e+f*x]^2/((-1)^(4*k/n)*Rt[-a/b,n/2])),x],{k,1,n/2}],x]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[n/2]
+
+
+(* Int[(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  -ff/f*Subst[Int[(b+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Cot[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[n/2] && IGtQ[p,0] *)
+
+
+Int[(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[n/2] && IGtQ[p,0]
+
+
+Int[(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  Int[ExpandTrig[(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,e,f,n},x] && (IGtQ[p,0] || EqQ[p,-1] && IntegerQ[n])
+
+
+Int[(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  Defer[Int][(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,e,f,n,p},x]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Cos[e+f*x],x]},
+  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*ExpandToSum[a+b*(1-ff^2*x^2)^(n/2),x]^p,x],x,Cos[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && (EqQ[n,2] || EqQ[n,4])
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Cos[e+f*x],x]},
+  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(a+b*(1-ff^2*x^2)^(n/2))^p,x],x,Cos[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[x^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[x^m*(a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n)^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[n/2] && IntegerQ[p]
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff^(m+1)*(a+b*Sin[e+f*x]^n)^p*(Sec[e+f*x]^2)^(n*p/2)/(f*Apart[a*(1+Tan[e+f*x]^2)^(n/2)+b*Tan[e+f*x]^n]^p)*
+    Subst[Int[x^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4] && IntegerQ[p-1/2])
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[sin[e+f*x]^m*(a+b*sin[e+f*x]^n)^p,x],x] /;
+FreeQ[{a,b,e,f},x] && IntegersQ[m,p] && (EqQ[n,2] || EqQ[n,4] || p>0 || p==-1 && IntegerQ[n])
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*sin[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[cos[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p,x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (EqQ[n,2] || EqQ[n,4] || m>0 || IGtQ[p,0] || IntegersQ[m,p])
+
+
+Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[ExpandToSum[b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2),x]^p/(1+ff^2*x^2)^(m/2+n*(p/2)+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
+
+
+Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(m/2+n*(p/2)+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[n/2] && IntegerQ[p]
+
+
+Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
+    Subst[Int[(a+(a+b)*ff^2*x^2)^p/(1+ff^2*x^2)^(m/2+p+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && Not[IntegerQ[p]]
+
+
+Int[cos[e_.+f_.*x_]^m_/(a_+b_.*sin[e_.+f_.*x_]^n_),x_Symbol] :=
+  Int[Expand[(1-Sin[e+f*x]^2)^(m/2)/(a+b*Sin[e+f*x]^n),x],x] /;
+FreeQ[{a,b,e,f},x] && IGtQ[m/2,0] && IntegerQ[(n-1)/2]
+
+
+(* Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  Int[ExpandTrig[(1-sin[e+f*x]^2)^(m/2)*(a+b*sin[e+f*x]^n)^p,x],x] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[(n-1)/2] && IntegerQ[p] && m<0 && p<-1 *)
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*cos[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Cos[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x]^2,x]},
+  ff^((m+1)/2)/(2*f)*Subst[Int[x^((m-1)/2)*(a+b*ff^(n/2)*x^(n/2))^p/(1-ff*x)^((m+1)/2),x],x,Sin[e+f*x]^2/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[x^m*(a+b*(c*ff*x)^n)^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && ILtQ[(m-1)/2,0]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(d*ff*x)^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,d,e,f,m},x] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(a+b*Sin[e+f*x]^n)^p*(Sec[e+f*x]^2)^(n*p/2)/(f*Apart[a*(1+Tan[e+f*x]^2)^(n/2)+b*Tan[e+f*x]^n]^p)*
+    Subst[Int[(d*ff*x)^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,d,e,f,m},x] && (EqQ[n,2] || EqQ[n,4] && IntegerQ[p-1/2]) && Not[IntegerQ[p]]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[(d*x)^m*(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,d,e,f,m},x] && IntegerQ[n/2] && IGtQ[p,0]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*tan[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Sec[e+f*x])^FracPart[m]*(Cos[e+f*x]/d)^FracPart[m]*Int[(Cos[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
+  d^(n*p)*Int[(d*Csc[e+f*x])^(m-n*p)*(b+a*Csc[e+f*x]^n)^p,x] /;
+FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.8 trig^m (a+b cos^p+c sin^q)^n*)
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
+    Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
+    Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
+    Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
+    Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.9 trig^m (a+b sin^n+c sin^(2 n))^p*)
+
+
+Int[(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[1/(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Sin[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Sin[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[1/(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Cos[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Cos[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Sin[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cos[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Sin[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Cos[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f/e*Subst[Int[ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f/e*Subst[Int[ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  Int[ExpandTrig[sin[d+e*x]^m*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegersQ[m,n,p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  Int[ExpandTrig[cos[d+e*x]^m*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegersQ[m,n,p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*sin[d_.+e_.*x_])^n_.+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Sin[d+e*x],x]},
+  g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p,x],x,Sin[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && OddQ[m]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*cos[d_.+e_.*x_])^n_.+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cos[d+e*x],x]},
+  -g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p,x],x,Cos[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && OddQ[m]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cos[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Sin[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Cos[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Sin[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(1-sin[d+e*x]^2)^(m/2)*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(1-cos[d+e*x]^2)^(m/2)*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*sin[d_.+e_.*x_])^n_+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Sin[d+e*x],x]},
+  g^(m+1)/e*Subst[Int[x^m*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/(1-g^2*x^2)^((m+1)/2),x],x,Sin[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*cos[d_.+e_.*x_])^n_+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cos[d+e*x],x]},
+  -g^(m+1)/e*Subst[Int[x^m*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/(1-g^2*x^2)^((m+1)/2),x],x,Cos[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
+
+
+Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c*x^(2*n)+b*x^n*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && Not[OddQ[m]] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c*x^(2*n)+b*x^n*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && Not[OddQ[m]] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[sin[d+e*x]^m*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p/(1-sin[d+e*x]^2)^(m/2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[cos[d+e*x]^m*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p/(1-cos[d+e*x]^2)^(m/2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*sin[d_.+e_.*x_])^n_+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Sin[d+e*x],x]},
+  g^(m+1)/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/x^m,x],x,Sin[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*cos[d_.+e_.*x_])^n_+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cos[d+e*x],x]},
+  -g^(m+1)/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/x^m,x],x,Cos[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
+
+
+Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+f^2*x^2)^(n/2)+a*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && EvenQ[n] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+f^2*x^2)^(n/2)+a*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(1-sin[d+e*x]^2)^(m/2)*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p/sin[d+e*x]^m,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(1-cos[d+e*x]^2)^(m/2)*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p/cos[d+e*x]^m,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
+
+
+Int[(A_+B_.*sin[d_.+e_.*x_])*(a_+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Sin[d+e*x])*(b+2*c*Sin[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Cos[d+e*x])*(b+2*c*Cos[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*sin[d_.+e_.*x_])*(a_+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Sin[d+e*x]+c*Sin[d+e*x]^2)^n/(b+2*c*Sin[d+e*x])^(2*n)*Int[(A+B*Sin[d+e*x])*(b+2*c*Sin[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Cos[d+e*x]+c*Cos[d+e*x]^2)^n/(b+2*c*Cos[d+e*x])^(2*n)*Int[(A+B*Cos[d+e*x])*(b+2*c*Cos[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*sin[d_.+e_.*x_])/(a_.+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Sin[d+e*x]),x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Sin[d+e*x]),x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Cos[d+e*x]),x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Cos[d+e*x]),x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*sin[d_.+e_.*x_])*(a_.+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*sin[d+e*x])*(a+b*sin[d+e*x]+c*sin[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*cos[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*cos[d+e*x])*(a+b*cos[d+e*x]+c*cos[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.10 (c+d x)^m (a+b sin)^n*)
+
+
+Int[(c_.+d_.*x_)^m_.*sin[e_.+f_.*x_],x_Symbol] :=
+  -(c+d*x)^m*Cos[e+f*x]/f + 
+  d*m/f*Int[(c+d*x)^(m-1)*Cos[e+f*x],x] /;
+FreeQ[{c,d,e,f},x] && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_],x_Symbol] :=
+  (c+d*x)^(m+1)*Sin[e+f*x]/(d*(m+1)) -
+  f/(d*(m+1))*Int[(c+d*x)^(m+1)*Cos[e+f*x],x] /;
+FreeQ[{c,d,e,f},x] && RationalQ[m] && m<-1
+
+
+Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
+  I*SinhIntegral[c*f*fz/d+f*fz*x]/d /;
+FreeQ[{c,d,e,f,fz},x] && EqQ[d*e-c*f*fz*I]
+
+
+Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
+  SinIntegral[e+f*x]/d /;
+FreeQ[{c,d,e,f},x] && EqQ[d*e-c*f]
+
+
+Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
+  CoshIntegral[-c*f*fz/d-f*fz*x]/d /;
+FreeQ[{c,d,e,f,fz},x] && EqQ[d*(e-Pi/2)-c*f*fz*I] && NegQ[c*f*fz/d]
+
+
+Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
+  CoshIntegral[c*f*fz/d+f*fz*x]/d /;
+FreeQ[{c,d,e,f,fz},x] && EqQ[d*(e-Pi/2)-c*f*fz*I]
+
+
+Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
+  CosIntegral[e-Pi/2+f*x]/d /;
+FreeQ[{c,d,e,f},x] && EqQ[d*(e-Pi/2)-c*f]
+
+
+Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
+  Cos[(d*e-c*f)/d]*Int[Sin[c*f/d+f*x]/(c+d*x),x] + 
+  Sin[(d*e-c*f)/d]*Int[Cos[c*f/d+f*x]/(c+d*x),x] /;
+FreeQ[{c,d,e,f},x] && NeQ[d*e-c*f]
+
+
+Int[sin[e_.+Pi/2+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
+  2/d*Subst[Int[Cos[f*x^2/d],x],x,Sqrt[c+d*x]] /;
+FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && EqQ[d*e-c*f]
+
+
+Int[sin[e_.+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
+  2/d*Subst[Int[Sin[f*x^2/d],x],x,Sqrt[c+d*x]] /;
+FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && EqQ[d*e-c*f]
+
+
+Int[sin[e_.+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
+  Cos[(d*e-c*f)/d]*Int[Sin[c*f/d+f*x]/Sqrt[c+d*x],x] + 
+  Sin[(d*e-c*f)/d]*Int[Cos[c*f/d+f*x]/Sqrt[c+d*x],x] /;
+FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && NeQ[d*e-c*f]
+
+
+Int[(c_.+d_.*x_)^m_.*sin[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
+  I/2*Int[(c+d*x)^m*E^(-I*k*Pi)*E^(-I*(e+f*x)),x] - I/2*Int[(c+d*x)^m*E^(I*k*Pi)*E^(I*(e+f*x)),x] /;
+FreeQ[{c,d,e,f,m},x] && IntegerQ[2*k]
+
+
+Int[(c_.+d_.*x_)^m_.*sin[e_.+f_.*x_],x_Symbol] :=
+  I/2*Int[(c+d*x)^m*E^(-I*(e+f*x)),x] - I/2*Int[(c+d*x)^m*E^(I*(e+f*x)),x] /;
+FreeQ[{c,d,e,f,m},x]
+
+
+Int[(c_.+d_.*x_)*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*(b*Sin[e+f*x])^n/(f^2*n^2) -
+  b*(c+d*x)*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(f*n) +
+  b^2*(n-1)/n*Int[(c+d*x)*(b*Sin[e+f*x])^(n-2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n>1
+
+
+Int[(c_.+d_.*x_)^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*m*(c+d*x)^(m-1)*(b*Sin[e+f*x])^n/(f^2*n^2) -
+  b*(c+d*x)^m*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(f*n) +
+  b^2*(n-1)/n*Int[(c+d*x)^m*(b*Sin[e+f*x])^(n-2),x] -
+  d^2*m*(m-1)/(f^2*n^2)*Int[(c+d*x)^(m-2)*(b*Sin[e+f*x])^n,x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m>1
+
+
+Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[(c+d*x)^m,Sin[e+f*x]^n,x],x] /;
+FreeQ[{c,d,e,f,m},x] && IntegerQ[n] && n>1 && (Not[RationalQ[m]] || -1<=m<1)
+
+
+Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_]^n_,x_Symbol] :=
+  (c+d*x)^(m+1)*Sin[e+f*x]^n/(d*(m+1)) - 
+  f*n/(d*(m+1))*Int[ExpandTrigReduce[(c+d*x)^(m+1),Cos[e+f*x]*Sin[e+f*x]^(n-1),x],x] /;
+FreeQ[{c,d,e,f,m},x] && IntegerQ[n] && n>1 && RationalQ[m] && -2<=m<-1
+
+
+Int[(c_.+d_.*x_)^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (c+d*x)^(m+1)*(b*Sin[e+f*x])^n/(d*(m+1)) - 
+  b*f*n*(c+d*x)^(m+2)*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(d^2*(m+1)*(m+2)) - 
+  f^2*n^2/(d^2*(m+1)*(m+2))*Int[(c+d*x)^(m+2)*(b*Sin[e+f*x])^n,x] + 
+  b^2*f^2*n*(n-1)/(d^2*(m+1)*(m+2))*Int[(c+d*x)^(m+2)*(b*Sin[e+f*x])^(n-2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m<-2
+
+
+Int[(c_.+d_.*x_)*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (c+d*x)*Cos[e+f*x]*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) -
+  d*(b*Sin[e+f*x])^(n+2)/(b^2*f^2*(n+1)*(n+2)) +
+  (n+2)/(b^2*(n+1))*Int[(c+d*x)*(b*Sin[e+f*x])^(n+2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (c+d*x)^m*Cos[e+f*x]*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) -
+  d*m*(c+d*x)^(m-1)*(b*Sin[e+f*x])^(n+2)/(b^2*f^2*(n+1)*(n+2)) +
+  (n+2)/(b^2*(n+1))*Int[(c+d*x)^m*(b*Sin[e+f*x])^(n+2),x] +
+  d^2*m*(m-1)/(b^2*f^2*(n+1)*(n+2))*Int[(c+d*x)^(m-2)*(b*Sin[e+f*x])^(n+2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && n!=-2 && m>1
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Sin[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[n] && (n==1 || PositiveIntegerQ[m] || NeQ[a^2-b^2])
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (2*a)^n*Int[(c+d*x)^m*Sin[1/2*(e+Pi*a/(2*b))+f*x/2]^(2*n),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n] && (n>0 || PositiveIntegerQ[m])
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (2*a)^IntPart[n]*(a+b*Sin[e+f*x])^FracPart[n]/Sin[e/2+a*Pi/(4*b)+f*x/2]^(2*FracPart[n])*
+    Int[(c+d*x)^m*Sin[e/2+a*Pi/(4*b)+f*x/2]^(2*n),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n+1/2] && (n>0 || PositiveIntegerQ[m])
+
+
+(* Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (2*a)^n*Int[(c+d*x)^m*Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*n),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n] && (n>0 || PositiveIntegerQ[m]) *)
+
+
+(* Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  (2*a)^IntPart[n]*(a+b*Sin[e+f*x])^FracPart[n]/Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*FracPart[n])*
+    Int[(c+d*x)^m*Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*n),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n+1/2] && (n>0 || PositiveIntegerQ[m]) *)
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
+  2*Int[(c+d*x)^m*E^(-I*Pi*(k-1/2))*E^(-I*e+f*fz*x)/(b+2*a*E^(-I*Pi*(k-1/2))*E^(-I*e+f*fz*x)-b*E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))),x] /;
+FreeQ[{a,b,c,d,e,f,fz},x] && IntegerQ[2*k] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+k_.*Pi+f_.*x_]),x_Symbol] :=
+  2*Int[(c+d*x)^m*E^(I*Pi*(k-1/2))*E^(I*(e+f*x))/(b+2*a*E^(I*Pi*(k-1/2))*E^(I*(e+f*x))-b*E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && IntegerQ[2*k] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+(* Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
+  2*I*Int[(c+d*x)^m*E^(-I*e+f*fz*x)/(b+2*I*a*E^(-I*e+f*fz*x)-b*E^(2*(-I*e+f*fz*x))),x] /;
+FreeQ[{a,b,c,d,e,f,fz},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
+
+
+(* Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  -2*I*Int[(c+d*x)^m*E^(I*(e+f*x))/(b-2*I*a*E^(I*(e+f*x))-b*E^(2*I*(e+f*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
+  2*Int[(c+d*x)^m*E^(-I*e+f*fz*x)/(-I*b+2*a*E^(-I*e+f*fz*x)+I*b*E^(2*(-I*e+f*fz*x))),x] /;
+FreeQ[{a,b,c,d,e,f,fz},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
+  2*Int[(c+d*x)^m*E^(I*(e+f*x))/(I*b+2*a*E^(I*(e+f*x))-I*b*E^(2*I*(e+f*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
+  b*(c+d*x)^m*Cos[e+f*x]/(f*(a^2-b^2)*(a+b*Sin[e+f*x])) + 
+  a/(a^2-b^2)*Int[(c+d*x)^m/(a+b*Sin[e+f*x]),x] - 
+  b*d*m/(f*(a^2-b^2))*Int[(c+d*x)^(m-1)*Cos[e+f*x]/(a+b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*(c+d*x)^m*Cos[e+f*x]*(a+b*Sin[e+f*x])^(n+1)/(f*(n+1)*(a^2-b^2)) + 
+  a/(a^2-b^2)*Int[(c+d*x)^m*(a+b*Sin[e+f*x])^(n+1),x] + 
+  b*d*m/(f*(n+1)*(a^2-b^2))*Int[(c+d*x)^(m-1)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(n+1),x] - 
+  b*(n+2)/((n+1)*(a^2-b^2))*Int[(c+d*x)^m*Sin[e+f*x]*(a+b*Sin[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && NegativeIntegerQ[n+2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(c+d*x)^m*(a+b*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[u_^m_.*(a_.+b_.*Sin[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Sin[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*(a_.+b_.*Cos[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Cos[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.11 (e x)^m (a+b x^n)^p sin*)
+
+
+Int[(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sin[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cos[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  x^(-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
+  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
+
+
+Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  x^(-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) - 
+  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] + 
+  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
+
+
+Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sin[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cos[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(n*p)*(b+a*x^(-n))^p*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(n*p)*(b+a*x^(-n))^p*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(a+b*x^n)^p*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(a+b*x^n)^p*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sin[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cos[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  e^m*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
+  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  e^m*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) + 
+  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  x^(m-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  x^(m-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) - 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] + 
+  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sin[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cos[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(m+n*p)*(b+a*x^(-n))^p*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(m+n*p)*(b+a*x^(-n))^p*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*x^n)^p*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*x^n)^p*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.12 (e x)^m (a+b sin(c+d x^n))^p*)
+
+
+Int[Sin[d_.*x_^2],x_Symbol] :=
+  Sqrt[Pi/2]/Rt[d,2]*FresnelS[Sqrt[2/Pi]*Rt[d,2]*x] /;
+FreeQ[d,x]
+
+
+Int[Cos[d_.*x_^2],x_Symbol] :=
+  Sqrt[Pi/2]/Rt[d,2]*FresnelC[Sqrt[2/Pi]*Rt[d,2]*x] /;
+FreeQ[d,x]
+
+
+Int[Sin[c_+d_.*x_^2],x_Symbol] :=
+  Sin[c]*Int[Cos[d*x^2],x] + Cos[c]*Int[Sin[d*x^2],x] /;
+FreeQ[{c,d},x]
+
+
+Int[Cos[c_+d_.*x_^2],x_Symbol] :=
+  Cos[c]*Int[Cos[d*x^2],x] - Sin[c]*Int[Sin[d*x^2],x] /;
+FreeQ[{c,d},x]
+
+
+Int[Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  I/2*Int[E^(-c*I-d*I*x^n),x] - I/2*Int[E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d},x] && IntegerQ[n] && n>2
+
+
+Int[Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(-c*I-d*I*x^n),x] + 1/2*Int[E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d},x] && IntegerQ[n] && n>2
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Sin[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Cos[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*Sin[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*Cos[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  I/2*Int[E^(-c*I-d*I*x^n),x] - I/2*Int[E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(-c*I-d*I*x^n),x] + 1/2*Int[E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Sin[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Cos[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sin[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cos[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_,x_Symbol] :=
+  Defer[Int][(a+b*Sin[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
+
+
+Int[(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_,x_Symbol] :=
+  Defer[Int][(a+b*Cos[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
+
+
+Int[(a_.+b_.*Sin[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Sin[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Cos[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Cos[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[Sin[d_.*x_^n_]/x_,x_Symbol] :=
+  SinIntegral[d*x^n]/n /;
+FreeQ[{d,n},x]
+
+
+Int[Cos[d_.*x_^n_]/x_,x_Symbol] :=
+  CosIntegral[d*x^n]/n /;
+FreeQ[{d,n},x]
+
+
+Int[Sin[c_+d_.*x_^n_]/x_,x_Symbol] :=
+  Sin[c]*Int[Cos[d*x^n]/x,x] + Cos[c]*Int[Sin[d*x^n]/x,x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[Cos[c_+d_.*x_^n_]/x_,x_Symbol] :=
+  Cos[c]*Int[Cos[d*x^n]/x,x] - Sin[c]*Int[Sin[d*x^n]/x,x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sin[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
+
+
+Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cos[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_],x_Symbol] :=
+  2/n*Subst[Int[Sin[a+b*x^2],x],x,x^(n/2)] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-(n/2-1)]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_],x_Symbol] :=
+  2/n*Subst[Int[Cos[a+b*x^2],x],x,x^(n/2)] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-(n/2-1)]
+
+
+Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  -e^(n-1)*(e*x)^(m-n+1)*Cos[c+d*x^n]/(d*n) + 
+  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Cos[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
+
+
+Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*Sin[c+d*x^n]/(d*n) - 
+  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Sin[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
+
+
+Int[(e_.*x_)^m_*Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  (e*x)^(m+1)*Sin[c+d*x^n]/(e*(m+1)) - 
+  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Cos[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[(e_.*x_)^m_*Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  (e*x)^(m+1)*Cos[c+d*x^n]/(e*(m+1)) + 
+  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Sin[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  I/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] - I/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] + 1/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -Sin[a+b*x^n]^p/((n-1)*x^(n-1)) +
+  b*n*p/(n-1)*Int[Sin[a+b*x^n]^(p-1)*Cos[a+b*x^n],x] /;
+FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -Cos[a+b*x^n]^p/((n-1)*x^(n-1)) -
+  b*n*p/(n-1)*Int[Cos[a+b*x^n]^(p-1)*Sin[a+b*x^n],x] /;
+FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  n*Sin[a+b*x^n]^p/(b^2*n^2*p^2) -
+  x^n*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Sin[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  n*Cos[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^n*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Cos[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  (m-n+1)*x^(m-2*n+1)*Sin[a+b*x^n]^p/(b^2*n^2*p^2) -
+  x^(m-n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Sin[a+b*x^n]^(p-2),x] -
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Sin[a+b*x^n]^p,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  (m-n+1)*x^(m-2*n+1)*Cos[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^(m-n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Cos[a+b*x^n]^(p-2),x] -
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Cos[a+b*x^n]^p,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m+1)*Sin[a+b*x^n]^p/(m+1) - 
+  b*n*p*x^(m+n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) - 
+  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sin[a+b*x^n]^p,x] + 
+  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sin[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m+1)*Cos[a+b*x^n]^p/(m+1) + 
+  b*n*p*x^(m+n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) - 
+  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cos[a+b*x^n]^p,x] + 
+  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cos[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Sin[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Cos[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sin[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cos[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^n*Cos[a+b*x^n]*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
+  n*Sin[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
+  (p+2)/(p+1)*Int[x^m*Sin[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^n*Sin[a+b*x^n]*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
+  n*Cos[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
+  (p+2)/(p+1)*Int[x^m*Cos[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m-n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)*x^(m-2*n+1)*Sin[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (p+2)/(p+1)*Int[x^m*Sin[a+b*x^n]^(p+2),x] +
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Sin[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^(m-n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)*x^(m-2*n+1)*Cos[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (p+2)/(p+1)*Int[x^m*Cos[a+b*x^n]^(p+2),x] +
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Cos[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
+
+
+Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/e*Subst[Int[(a+b*Sin[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/e*Subst[Int[(a+b*Cos[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Sin[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Cos[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*Sin[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*Cos[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
+  I/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] - I/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,e,m,n},x]
+
+
+Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] + 1/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
+FreeQ[{c,d,e,m,n},x]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sin[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cos[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Sin[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Cos[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*Sin[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*Cos[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sin[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Sin[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Cos[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Cos[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_.]^p_.*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
+  Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
+FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_.]^p_.*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
+  -Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
+FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_^n_.]^p_.*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
+  x^(m-n+1)*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Sin[a+b*x^n]^(p+1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_^n_.]^p_.*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
+  -x^(m-n+1)*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) +
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cos[a+b*x^n]^(p+1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.1.13 (d+e x)^m sin(a+b x+c x^2)^n*)
+
+
+Int[Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Int[Sin[(b+2*c*x)^2/(4*c)],x] /;
+FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Int[Cos[(b+2*c*x)^2/(4*c)],x] /;
+FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
+
+
+Int[Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Cos[(b^2-4*a*c)/(4*c)]*Int[Sin[(b+2*c*x)^2/(4*c)],x] - 
+  Sin[(b^2-4*a*c)/(4*c)]*Int[Cos[(b+2*c*x)^2/(4*c)],x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Cos[(b^2-4*a*c)/(4*c)]*Int[Cos[(b+2*c*x)^2/(4*c)],x] + 
+  Sin[(b^2-4*a*c)/(4*c)]*Int[Sin[(b+2*c*x)^2/(4*c)],x] /;
+FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
+
+
+Int[Sin[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[Sin[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[Cos[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[Cos[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[Sin[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Sin[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[Cos[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Cos[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[Sin[v_]^n_.,x_Symbol] :=
+  Int[Sin[ExpandToSum[v,x]]^n,x] /;
+PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
+
+
+Int[Cos[v_]^n_.,x_Symbol] :=
+  Int[Cos[ExpandToSum[v,x]]^n,x] /;
+PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
+
+
+Int[(d_+e_.*x_)*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*Cos[a+b*x+c*x^2]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_+e_.*x_)*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Sin[a+b*x+c*x^2]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*(d+e*x)^(m-1)*Cos[a+b*x+c*x^2]/(2*c) + 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cos[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && GtQ[m,1]
+
+
+Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Sin[a+b*x+c*x^2]/(2*c) - 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sin[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && GtQ[m,1]
+
+
+Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Sin[a+b*x+c*x^2]/(e*(m+1)) -
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cos[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Cos[a+b*x+c*x^2]/(e*(m+1)) + 
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sin[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*Cos[a+b*x+c*x^2]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Sin[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Sin[a+b*x+c*x^2]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Cos[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e,0]
+
+
+Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*(d+e*x)^(m-1)*Cos[a+b*x+c*x^2]/(2*c) - 
+  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Sin[a+b*x+c*x^2],x] + 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cos[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && GtQ[m,1]
+
+
+Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Sin[a+b*x+c*x^2]/(2*c) - 
+  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Cos[a+b*x+c*x^2],x] - 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sin[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && GtQ[m,1]
+
+
+Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Sin[a+b*x+c*x^2]/(e*(m+1)) -
+  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Cos[a+b*x+c*x^2],x] -
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cos[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Cos[a+b*x+c*x^2]/(e*(m+1)) + 
+  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Sin[a+b*x+c*x^2],x] +
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sin[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && LtQ[m,-1]
+
+
+Int[(d_.+e_.*x_)^m_.*Sin[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[(d+e*x)^m,Sin[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IGtQ[n,1]
+
+
+Int[(d_.+e_.*x_)^m_.*Cos[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[(d+e*x)^m,Cos[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IGtQ[n,1]
+
+
+Int[(d_.+e_.*x_)^m_.*Sin[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Sin[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[(d_.+e_.*x_)^m_.*Cos[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Cos[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[u_^m_.*Sin[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Sin[ExpandToSum[v,x]]^n,x] /;
+FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+Int[u_^m_.*Cos[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Cos[ExpandToSum[v,x]]^n,x] /;
+FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+
+`)
+
+func resourcesRubi41SineMBytes() ([]byte, error) {
+	return _resourcesRubi41SineM, nil
+}
+
+func resourcesRubi41SineM() (*asset, error) {
+	bytes, err := resourcesRubi41SineMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/4.1 Sine.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi42TangentM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Tangent Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.1.1 (a+b tan)^n*)
+
+
+Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*(b*Tan[c+d*x])^(n-1)/(d*(n-1)) - 
+  b^2*Int[(b*Tan[c+d*x])^(n-2),x] /;
+FreeQ[{b,c,d},x] && RationalQ[n] && n>1
+
+
+Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  (b*Tan[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  1/b^2*Int[(b*Tan[c+d*x])^(n+2),x] /;
+FreeQ[{b,c,d},x] && RationalQ[n] && n<-1
+
+
+Int[tan[c_.+d_.*x_],x_Symbol] :=
+  -Log[RemoveContent[Cos[c+d*x],x]]/d /;
+FreeQ[{c,d},x]
+
+
+(* Int[1/tan[c_.+d_.*x_],x_Symbol] :=
+  Log[RemoveContent[Sin[c+d*x],x]]/d /;
+FreeQ[{c,d},x] *)
+
+
+Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b/d*Subst[Int[x^n/(b^2+x^2),x],x,b*Tan[c+d*x]] /;
+FreeQ[{b,c,d,n},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^2,x_Symbol] :=
+  (a^2-b^2)*x + b^2*Tan[c+d*x]/d + 2*a*b*Int[Tan[c+d*x],x] /;
+FreeQ[{a,b,c,d},x]
+
+
+(* Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*Tan[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] *)
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*(a+b*Tan[c+d*x])^(n-1)/(d*(n-1)) + 
+  2*a*Int[(a+b*Tan[c+d*x])^(n-1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2] && RationalQ[n] && n>1
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  a*(a+b*Tan[c+d*x])^n/(2*b*d*n) + 
+  1/(2*a)*Int[(a+b*Tan[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2] && RationalQ[n] && n<0
+
+
+Int[Sqrt[a_+b_.*tan[c_.+d_.*x_]],x_Symbol] :=
+  -2*b/d*Subst[Int[1/(2*a-x^2),x],x,Sqrt[a+b*Tan[c+d*x]]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2]
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b/d*Subst[Int[(a+x)^(n-1)/(a-x),x],x,b*Tan[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2]
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*(a+b*Tan[c+d*x])^(n-1)/(d*(n-1)) + 
+  Int[(a^2-b^2+2*a*b*Tan[c+d*x])*(a+b*Tan[c+d*x])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2] && RationalQ[n] && n>1
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b*(a+b*Tan[c+d*x])^(n+1)/(d*(n+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a-b*Tan[c+d*x])*(a+b*Tan[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2] && RationalQ[n] && n<-1
+
+
+Int[1/(a_+b_.*tan[c_.+d_.*x_]),x_Symbol] :=
+  a*x/(a^2+b^2) + b/(a^2+b^2)*Int[(b-a*Tan[c+d*x])/(a+b*Tan[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2]
+
+
+Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
+  b/d*Subst[Int[(a+x)^n/(b^2+x^2),x],x,b*Tan[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[a^2+b^2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.1.2 (d sec)^m (a+b tan)^n*)
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  b*(d*Sec[e+f*x])^m/(f*m) + a*Int[(d*Sec[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,m},x] && (IntegerQ[2*m] || NeQ[a^2+b^2])
+
+
+Int[sec[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  1/(a^(m-2)*b*f)*Subst[Int[(a-x)^(m/2-1)*(a+x)^(n+m/2-1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,e,f,n},x] && EqQ[a^2+b^2] && IntegerQ[m/2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m+n]]
+
+
+Int[sec[e_.+f_.*x_]/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -2*a/(b*f)*Subst[Int[1/(2-a*x^2),x],x,Sec[e+f*x]/Sqrt[a+b*Tan[e+f*x]]] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) + 
+  a/(2*d^2)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && EqQ[m/2+n] && RationalQ[m,n] && n>0
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  2*d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m-2)) + 
+  2*d^2/a*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && EqQ[m/2+n] && RationalQ[m,n] && n<-1
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (a/d)^(2*IntPart[n])*(a+b*Tan[e+f*x])^FracPart[n]*(a-b*Tan[e+f*x])^FracPart[n]/(d*Sec[e+f*x])^(2*FracPart[n])*
+    Int[1/(a-b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m/2+n]]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  2*b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*m) /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m/2+n-1]]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) + 
+  a*(m+2*n-2)/(m+n-1)*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && PositiveIntegerQ[Simplify[m/2+n-1]] && Not[IntegerQ[n]]
+
+
+Int[Sqrt[d_.*sec[e_.+f_.*x_]]*Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -4*b*d^2/f*Subst[Int[x^2/(a^2+d^2*x^4),x],x,Sqrt[a+b*Tan[e+f*x]]/Sqrt[d*Sec[e+f*x]]] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  2*b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*m) - 
+  b^2*(m+2*n-2)/(d^2*m)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n>1 && 
+  (PositiveIntegerQ[n/2] && NegativeIntegerQ[m-1/2] || n==2 && m<0 || m<=-1 && m+n>0 || NegativeIntegerQ[m] && m/2+n-1<0 && IntegerQ[n] || n==3/2 && m==-1/2) && IntegerQ[2*m]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) + 
+  a*(m+n)/(m*d^2)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n>0 && m<-1 && IntegersQ[2*m,2*n]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) + 
+  a*(m+2*n-2)/(m+n-1)*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n>0 && NeQ[m+n-1] && IntegersQ[2*m,2*n]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  d*Sec[e+f*x]/(Sqrt[a-b*Tan[e+f*x]]*Sqrt[a+b*Tan[e+f*x]])*Int[Sqrt[d*Sec[e+f*x]]*Sqrt[a-b*Tan[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  2*d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m+2*n)) - 
+  d^2*(m-2)/(b^2*(m+2*n))*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n<-1 && 
+  (NegativeIntegerQ[n/2] && PositiveIntegerQ[m-1/2] || n==-2 || PositiveIntegerQ[m+n] || IntegersQ[n,m+1/2] && 2*m+n+1>0) && IntegerQ[2*m]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m+n-1)) + 
+  d^2*(m-2)/(a*(m+n-1))*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n<0 && m>1 && Not[NegativeIntegerQ[m+n]] && NeQ[m+n-1] && IntegersQ[2*m,2*n]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(b*f*(m+2*n)) + 
+  Simplify[m+n]/(a*(m+2*n))*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n<0 && NeQ[m+2*n] && IntegersQ[2*m,2*n]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*Simplify[m+n-1]) + 
+  a*(m+2*n-2)/Simplify[m+n-1]*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && PositiveIntegerQ[Simplify[m+n-1]] && RationalQ[n]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(b*f*(m+2*n)) + 
+  Simplify[m+n]/(a*(m+2*n))*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && NegativeIntegerQ[Simplify[m+n]] && NeQ[m+2*n]
+
+
+(* Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^n*(d*Sec[e+f*x])^m/(b*f*(Sec[e+f*x]^2)^(m/2))*Subst[Int[(1+x/a)^(n+m/2-1)*(1-x/a)^(m/2-1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && IntegerQ[n] *)
+
+
+(* Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (d*Sec[e+f*x])^m/(b*f*(Sec[e+f*x]^2)^(m/2))*Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] *)
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (d*Sec[e+f*x])^m/((a+b*Tan[e+f*x])^(m/2)*(a-b*Tan[e+f*x])^(m/2))*Int[(a+b*Tan[e+f*x])^(m/2+n)*(a-b*Tan[e+f*x])^(m/2),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2]
+
+
+Int[sec[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  1/(b*f)*Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,e,f,n},x] && NeQ[a^2+b^2] && IntegerQ[m/2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^2/sec[e_.+f_.*x_],x_Symbol] :=
+  b^2*ArcTanh[Sin[e+f*x]]/f - 2*a*b*Cos[e+f*x]/f + (a^2-b^2)*Sin[e+f*x]/f /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2+b^2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
+  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])/(f*(m+1)) + 
+  1/(m+1)*Int[(d*Sec[e+f*x])^m*(a^2*(m+1)-b^2+a*b*(m+2)*Tan[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2+b^2] && NeQ[m+1]
+
+
+Int[sec[e_.+f_.*x_]/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -1/f*Subst[Int[1/(a^2+b^2-x^2),x],x,(b-a*Tan[e+f*x])/Sec[e+f*x]] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2+b^2]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -d^2/b^2*Int[(d*Sec[e+f*x])^(m-2)*(a-b*Tan[e+f*x]),x] + 
+  d^2*(a^2+b^2)/b^2*Int[(d*Sec[e+f*x])^(m-2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2+b^2] && PositiveIntegerQ[m-1]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2+b^2)*Int[(d*Sec[e+f*x])^m*(a-b*Tan[e+f*x]),x] + 
+  b^2/(d^2*(a^2+b^2))*Int[(d*Sec[e+f*x])^(m+2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2+b^2] && NegativeIntegerQ[m]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^(2*IntPart[m/2])*(d*Sec[e+f*x])^(2*FracPart[m/2])/(b*f*(Sec[e+f*x]^2)^FracPart[m/2])*
+    Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2+b^2] && Not[IntegerQ[m/2]]
+
+
+Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]/Sqrt[d_. cos[e_.+f_.*x_]],x_Symbol] :=
+  -4*b/f*Subst[Int[x^2/(a^2*d^2+x^4),x],x,Sqrt[d*Cos[e+f*x]]*Sqrt[a+b*Tan[e+f*x]]] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[1/((d_. cos[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*tan[e_.+f_.*x_]]),x_Symbol] :=
+  1/(d*Cos[e+f*x]*Sqrt[a-b*Tan[e+f*x]]*Sqrt[a+b*Tan[e+f*x]])*Int[Sqrt[a-b*Tan[e+f*x]]/Sqrt[d*Cos[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (d*Cos[e+f*x])^m*(d*Sec[e+f*x])^m*Int[(a+b*Tan[e+f*x])^n/(d*Sec[e+f*x])^m,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.1.3 (d sin)^m (a+b tan)^n*)
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b/f*Subst[Int[x^m*(a+x)^n/(b^2+x^2)^(m/2+1),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,e,f,n},x] && IntegerQ[m/2]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[Expand[Sin[e+f*x]^m*(a+b*Tan[e+f*x])^n,x],x] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && PositiveIntegerQ[n]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[Sin[e+f*x]^m*(a*Cos[e+f*x]+b*Sin[e+f*x])^n/Cos[e+f*x]^n,x] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && NegativeIntegerQ[n] && (m<5 && n>-4 || m==5 && n==-1)
+
+
+Int[(d_.*csc[e_.+f_.*x_])^m_*(a_.+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(a+b*Tan[e+f*x])^n/(Sin[e+f*x]/d)^m,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && Not[IntegerQ[m]]
+
+
+Int[cos[e_.+f_.*x_]^m_.*sin[e_.+f_.*x_]^p_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[Cos[e+f*x]^(m-n)*Sin[e+f*x]^p*(a*Cos[e+f*x]+b*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n]
+
+
+Int[sin[e_.+f_.*x_]^m_.*cos[e_.+f_.*x_]^p_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[Sin[e+f*x]^(m-n)*Cos[e+f*x]^p*(a*Sin[e+f*x]+b*Cos[e+f*x])^n,x] /;
+FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.2.1 (a+b tan)^m (c+d tan)^n*)
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*c^m*Int[Sec[e+f*x]^(2*m)*(c+d*Tan[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2] && IntegerQ[m] && Not[IntegerQ[n] && n>0 && (m<0 || n<m)]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*c/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^(n-1),x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*c-b*d)*x + b*d*Tan[e+f*x]/f /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[b*c+a*d]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*c-b*d)*x + b*d*Tan[e+f*x]/f + (b*c+a*d)*Int[Tan[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[b*c+a*d]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
+  (b*c+a*d)/(2*a*b)*Int[(a+b*Tan[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m<0
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  d*(a+b*Tan[e+f*x])^m/(f*m) + (b*c+a*d)/b*Int[(a+b*Tan[e+f*x])^m,x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  d*(a+b*Tan[e+f*x])^m/(f*m) + 
+  Int[(a+b*Tan[e+f*x])^(m-1)*Simp[a*c-b*d+(b*c+a*d)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && RationalQ[m] && m>0
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*(a+b*Tan[e+f*x])^(m+1)/(f*(m+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c+b*d-(b*c-a*d)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && RationalQ[m] && m<-1
+
+
+Int[(c_+d_.*tan[e_.+f_.*x_])/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  c/(b*f)*Log[RemoveContent[a*Cos[e+f*x]+b*Sin[e+f*x],x]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[a*c+b*d]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*c+b*d)*x/(a^2+b^2) + (b*c-a*d)/(a^2+b^2)*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[a*c+b*d]
+
+
+Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -2*d^2/f*Subst[Int[1/(2*c*d+b*x^2),x],x,(c-d*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]]] /;
+FreeQ[{b,c,d,e,f},x] && EqQ[c^2-d^2]
+
+
+(* Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  (c+d)/2*Int[(1+Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] + 
+  (c-d)/2*Int[(1-Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[c^2+d^2] && NeQ[c^2-d^2] *)
+
+
+Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  2*c^2/f*Subst[Int[1/(b*c-d*x^2),x],x,Sqrt[b*Tan[e+f*x]]] /;
+FreeQ[{b,c,d,e,f},x] && EqQ[c^2+d^2]
+
+
+(* Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  (c+I*d)/2*Int[(1-I*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] + (c-I*d)/2*Int[(1+I*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NeQ[c^2+d^2] *)
+
+
+Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  2/f*Subst[Int[(b*c+d*x^2)/(b^2+x^4),x],x,Sqrt[b*Tan[e+f*x]]] /;
+FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NeQ[c^2+d^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -2*d^2/f*Subst[Int[1/(2*b*c*d-4*a*d^2+x^2),x],x,(b*c-2*a*d-b*d*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[2*a*c*d-b*(c^2-d^2)]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  With[{q=Rt[a^2+b^2,2]},
+  1/(2*q)*Int[(a*c+b*d+c*q+(b*c-a*d+d*q)*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]],x] - 
+  1/(2*q)*Int[(a*c+b*d-c*q+(b*c-a*d-d*q)*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]],x]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && NeQ[2*a*c*d-b*(c^2-d^2)] && 
+  (PerfectSquareQ[a^2+b^2] || RationalQ[a,b,c,d])
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  c*d/f*Subst[Int[(a+b/d*x)^m/(d^2+c*x),x],x,d*Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[c^2+d^2]
+
+
+Int[(b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  c*Int[(b*Tan[e+f*x])^m,x] + d/b*Int[(b*Tan[e+f*x])^(m+1),x] /;
+FreeQ[{b,c,d,e,f,m},x] && NeQ[c^2+d^2] && Not[IntegerQ[2*m]]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (c+I*d)/2*Int[(a+b*Tan[e+f*x])^m*(1-I*Tan[e+f*x]),x] + 
+  (c-I*d)/2*Int[(a+b*Tan[e+f*x])^m*(1+I*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && Not[IntegerQ[m]]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
+  -b*(a*c+b*d)^2*(a+b*Tan[e+f*x])^m/(2*a^3*f*m) + 
+  1/(2*a^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c^2-2*b*c*d+a*d^2-2*b*d^2*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^2/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  d*(2*b*c-a*d)*x/b^2 + d^2/b*Int[Tan[e+f*x],x] + (b*c-a*d)^2/b^2*Int[1/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
+  (b*c-a*d)^2*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c^2+2*b*c*d-a*d^2-(b*c^2-2*a*c*d-b*d^2)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
+  d^2*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + 
+  Int[(a+b*Tan[e+f*x])^m*Simp[c^2-d^2+2*c*d*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && Not[RationalQ[m] && m<=-1] && Not[EqQ[m-2] && EqQ[a]]
+
+
+Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -2*a*b/f*Subst[Int[1/(a*c-b*d-2*a^2*x^2),x],x,Sqrt[c+d*Tan[e+f*x]]/Sqrt[a+b*Tan[e+f*x]]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*b*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m-1)*(a*c-b*d)) + 
+  2*a^2/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n==0 && m>1/2
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(2*b*f*m) - 
+  (a*c-b*d)/(2*b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n==0 && m<=-1/2
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
+  1/(2*a)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n+1==0 && m<-1
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*m*(c^2+d^2)) + 
+  a/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<-1]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -(a*c+b*d)*(c+d*Tan[e+f*x])^n/(2*(b*c-a*d)*f*(a+b*Tan[e+f*x])) + 
+  1/(2*a*(b*c-a*d))*Int[(c+d*Tan[e+f*x])^(n-1)*Simp[a*c*d*(n-1)+b*c^2+b*d^2*n-d*(b*c-a*d)*(n-1)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[n] && 0<n<1
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*(c+d*Tan[e+f*x])^(n-1)/(2*a*f*(a+b*Tan[e+f*x])) + 
+  1/(2*a^2)*Int[(c+d*Tan[e+f*x])^(n-2)*Simp[a*c^2+a*d^2*(n-1)-b*c*d*n-d*(a*c*(n-2)+b*d*n)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[n] && n>1
+
+
+Int[1/((a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  b/(b*c-a*d)*Int[1/(a+b*Tan[e+f*x]),x] - d/(b*c-a*d)*Int[1/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -a*(c+d*Tan[e+f*x])^(n+1)/(2*f*(b*c-a*d)*(a+b*Tan[e+f*x])) + 
+  1/(2*a*(b*c -a*d))*Int[(c+d*Tan[e+f*x])^n*Simp[b*c+a*d*(n-1)-b*d*n*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && Not[RationalQ[n] && n>0]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a^2*(b*c-a*d)*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(b*c+a*d)*(n+1)) + 
+  a/(d*(b*c+a*d)*(n+1))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[b*(b*c*(m-2)-a*d*(m-2*n-4))+(a*b*c*(m-2)+b^2*d*(n+1)-a^2*d*(m+n-1))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n<-1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^(3/2)/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  2*a^2/(a*c-b*d)*Int[Sqrt[a+b*Tan[e+f*x]],x] - 
+  (2*b*c*d+a*(c^2-d^2))/(a*(c^2+d^2))*Int[(a-b*Tan[e+f*x])*Sqrt[a+b*Tan[e+f*x]]/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^(3/2)/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  2*a*Int[Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] + 
+  b/a*Int[(b+a*Tan[e+f*x])*Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n-1)) + 
+  a/(d*(m+n-1))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^n*
+    Simp[b*c*(m-2)+a*d*(m+2*n)+(a*c*(m-2)+b*d*(3*m+2*n-4))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  IntegerQ[2*m] && m>1 && NeQ[m+n-1] && (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  -b*(a+b*Tan[e+f*x])^m*Sqrt[c+d*Tan[e+f*x]]/(2*a*f*m) + 
+  1/(4*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[2*a*c*m+b*d+a*d*(2*m+1)*Tan[e+f*x],x]/Sqrt[c+d*Tan[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<0 && IntegersQ[2*m]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(b*c-a*d)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)/(2*a*f*m) + 
+  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-2)*
+    Simp[c*(a*c*m+b*d*(n-1))-d*(b*c*m+a*d*(n-1))-d*(b*d*(m-n+1)-a*c*(m+n-1))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  RationalQ[m,n] && m<0 && n>1 && (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
+  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[b*c*m-a*d*(2*m+n+1)+b*d*(m+n+1)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  RationalQ[m] && m<0 && (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)/(f*(m+n-1)) - 
+  1/(a*(m+n-1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-2)*
+    Simp[d*(b*c*m+a*d*(-1+n))-a*c^2*(m+n-1)+d*(b*d*m-a*c*(m+2*n-2))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  RationalQ[n] && n>1 && NeQ[m+n-1] && (IntegerQ[n] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*(n+1)*(c^2+d^2)) - 
+  1/(a*(c^2+d^2)*(n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[b*d*m-a*c*(n+1)+a*d*(m+n+1)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  RationalQ[n] && n<-1 && (IntegerQ[n] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  a/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m,x] - 
+  d/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m*(b+a*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  (a*c-b*d)/a*Int[Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] + 
+  d/a*Int[Sqrt[a+b*Tan[e+f*x]]*(b+a*Tan[e+f*x])/Sqrt[c+d*Tan[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*b/f*Subst[Int[(a+x)^(m-1)*(c+d/b*x)^n/(b^2+a*x),x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*c-a*d)^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-3)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[a^2*d*(b*d*(m-2)-a*c*(n+1))+b*(b*c-2*a*d)*(b*c*(m-2)+a*d*(n+1)) - 
+      d*(n+1)*(3*a^2*b*c-b^3*c-a^3*d+3*a*b^2*d)*Tan[e+f*x] - 
+      b*(a*d*(2*b*c-a*d)*(m+n-1)-b^2*(c^2*(m-2)-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>2 && n<-1 && 
+  IntegerQ[2*m]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n-1)) + 
+  1/(d*(m+n-1))*Int[(a+b*Tan[e+f*x])^(m-3)*(c+d*Tan[e+f*x])^n*
+    Simp[a^3*d*(m+n-1)-b^2*(b*c*(m-2)+a*d*(1+n))+b*d*(m+n-1)*(3*a^2-b^2)*Tan[e+f*x]-
+      b^2*(b*c*(m-2)-a*d*(3*m+2*n-4))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && IntegerQ[2*m] && m>2 && 
+  (RationalQ[n] && n>=-1 || IntegerQ[m]) && Not[IntegerQ[n] && n>2 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*c-a*d)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)/(f*(m+1)*(a^2+b^2)) + 
+  1/((m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-2)*
+    Simp[a*c^2*(m+1)+a*d^2*(n-1)+b*c*d*(m-n+2)-(b*c^2-2*a*c*d-b*d^2)*(m+1)*Tan[e+f*x]-d*(b*c-a*d)*(m+n)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && 1<n<2 && 
+  IntegerQ[2*m]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n/(f*(m+1)*(a^2+b^2)) + 
+  1/((m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[a*c*(m+1)-b*d*n-(b*c-a*d)*(m+1)*Tan[e+f*x]-b*d*(m+n+1)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && n>0 && 
+  IntegerQ[2*m]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(a^2+b^2)*(b*c-a*d)) + 
+  1/((m+1)*(a^2+b^2)*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[a*(b*c-a*d)*(m+1)-b^2*d*(m+n+2)-b*(b*c-a*d)*(m+1)*Tan[e+f*x]-b^2*d*(m+n+2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && IntegerQ[2*m] && m<-1 && 
+  (RationalQ[n] && n<0 || IntegerQ[m]) && Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n/(f*(m+n-1)) + 
+  1/(m+n-1)*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[a^2*c*(m+n-1)-b*(b*c*(m-1)+a*d*n)+(2*a*b*c+a^2*d-b^2*d)*(m+n-1)*Tan[e+f*x]+b*(b*c*n+a*d*(2*m+n-2))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n>0 && IntegerQ[2*n]
+
+
+Int[1/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  (a*c-b*d)*x/((a^2+b^2)*(c^2+d^2)) + 
+  b^2/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
+  d^2/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[Sqrt[a_.+b_.*tan[e_.+f_.*x_]]/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(c^2+d^2)*Int[Simp[a*c+b*d+(b*c-a*d)*Tan[e+f*x],x]/Sqrt[a+b*Tan[e+f*x]],x] - 
+  d*(b*c-a*d)/(c^2+d^2)*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*(c+d*Tan[e+f*x])),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^(3/2)/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(c^2+d^2)*Int[Simp[a^2*c-b^2*c+2*a*b*d+(2*a*b*c-a^2*d+b^2*d)*Tan[e+f*x],x]/Sqrt[a+b*Tan[e+f*x]],x] + 
+  (b*c-a*d)^2/(c^2+d^2)*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*(c+d*Tan[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(c^2+d^2)*Int[(a+b*Tan[e+f*x])^m*(c-d*Tan[e+f*x]),x] + 
+  d^2/(c^2+d^2)*Int[(a+b*Tan[e+f*x])^m*(1+Tan[e+f*x]^2)/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && Not[IntegerQ[m]]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(d_./tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(b+a*Cot[e+f*x])^m*(d*Cot[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(d_./cot[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(b+a*Tan[e+f*x])^m*(d*Tan[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.*(d_.*tan[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Tan[e + f*x])^p)^FracPart[n]/(d*Tan[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Tan[e+f*x])^m*(d*Tan[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.*(d_.*cot[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Cot[e + f*x])^p)^FracPart[n]/(d*Cot[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Cot[e+f*x])^m*(d*Cot[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.2.3 (g tan)^p (a+b tan)^m (c+d tan)^n*)
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(g*Tan[e+f*x])^p*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+Int[(g_.*cot[e_.+f_.*x_])^p_*(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(m+n)*Int[(g*Cot[e+f*x])^(p-m-n)*(b+a*Cot[e+f*x])^m*(d+c*Cot[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^(m+n)*Int[(g*Tan[e+f*x])^(p-m-n)*(b+a*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(g_.*tan[e_.+f_.*x_]^q_)^p_*(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (g*Tan[e+f*x]^q)^p/(g*Tan[e+f*x])^(p*q)*Int[(g*Tan[e+f*x])^(p*q)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[(g*Tan[e+f*x])^(p-n)*(a+b*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,p},x] && IntegerQ[n]
+
+
+Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(b+a*Cot[e+f*x])^m*(c+d*Cot[e+f*x])^n/Cot[e+f*x]^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] && IntegerQ[p]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
+  Cot[e+f*x]^p*(g*Tan[e+f*x])^p*Int[(b+a*Cot[e+f*x])^m*(c+d*Cot[e+f*x])^n/Cot[e+f*x]^(m+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && Not[IntegerQ[n]] && IntegerQ[m] && Not[IntegerQ[p]]
+
+
+Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
+  (g*Tan[e+f*x])^n*(c+d*Cot[e+f*x])^n/(d+c*Tan[e+f*x])^n*Int[(g*Tan[e+f*x])^(p-n)*(a+b*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.3.1 (a+b tan)^m (c+d tan)^n (A+B tan)*)
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  a*c/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^(n-1)*(A+B*x),x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  B*d/b*Int[Tan[e+f*x],x] + 1/b*Int[Simp[A*b*c+(A*b*d+B*(b*c-a*d))*Tan[e+f*x],x]/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*(a*c+b*d)*(a+b*Tan[e+f*x])^m/(2*a^2*f*m) + 
+  1/(2*a*b)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[A*b*c+a*B*c+a*A*d+b*B*d+2*a*B*d*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && EqQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*(A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*A*c+b*B*c+A*b*d-a*B*d-(A*b*c-a*B*c-a*A*d-b*B*d)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  B*d*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + 
+  Int[(a+b*Tan[e+f*x])^m*Simp[A*c-B*d+(B*c+A*d)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && Not[RationalQ[m] && m<=-1]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -a^2*(B*c-A*d)*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(b*c+a*d)*(n+1)) - 
+  a/(d*(b*c+a*d)*(n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[A*b*d*(m-n-2)-B*(b*c*(m-1)+a*d*(n+1))+(a*A*d*(m+n)-B*(a*c*(m-1)+b*d*(n+1)))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m,n] && m>1 && n<-1
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  b*B*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
+    Simp[a*A*d*(m+n)+B*(a*c*(m-1)-b*d*(n+1))-(B*(b*c-a*d)*(m-1)-d*(A*b+a*B)*(m+n))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m>1 && Not[RationalQ[n] && n<-1]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(2*a*f*m) + 
+  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[A*(a*c*m+b*d*n)-B*(b*c*m+a*d*n)-d*(b*B*(m-n)-a*A*(m+n))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m,n] && m<0 && n>0
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*A+b*B)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
+  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[A*(b*c*m-a*d*(2*m+n+1))+B*(a*c*m-b*d*(n+1))+d*(A*b-a*B)*(m+n+1)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m<0 && Not[RationalQ[n] && n>0]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  B*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(f*(m+n)) + 
+  1/(a*(m+n))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[a*A*c*(m+n)-B*(b*c*m+a*d*n)+(a*A*d*(m+n)-B*(b*d*m-a*c*n))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[n] && n>0
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A*d-B*c)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*(n+1)*(c^2+d^2)) - 
+  1/(a*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[A*(b*d*m-a*c*(n+1))-B*(b*c*m+a*d*(n+1))-a*(B*c-A*d)*(m+n+1)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[n] && n<-1
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  b*B/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^n,x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && EqQ[A*b+a*B]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(A_.+B_.*tan[e_.+f_.*x_])/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A*b+a*B)/(b*c+a*d)*Int[(a+b*Tan[e+f*x])^m,x] - 
+  (B*c-A*d)/(b*c+a*d)*Int[(a+b*Tan[e+f*x])^m*(a-b*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[A*b+a*B]
+
+
+(* Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] + 
+  B/b*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] *)
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A*b+a*B)/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] - 
+  B/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(a-b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[A*b+a*B]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  A^2/f*Subst[Int[(a+b*x)^m*(c+d*x)^n/(A-B*x),x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && 
+  Not[IntegersQ[2*m,2*n]] && EqQ[A^2+B^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A+I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1-I*Tan[e+f*x]),x] + 
+  (A-I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1+I*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && 
+  Not[IntegersQ[2*m,2*n]] && NeQ[A^2+B^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (b*c-a*d)*(B*c-A*d)*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[a*A*d*(b*d*(m-1)-a*c*(n+1))+(b*B*c-(A*b+a*B)*d)*(b*c*(m-1)+a*d*(n+1))-
+      d*((a*A-b*B)*(b*c-a*d)+(A*b+a*B)*(a*c+b*d))*(n+1)*Tan[e+f*x]-
+      b*(d*(A*b*c+a*B*c-a*A*d)*(m+n)-b*B*(c^2*(m-1)-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n<-1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  b*B*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^n*
+    Simp[a^2*A*d*(m+n)-b*B*(b*c*(m-1)+a*d*(n+1))+
+      d*(m+n)*(2*a*A*b+B*(a^2-b^2))*Tan[e+f*x]-
+      (b*B*(b*c-a*d)*(m-1)-b*(A*b+a*B)*d*(m+n))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n/(f*(m+1)*(a^2+b^2)) + 
+  1/(b*(m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[b*B*(b*c*(m+1)+a*d*n)+A*b*(a*c*(m+1)-b*d*n)-b*(A*(b*c-a*d)-B*(a*c+b*d))*(m+1)*Tan[e+f*x]-b*d*(A*b-a*B)*(m+n+1)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  b*(A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[b*B*(b*c*(m+1)+a*d*(n+1))+A*(a*(b*c-a*d)*(m+1)-b^2*d*(m+n+2)) - 
+      (A*b-a*B)*(b*c-a*d)*(m+1)*Tan[e+f*x] - 
+      b*d*(A*b-a*B)*(m+n+2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  B*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(f*(m+n)) + 
+  1/(m+n)*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n-1)*
+    Simp[a*A*c*(m+n)-B*(b*c*m+a*d*n)+(A*b*c+a*B*c+a*A*d-b*B*d)*(m+n)*Tan[e+f*x]+(A*b*d*(m+n)+B*(a*d*m+b*c*n))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && 0<m<1 && 0<n<1
+
+
+Int[(A_.+B_.*tan[e_.+f_.*x_])/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  (B*(b*c+a*d)+A*(a*c-b*d))*x/((a^2+b^2)*(c^2+d^2)) + 
+  b*(A*b-a*B)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] + 
+  d*(B*c-A*d)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[Sqrt[c_.+d_.*tan[e_.+f_.*x_]]*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2+b^2)*Int[Simp[A*(a*c+b*d)+B*(b*c-a*d)-(A*(b*c-a*d)-B*(a*c+b*d))*Tan[e+f*x],x]/Sqrt[c+d*Tan[e+f*x]],x] - 
+  (b*c-a*d)*(B*a-A*b)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/((a+b*Tan[e+f*x])*Sqrt[c+d*Tan[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[a*A+b*B-(A*b-a*B)*Tan[e+f*x],x],x] + 
+  b*(A*b-a*B)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*(A_.+B_.*tan[e_.+f_.*x_])/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
+  Int[Simp[a*A-b*B+(A*b+a*B)*Tan[e+f*x],x]/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] + 
+  b*B*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+(* Int[(A_.+B_.*tan[e_.+f_.*x_])/(Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]]),x_Symbol] :=
+  A^2/f*Subst[Int[1/((A-B*x)*Sqrt[a+b*x]*Sqrt[c+d*x]),x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[A^2+B^2] *)
+
+
+(* Int[(A_.+B_.*tan[e_.+f_.*x_])/(Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]]),x_Symbol] :=
+  (A+I*B)/2*Int[(1-I*Tan[e+f*x])/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] + 
+  (A-I*B)/2*Int[(1+I*Tan[e+f*x])/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && NeQ[A^2+B^2] *)
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  A^2/f*Subst[Int[(a+b*x)^m*(c+d*x)^n/(A-B*x),x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[A^2+B^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (A+I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1-I*Tan[e+f*x]),x] + 
+  (A-I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1+I*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[A^2+B^2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.4.1 (a+b tan)^m (A+B tan+C tan^2)*)
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  A/(b*f)*Subst[Int[(a+x)^m,x],x,b*Tan[e+f*x]] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A-C]
+
+
+Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_+C_.*cot[e_.+f_.*x_]^2),x_Symbol] :=
+  -A/(b*f)*Subst[Int[(a+x)^m,x],x,b*Cot[e+f*x]] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A-C]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b^2*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  -C/b^2*Int[(a+b*Tan[e+f*x])^(m+1)*(a-b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  -(a*A+b*B-a*C)*Tan[e+f*x]*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
+  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[(b*B-a*C)+a*A*(2*m+1)-(b*C*(m-1)+(A*b-a*B)*(m+1))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  -(a*A-a*C)*Tan[e+f*x]*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
+  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[-a*C+a*A*(2*m+1)-(b*C*(m-1)+A*b*(m+1))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[A*b^2+a^2*C] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
+
+
+Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*A+b*B-a*C)*x/(a^2+b^2) + 
+  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2+b^2] && EqQ[A*b-a*B-b*C]
+
+
+Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/tan[e_.+f_.*x_],x_Symbol] :=
+  B*x+A*Int[1/Tan[e+f*x],x] + C*Int[Tan[e+f*x],x] /;
+FreeQ[{e,f,A,B,C},x] && NeQ[A-C]
+
+
+Int[(A_+C_.*tan[e_.+f_.*x_]^2)/tan[e_.+f_.*x_],x_Symbol] :=
+  A*Int[1/Tan[e+f*x],x] + C*Int[Tan[e+f*x],x] /;
+FreeQ[{e,f,A,C},x] && NeQ[A-C]
+
+
+Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (a*A+b*B-a*C)*x/(a^2+b^2) - 
+  (A*b-a*B-b*C)/(a^2+b^2)*Int[Tan[e+f*x],x] + 
+  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && NeQ[a^2+b^2] && NeQ[A*b-a*B-b*C]
+
+
+Int[(A_+C_.*tan[e_.+f_.*x_]^2)/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  a*(A-C)*x/(a^2+b^2) - 
+  b*(A-C)/(a^2+b^2)*Int[Tan[e+f*x],x] + 
+  (a^2*C+A*b^2)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2*C+A*b^2] && NeQ[a^2+b^2] && NeQ[A-C]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2-a*b*B+a^2*C)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[b*B+a*(A-C)-(A*b-a*B-b*C)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2+a^2*C)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
+  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*(A-C)-(A*b-b*C)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[A*b^2+a^2*C] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + Int[(a+b*Tan[e+f*x])^m*Simp[A-C+B*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[A*b^2-a*b*B+a^2*C] && Not[RationalQ[m] && m<=-1]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + (A-C)*Int[(a+b*Tan[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && NeQ[A*b^2+a^2*C] && Not[RationalQ[m] && m<=-1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.4.2 (a+b tan)^m (c+d tan)^n (A+B tan+C tan^2)*)
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  A/f*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,Tan[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[A-C]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  -(b*c-a*d)*(c^2*C-B*c*d+A*d^2)*(c+d*Tan[e+f*x])^(n+1)/(d^2*f*(n+1)*(c^2+d^2)) + 
+  1/(d*(c^2+d^2))*Int[(c+d*Tan[e+f*x])^(n+1)*
+    Simp[a*d*(A*c-c*C+B*d)+b*(c^2*C-B*c*d+A*d^2)+d*(A*b*c+a*B*c-b*c*C-a*A*d+b*B*d+a*C*d)*Tan[e+f*x]+b*C*(c^2+d^2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && RationalQ[n] && n<-1
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  -(b*c-a*d)*(c^2*C+A*d^2)*(c+d*Tan[e+f*x])^(n+1)/(d^2*f*(n+1)*(c^2+d^2)) + 
+  1/(d*(c^2+d^2))*Int[(c+d*Tan[e+f*x])^(n+1)*
+    Simp[a*d*(A*c-c*C)+b*(c^2*C+A*d^2)+d*(A*b*c-b*c*C-a*A*d+a*C*d)*Tan[e+f*x]+b*C*(c^2+d^2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && RationalQ[n] && n<-1
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  b*C*Tan[e+f*x]*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+2)) - 
+  1/(d*(n+2))*Int[(c+d*Tan[e+f*x])^n*
+    Simp[b*c*C-a*A*d*(n+2)-(A*b+a*B-b*C)*d*(n+2)*Tan[e+f*x]-(a*C*d*(n+2)-b*(c*C-B*d*(n+2)))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && Not[RationalQ[n] && n<-1]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  b*C*Tan[e+f*x]*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+2)) - 
+  1/(d*(n+2))*Int[(c+d*Tan[e+f*x])^n*
+    Simp[b*c*C-a*A*d*(n+2)-(A*b-b*C)*d*(n+2)*Tan[e+f*x]-(a*C*d*(n+2)-b*c*C)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && Not[RationalQ[n] && n<-1]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (a*A+b*B-a*C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
+  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[b*(c*(A+C)*m-B*d*(n+1))+a*(B*c*m+C*d*(n+1)-A*d*(2*m+n+1))+
+      (b*C*d*(m-n-1)+A*b*d*(m+n+1)+a*(2*c*C*m-B*d*(m+n+1)))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && (RationalQ[m] && m<0 || EqQ[m+n+1])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  a*(A-C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
+  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+    Simp[b*c*(A+C)*m+a*(C*d*(n+1)-A*d*(2*m+n+1))+(b*C*d*(m-n-1)+A*b*d*(m+n+1)+2*a*c*C*m)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && (RationalQ[m] && m<0 || EqQ[m+n+1])
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (c^2*C-B*c*d+A*d^2)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(a*d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[b*(c^2*C-B*c*d+A*d^2)*m-a*d*(n+1)*(A*c-c*C+B*d)-a*(d*(B*c-A*d)*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && RationalQ[n] && n<-1 && 
+  NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (c^2*C+A*d^2)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(a*d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[b*(c^2*C+A*d^2)*m-a*d*(n+1)*(A*c-c*C)-a*(-A*d^2*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && RationalQ[n] && n<-1 && 
+  NeQ[c^2+d^2]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(b*d*(m+n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*
+    Simp[A*b*d*(m+n+1)+C*(a*c*m-b*d*(n+1))-(C*m*(b*c-a*d)-b*B*d*(m+n+1))*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && NeQ[m+n+1]
+
+
+Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(b*d*(m+n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*
+    Simp[A*b*d*(m+n+1)+C*(a*c*m-b*d*(n+1))-C*m*(b*c-a*d)*Tan[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && NeQ[m+n+1]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*d^2+c*(c*C-B*d))*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[A*d*(b*d*m-a*c*(n+1))+(c*C-B*d)*(b*c*m+a*d*(n+1)) - 
+      d*(n+1)*((A-C)*(b*c-a*d)+B*(a*c+b*d))*Tan[e+f*x] - 
+      b*(d*(B*c-A*d)*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*d^2+c^2*C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
+  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
+    Simp[A*d*(b*d*m-a*c*(n+1))+c*C*(b*c*m+a*d*(n+1)) - 
+      d*(n+1)*((A-C)*(b*c-a*d))*Tan[e+f*x] + 
+      b*(A*d^2*(m+n+1)+C*(c^2*m-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>0 && n<-1
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(d*(m+n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
+    Simp[a*A*d*(m+n+1)-C*(b*c*m+a*d*(n+1))+d*(A*b+a*B-b*C)*(m+n+1)*Tan[e+f*x]-(C*m*(b*c-a*d)-b*B*d*(m+n+1))*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>0 && 
+  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
+  1/(d*(m+n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
+    Simp[a*A*d*(m+n+1)-C*(b*c*m+a*d*(n+1))+d*(A*b-b*C)*(m+n+1)*Tan[e+f*x]-C*m*(b*c-a*d)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>0 && 
+  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2-a*(b*B-a*C))*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+     Simp[A*(a*(b*c -a*d)*(m+1)-b^2*d*(m+n+2))+(b*B-a*C)*(b*c*(m+1)+a*d*(n+1)) - 
+      (m+1)*(b*c-a*d)*(A*b-a*B-b*C)*Tan[e+f*x] - 
+      d*(A*b^2-a*(b*B-a*C))*(m+n+2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 &&
+  Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2+a^2*C)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
+  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
+     Simp[A*(a*(b*c -a*d)*(m+1)-b^2*d*(m+n+2))-a*C*(b*c*(m+1)+a*d*(n+1)) - 
+      (m+1)*(b*c-a*d)*(A*b-b*C)*Tan[e+f*x] - 
+      d*(A*b^2+a^2*C)*(m+n+2)*Tan[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 &&
+  Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
+
+
+Int[(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  (a*(A*c-c*C+B*d)+b*(B*c-A*d+C*d))*x/((a^2+b^2)*(c^2+d^2)) + 
+  (A*b^2-a*b*B+a^2*C)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
+  (c^2*C-B*c*d+A*d^2)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(A_.+C_.*tan[e_.+f_.*x_]^2)/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  (a*(A*c-c*C)-b*(A*d-C*d))*x/((a^2+b^2)*(c^2+d^2)) + 
+  (A*b^2+a^2*C)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
+  (c^2*C+A*d^2)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[b*B+a*(A-C)+(a*B-b*(A-C))*Tan[e+f*x],x],x] + 
+  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  Not[RationalQ[n] && n>0] && Not[RationalQ[n] && n<=-1]
+
+
+Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[a*(A-C)-(A*b-b*C)*Tan[e+f*x],x],x] + 
+  (A*b^2+a^2*C)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && 
+  Not[RationalQ[n] && n>0] && Not[RationalQ[n] && n<=-1]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n*(A+B*ff*x+C*ff^2*x^2)/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n*(A+C*ff^2*x^2)/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.7 (d trig)^m (a+b (c tan)^n)^p*)
+
+
+Int[u_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  a^p*Int[ActivateTrig[u*sec[e+f*x]^(2*p)],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a-b,0] && IntegerQ[p]
+
+
+Int[u_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  Int[ActivateTrig[u*(a*sec[e+f*x]^2)^p],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a-b,0]
+
+
+Int[u_.*(b_.*tan[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  (b*ff^n)^IntPart[p]*(b*Tan[e+f*x]^n)^FracPart[p]/(Tan[e+f*x]/ff)^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(Tan[e+f*x]/ff)^(n*p),x]] /;
+FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[u_.*(b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  b^IntPart[p]*(b*(c*Tan[e+f*x])^n)^FracPart[p]/(c*Tan[e+f*x])^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(c*Tan[e+f*x])^(n*p),x] /;
+FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[1/(a_+b_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  1/a*Int[Cos[e+f*x]^2,x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a-b]
+
+
+Int[1/(a_+b_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
+  x/(a-b) - b/(a-b)*Int[Sec[e+f*x]^2/(a+b*Tan[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a-b]
+
+
+Int[(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  c*ff/f*Subst[Int[(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2),x],x,c*Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && (IntegersQ[n,p] || IGtQ[p,0] || EqQ[n^2,4] || EqQ[n^2,16])
+
+
+Int[(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,e,f,n,p},x]
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  c*ff^(m+1)/f*Subst[Int[x^m*(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2)^(m/2+1),x],x,c*Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[m/2]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sec[e+f*x],x]},
+  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a-b+b*ff^2*x^2)^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sec[e+f*x],x]},
+  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(-1+ff^2*x^2)^(n/2))^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*sin[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(d*Sin[e+f*x])^m*(Sec[e+f*x]^2)^(m/2)/(f*Tan[e+f*x]^m)*
+    Subst[Int[(ff*x)^m*(a+b*ff^2*x^2)^p/(1+ff^2*x^2)^(m/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  c*ff/f*Subst[Int[(d*ff*x/c)^m*(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2),x],x,c*Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && (IGtQ[p,0] || EqQ[n,2] || EqQ[n,4] || IntegerQ[p] && RationalQ[n])
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*tan[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
+  d^(n*p)*Int[(d*Cot[e+f*x])^(m-n*p)*(b+a*Cot[e+f*x]^n)^p,x] /;
+FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
+
+
+Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[sec[e_.+f_.*x_]^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/(c^(m-1)*f)*Subst[Int[(c^2+ff^2*x^2)^(m/2-1)*(a+b*(ff*x)^n)^p,x],x,c*Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[m/2] && (IntegersQ[n,p] || IGtQ[m,0] || IGtQ[p,0] || EqQ[n^2,4] || EqQ[n^2,16])
+
+
+Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[ExpandToSum[b*(ff*x)^n+a*(1-ff^2*x^2)^(n/2),x]^p/(1-ff^2*x^2)^((m+n*p+1)/2),x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && IntegerQ[p]
+
+
+Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[1/(1-ff^2*x^2)^((m+1)/2)*((b*(ff*x)^n+a*(1-ff^2*x^2)^(n/2))/(1-ff^2*x^2)^(n/2))^p,x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && Not[IntegerQ[p]]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Int[ExpandTrig[(d*sec[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff*(d*Sec[e+f*x])^m/(f*(Sec[e+f*x]^2)^(m/2))*
+    Subst[Int[(1+ff^2*x^2)^(m/2-1)*(a+b*ff^2*x^2)^p,x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Sec[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.9 trig^m (a+b tan^n+c tan^(2 n))^p*)
+
+
+Int[(a_+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(a_+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[1/(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Tan[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Tan[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[1/(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Cot[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Cot[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
+  f/e*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Tan[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && IntegerQ[m/2]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
+  -f/e*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Cot[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && IntegerQ[m/2]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cos[d+e*x],x]},
+  -g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*ExpandToSum[a*(g*x)^(2*n)+b*(g*x)^n*(1-g^2*x^2)^(n/2)+c*(1-g^2*x^2)^n,x]^p/(g*x)^(2*n*p),x],x,Cos[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Sin[d+e*x],x]},
+  g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*ExpandToSum[a*(g*x)^(2*n)+b*(g*x)^n*(1-g^2*x^2)^(n/2)+c*(1-g^2*x^2)^n,x]^p/(g*x)^(2*n*p),x],x,Sin[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  f^(m+1)/e*Subst[Int[(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Tan[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EvenQ[m]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
+  -f^(m+1)/e*Subst[Int[(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Cot[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EvenQ[m]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Sin[d+e*x],x]},
+  g/e*Subst[Int[(1-g^2*x^2)^((m-2*n*p-1)/2)*ExpandToSum[c*x^(2*n)+b*x^n*(1-x^2)^(n/2)+a*(1-x^2)^n,x]^p,x],x,Sin[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cos[d+e*x],x]},
+  -g/e*Subst[Int[(1-g^2*x^2)^((m-2*n*p-1)/2)*ExpandToSum[c*x^(2*n)+b*x^n*(1-x^2)^(n/2)+a*(1-x^2)^n,x]^p,x],x,Cos[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
+  f/e*Subst[Int[(x/f)^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2),x],x,f*Tan[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
+  -f/e*Subst[Int[(x/f)^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2),x],x,f*Cot[d+e*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_+c_.*tan[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Cot[d+e*x],x]},
+  g/e*Subst[Int[(g*x)^(m-2*n*p)*(c+b*(g*x)^n+a*(g*x)^(2*n))^p/(1+g^2*x^2),x],x,Cot[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EvenQ[n]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_+c_.*cot[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{g=FreeFactors[Tan[d+e*x],x]},
+  -g/e*Subst[Int[(g*x)^(m-2*n*p)*(c+b*(g*x)^n+a*(g*x)^(2*n))^p/(1+g^2*x^2),x],x,Tan[d+e*x]/g]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EvenQ[n]
+
+
+Int[(A_+B_.*tan[d_.+e_.*x_])*(a_+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Tan[d+e*x])*(b+2*c*Tan[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*cot[d_.+e_.*x_])*(a_+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Cot[d+e*x])*(b+2*c*Cot[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*tan[d_.+e_.*x_])*(a_+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Tan[d+e*x]+c*Tan[d+e*x]^2)^n/(b+2*c*Tan[d+e*x])^(2*n)*Int[(A+B*Tan[d+e*x])*(b+2*c*Tan[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*cot[d_.+e_.*x_])*(a_+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Cot[d+e*x]+c*Cot[d+e*x]^2)^n/(b+2*c*Cot[d+e*x])^(2*n)*Int[(A+B*Cot[d+e*x])*(b+2*c*Cot[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*tan[d_.+e_.*x_])/(a_.+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/Simp[b+q+2*c*Tan[d+e*x],x],x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/Simp[b-q+2*c*Tan[d+e*x],x],x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*cot[d_.+e_.*x_])/(a_.+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/Simp[b+q+2*c*Cot[d+e*x],x],x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/Simp[b-q+2*c*Cot[d+e*x],x],x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*tan[d_.+e_.*x_])*(a_.+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*tan[d+e*x])*(a+b*tan[d+e*x]+c*tan[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*cot[d_.+e_.*x_])*(a_.+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*cot[d+e*x])*(a+b*cot[d+e*x]+c*cot[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.10 (c+d x)^m (a+b tan)^n*)
+
+
+Int[(c_.+d_.*x_)^m_.*tan[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_],x_Symbol] :=
+  -I*(c+d*x)^(m+1)/(d*(m+1)) + 2*I*Int[(c+d*x)^m*E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))/(1+E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))),x] /;
+FreeQ[{c,d,e,f,fz},x] && IntegerQ[4*k] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*tan[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
+  I*(c+d*x)^(m+1)/(d*(m+1)) - 2*I*Int[(c+d*x)^m*E^(2*I*k*Pi)*E^(2*I*(e+f*x))/(1+E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
+FreeQ[{c,d,e,f},x] && IntegerQ[4*k] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*Complex[0,fz_]*x_],x_Symbol] :=
+  -I*(c+d*x)^(m+1)/(d*(m+1)) + 2*I*Int[(c+d*x)^m*E^(2*(-I*e+f*fz*x))/(1+E^(2*(-I*e+f*fz*x))),x] /;
+FreeQ[{c,d,e,f,fz},x] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*x_],x_Symbol] :=
+  I*(c+d*x)^(m+1)/(d*(m+1)) - 2*I*Int[(c+d*x)^m*E^(2*I*(e+f*x))/(1+E^(2*I*(e+f*x))),x] /;
+FreeQ[{c,d,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*(c+d*x)^m*(b*Tan[e+f*x])^(n-1)/(f*(n-1)) - 
+  b*d*m/(f*(n-1))*Int[(c+d*x)^(m-1)*(b*Tan[e+f*x])^(n-1),x] - 
+  b^2*Int[(c+d*x)^m*(b*Tan[e+f*x])^(n-2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  (c+d*x)^m*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
+  d*m/(b*f*(n+1))*Int[(c+d*x)^(m-1)*(b*Tan[e+f*x])^(n+1),x] - 
+  1/b^2*Int[(c+d*x)^m*(b*Tan[e+f*x])^(n+2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Tan[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[m,n]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (c+d*x)^(m+1)/(2*a*d*(m+1)) - 
+  a*(c+d*x)^m/(2*b*f*(a+b*Tan[e+f*x])) + 
+  a*d*m/(2*b*f)*Int[(c+d*x)^(m-1)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m>0
+
+
+Int[1/((c_.+d_.*x_)^2*(a_+b_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  -1/(d*(c+d*x)*(a+b*Tan[e+f*x])) + 
+  f/(b*d)*Int[Cos[2*e+2*f*x]/(c+d*x),x] - 
+  f/(a*d)*Int[Sin[2*e+2*f*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  f*(c+d*x)^(m+2)/(b*d^2*(m+1)*(m+2)) + 
+  (c+d*x)^(m+1)/(d*(m+1)*(a+b*Tan[e+f*x])) + 
+  2*b*f/(a*d*(m+1))*Int[(c+d*x)^(m+1)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m<-1 && m!=-2
+
+
+(* Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (c+d*x)^(m+1)/(d*(m+1)*(a+b*Tan[e+f*x])) + 
+  f/(b*d*(m+1))*Int[(c+d*x)^(m+1),x] + 
+  2*b*f/(a*d*(m+1))*Int[(c+d*x)^(m+1)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m<-1 *)
+
+
+Int[1/((c_.+d_.*x_)*(a_+b_.*tan[e_.+f_.*x_])),x_Symbol] :=
+  Log[c+d*x]/(2*a*d) + 
+  1/(2*a)*Int[Cos[2*e+2*f*x]/(c+d*x),x] + 
+  1/(2*b)*Int[Sin[2*e+2*f*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2]
+
+
+Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (c+d*x)^(m+1)/(2*a*d*(m+1)) + 
+  1/(2*a)*Int[(c+d*x)^m*E^(2*a/b*(e+f*x)),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2+b^2] && Not[IntegerQ[m]]
+
+
+Int[(c_.+d_.*x_)^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(1/(2*a)+Cos[2*e+2*f*x]/(2*a)+Sin[2*e+2*f*x]/(2*b))^(-n),x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && NegativeIntegerQ[m,n]
+
+
+Int[(c_.+d_.*x_)^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(1/(2*a)+E^(2*a/b*(e+f*x))/(2*a))^(-n),x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2+b^2] && NegativeIntegerQ[n]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  With[{u=IntHide[(a+b*Tan[e+f*x])^n,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[Dist[(c+d*x)^(m-1),u,x],x]] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && NegativeIntegerQ[n+1] && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+k_.*Pi+f_.*x_]),x_Symbol] :=
+  (c+d*x)^(m+1)/(d*(m+1)*(a-I*b)) - 2*I*b*Int[(c+d*x)^m/(a^2+b^2+(a-I*b)^2*E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && IntegerQ[4*k] && NeQ[a^2+b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
+  (c+d*x)^(m+1)/(d*(m+1)*(a-I*b)) - 2*I*b*Int[(c+d*x)^m/(a^2+b^2+(a-I*b)^2*E^(2*I*(e+f*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)/(a_+b_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
+  -(c+d*x)^2/(2*d*(a^2+b^2)) - 
+  b*(c+d*x)/(f*(a^2+b^2)*(a+b*Tan[e+f*x])) + 
+  1/(f*(a^2+b^2))*Int[(b*d+2*a*c*f+2*a*d*f*x)/(a+b*Tan[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(1/(a-I*b)-2*I*b/(a^2+b^2+(a-I*b)^2*E^(2*I*(e+f*x))))^(-n),x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2] && NegativeIntegerQ[n] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
+  If[MatchQ[f,f1_.*Complex[0,j_]],
+    If[MatchQ[e,e1_.+Pi/2],
+      I^n*Defer[Int][(c+d*x)^m*Coth[-I*(e-Pi/2)-I*f*x]^n,x],
+    I^n*Defer[Int][(c+d*x)^m*Tanh[-I*e-I*f*x]^n,x]],
+  If[MatchQ[e,e1_.+Pi/2],
+    (-1)^n*Defer[Int][(c+d*x)^m*Cot[e-Pi/2+f*x]^n,x],
+  Defer[Int][(c+d*x)^m*Tan[e+f*x]^n,x]]] /;
+FreeQ[{c,d,e,f,m,n},x] && IntegerQ[n]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(c+d*x)^m*(a+b*Tan[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[u_^m_.*(a_.+b_.*Tan[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Tan[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*(a_.+b_.*Cot[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Cot[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.11 (e x)^m (a+b tan(c+d x^n))^p*)
+
+
+Int[(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Tan[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Cot[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Tan[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Cot[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Tan[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Tan[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Cot[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cot[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Tan[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Tan[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Cot[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Cot[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Tan[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cot[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*Tan[c_.+d_.*x_^n_]^2,x_Symbol] :=
+  x^(m-n+1)*Tan[c+d*x^n]/(d*n) - Int[x^m,x] - (m-n+1)/(d*n)*Int[x^(m-n)*Tan[c+d*x^n],x] /;
+FreeQ[{c,d,m,n},x]
+
+
+Int[x_^m_.*Cot[c_.+d_.*x_^n_]^2,x_Symbol] :=
+  -x^(m-n+1)*Cot[c+d*x^n]/(d*n) - Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Cot[c+d*x^n],x] /;
+FreeQ[{c,d,m,n},x]
+
+
+(* Int[x_^m_.*Tan[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m-n+1)*Tan[a+b*x^n]^(p-1)/(b*n*(p-1)) - 
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Tan[a+b*x^n]^(p-1),x] - 
+  Int[x^m*Tan[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p>1 *)
+
+
+(* Int[x_^m_.*Cot[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^(m-n+1)*Cot[a+b*x^n]^(p-1)/(b*n*(p-1)) + 
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Cot[a+b*x^n]^(p-1),x] - 
+  Int[x^m*Cot[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p>1 *)
+
+
+(* Int[x_^m_.*Tan[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m-n+1)*Tan[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Tan[a+b*x^n]^(p+1),x] - 
+  Int[x^m*Tan[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p<-1 *)
+
+
+(* Int[x_^m_.*Cot[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^(m-n+1)*Cot[a+b*x^n]^(p+1)/(b*n*(p+1)) + 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cot[a+b*x^n]^(p+1),x] - 
+  Int[x^m*Cot[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p<-1 *)
+
+
+Int[x_^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Tan[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Cot[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Tan[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cot[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Tan[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Tan[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Cot[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Cot[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sec[a_.+b_.*x_^n_.]^p_.*Tan[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
+  x^(m-n+1)*Sec[a+b*x^n]^p/(b*n*p) -
+  (m-n+1)/(b*n*p)*Int[x^(m-n)*Sec[a+b*x^n]^p,x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
+
+
+Int[x_^m_.*Csc[a_.+b_.*x_^n_.]^p_.*Cot[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
+  -x^(m-n+1)*Csc[a+b*x^n]^p/(b*n*p) +
+  (m-n+1)/(b*n*p)*Int[x^(m-n)*Csc[a+b*x^n]^p,x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2.12 (d+e x)^m tan(a+b x+c x^2)^n*)
+
+
+Int[Tan[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Tan[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[Cot[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Cot[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(d_+e_.*x_)*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*Log[Cos[a+b*x+c*x^2]]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e]
+
+
+Int[(d_+e_.*x_)*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Log[Sin[a+b*x+c*x^2]]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e]
+
+
+Int[(d_.+e_.*x_)*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -e*Log[Cos[a+b*x+c*x^2]]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Tan[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e]
+
+
+Int[(d_.+e_.*x_)*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Log[Sin[a+b*x+c*x^2]]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Cot[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e]
+
+
+(* Int[x_^m_*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  -x^(m-1)*Log[Cos[a+b*x+c*x^2]]/(2*c) - 
+  b/(2*c)*Int[x^(m-1)*Tan[a+b*x+c*x^2],x] + 
+  (m-1)/(2*c)*Int[x^(m-2)*Log[Cos[a+b*x+c*x^2]],x] /;
+FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
+
+
+(* Int[x_^m_*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  x^(m-1)*Log[Sin[a+b*x+c*x^2]]/(2*c) -
+  b/(2*c)*Int[x^(m-1)*Cot[a+b*x+c*x^2],x] -
+  (m-1)/(2*c)*Int[x^(m-2)*Log[Sin[a+b*x+c*x^2]],x] /;
+FreeQ[{a,b,c},x] && RationalQ[m] && m>1*)
+
+
+Int[(d_.+e_.*x_)^m_.*Tan[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Tan[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[(d_.+e_.*x_)^m_.*Cot[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Cot[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+
+`)
+
+func resourcesRubi42TangentMBytes() ([]byte, error) {
+	return _resourcesRubi42TangentM, nil
+}
+
+func resourcesRubi42TangentM() (*asset, error) {
+	bytes, err := resourcesRubi42TangentMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/4.2 Tangent.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi43SecantM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Secant Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.1.1 (a+b sec)^n*)
+
+
+Int[csc[c_.+d_.*x_]^n_,x_Symbol] :=
+  -1/d*Subst[Int[ExpandIntegrand[(1+x^2)^(n/2-1),x],x],x,Cot[c+d*x]] /;
+FreeQ[{c,d},x] && PositiveIntegerQ[n/2]
+
+
+Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b*Cos[c+d*x]*(b*Csc[c+d*x])^(n-1)/(d*(n-1)) + 
+  b^2*(n-2)/(n-1)*Int[(b*Csc[c+d*x])^(n-2),x] /;
+FreeQ[{b,c,d},x] && n>1 && IntegerQ[2*n]
+
+
+Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Cos[c+d*x]*(b*Csc[c+d*x])^(n+1)/(b*d*n) + 
+  (n+1)/(b^2*n)*Int[(b*Csc[c+d*x])^(n+2),x] /;
+FreeQ[{b,c,d},x] && n<-1 && IntegerQ[2*n]
+
+
+Int[csc[c_.+d_.*x_],x_Symbol] :=
+(* -ArcCoth[Cos[c+d*x]]/d /; *)
+  -ArcTanh[Cos[c+d*x]]/d /;
+FreeQ[{c,d},x]
+
+
+(* Int[1/csc[c_.+d_.*x_],x_Symbol] :=
+  -Cos[c+d*x]/d /;
+FreeQ[{c,d},x] *)
+
+
+Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  (b*Csc[c+d*x])^n*Sin[c+d*x]^n*Int[1/Sin[c+d*x]^n,x] /;
+FreeQ[{b,c,d},x] && EqQ[n^2-1/4]
+
+
+Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  (b*Csc[c+d*x])^(n-1)*((Sin[c+d*x]/b)^(n-1)*Int[1/(Sin[c+d*x]/b)^n,x]) /;
+FreeQ[{b,c,d,n},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^2,x_Symbol] :=
+  a^2*x + 2*a*b*Int[Csc[c+d*x],x] + b^2*Int[Csc[c+d*x]^2,x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
+  -2*b/d*Subst[Int[1/(a+x^2),x],x,b*Cot[c+d*x]/Sqrt[a+b*Csc[c+d*x]]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n-2)/(d*(n-1)) + 
+  a/(n-1)*Int[(a+b*Csc[c+d*x])^(n-2)*(a*(n-1)+b*(3*n-4)*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
+
+
+Int[1/Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
+  1/a*Int[Sqrt[a+b*Csc[c+d*x]],x] - 
+  b/a*Int[Csc[c+d*x]/Sqrt[a+b*Csc[c+d*x]],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -Cot[c+d*x]*(a+b*Csc[c+d*x])^n/(d*(2*n+1)) + 
+  1/(a^2*(2*n+1))*Int[(a+b*Csc[c+d*x])^(n+1)*(a*(2*n+1)-b*(n+1)*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^n*Cot[c+d*x]/(d*Sqrt[1+Csc[c+d*x]]*Sqrt[1-Csc[c+d*x]])*
+    Subst[Int[(1+b*x/a)^(n-1/2)/(x*Sqrt[1-b*x/a]),x],x,Csc[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && PositiveQ[a]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^IntPart[n]*(a+b*Csc[c+d*x])^FracPart[n]/(1+b/a*Csc[c+d*x])^FracPart[n]*Int[(1+b/a*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && Not[PositiveQ[a]]
+
+
+Int[Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
+  2*(a+b*Csc[c+d*x])/(d*Rt[a+b,2]*Cot[c+d*x])*Sqrt[b*(1+Csc[c+d*x])/(a+b*Csc[c+d*x])]*Sqrt[-b*(1-Csc[c+d*x])/(a+b*Csc[c+d*x])]*
+    EllipticPi[a/(a+b),ArcSin[Rt[a+b,2]/Sqrt[a+b*Csc[c+d*x]]],(a-b)/(a+b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^(3/2),x_Symbol] :=
+  Int[(a^2+b*(2*a-b)*Csc[c+d*x])/Sqrt[a+b*Csc[c+d*x]],x] + 
+  b^2*Int[Csc[c+d*x]*(1+Csc[c+d*x])/Sqrt[a+b*Csc[c+d*x]],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n-2)/(d*(n-1)) + 
+  1/(n-1)*Int[(a+b*Csc[c+d*x])^(n-3)*
+    Simp[a^3*(n-1)+(b*(b^2*(n-2)+3*a^2*(n-1)))*Csc[c+d*x]+(a*b^2*(3*n-4))*Csc[c+d*x]^2,x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
+
+
+Int[1/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  x/a - 1/a*Int[1/(1+a/b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[1/Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
+  2*Rt[a+b,2]/(a*d*Cot[c+d*x])*Sqrt[b*(1-Csc[c+d*x])/(a+b)]*Sqrt[-b*(1+Csc[c+d*x])/(a-b)]*
+    EllipticPi[(a+b)/a,ArcSin[Sqrt[a+b*Csc[c+d*x]]/Rt[a+b,2]],(a+b)/(a-b)] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n+1)/(a*d*(n+1)*(a^2-b^2)) + 
+  1/(a*(n+1)*(a^2-b^2))*Int[(a+b*Csc[c+d*x])^(n+1)*Simp[(a^2-b^2)*(n+1)-a*b*(n+1)*Csc[c+d*x]+b^2*(n+2)*Csc[c+d*x]^2,x],x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.1.2 (d sec)^n (a+b sec)^m*)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a*Int[(d*Csc[e+f*x])^n,x] + b/d*Int[(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,n},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^2*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  2*a*b/d*Int[(d*Csc[e+f*x])^(n+1),x] + Int[(d*Csc[e+f*x])^n*(a^2+b^2*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,n},x]
+
+
+Int[csc[e_.+f_.*x_]^2/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  1/b*Int[Csc[e+f*x],x] - a/b*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[csc[e_.+f_.*x_]^3/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -Cot[e+f*x]/(b*f) - a/b*Int[Csc[e+f*x]^2/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandTrig[(a+b*csc[e+f*x])^m*(d*csc[e+f*x])^n,x],x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && RationalQ[n]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*b*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]) /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + a*(2*m-1)/m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m>1/2 && IntegerQ[2*m]
+
+
+Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -Cot[e+f*x]/(f*(b+a*Csc[e+f*x])) /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2/f*Subst[Int[1/(2*a+x^2),x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + (m+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2 && IntegerQ[2*m]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(2*m+1)) + 
+  m/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  a*m/(b*(m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) - 
+  1/(a^2*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(a*m-b*(2*m+1)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(b*(m+1)-a*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*a/(b*f)*Sqrt[a*d/b]*Subst[Int[1/Sqrt[1+x^2/a],x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && PositiveQ[a*d/b]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*b*d/f*Subst[Int[1/(b-d*x^2),x],x,b*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]])] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && Not[PositiveQ[a*d/b]]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*b*d*Cot[e+f*x]*(d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  2*a*d*(n-1)/(b*(2*n-1))*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*a*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]]) /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n*Sqrt[a+b*Csc[e+f*x]]) + 
+  a*(2*n+1)/(2*b*d*n)*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2 && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*d*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*Subst[Int[(d*x)^(n-1)/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -Sqrt[2]*Sqrt[a]/(b*f)*Subst[Int[1/Sqrt[1+x^2],x],x,b*Cot[e+f*x]/(a+b*Csc[e+f*x])] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b] && PositiveQ[a]
+
+
+Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*b*d/(a*f)*Subst[Int[1/(2*b-d*x^2),x],x,b*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]])] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*m) + 
+  b*(2*m-1)/(d*m)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n] && RationalQ[m] && m>1/2 && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) + 
+  d*(m+1)/(b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n] && RationalQ[m] && m<-1/2 && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(2*m+1)) + 
+  m/(a*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m+n+1==0 && m<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+1)) + 
+  a*m/(b*d*(m+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*n) - 
+  a/(d*n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n+1)*(b*(m-2*n-2)-a*(m+2*n-1)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m>1 && (n<-1 || m==3/2 && n==-1/2) && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*(m+n-1)) + 
+  b/(m+n-1)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n*(b*(m+2*n-1)+a*(3*m+2*n-4)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m>1 && NeQ[m+n-1] && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) - 
+  d/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*(a*(n-1)-b*(m+n)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 1<n<2 && (IntegersQ[2*m,2*n] || IntegerQ[m])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(2*m+1)) + 
+  d^2/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*(b*(n-2)+a*(m-n+2)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>2 && (IntegersQ[2*m,2*n] || IntegerQ[m])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(2*m+1)) + 
+  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*(a*(2*m+n+1)-b*(m+n+1)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && (IntegersQ[2*m,2*n] || IntegerQ[m])
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  d^2*Cot[e+f*x]*(d*Csc[e+f*x])^(n-2)/(f*(a+b*Csc[e+f*x])) - 
+  d^2/(a*b)*Int[(d*Csc[e+f*x])^(n-2)*(b*(n-2)-a*(n-1)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(a+b*Csc[e+f*x])) - 
+  1/a^2*Int[(d*Csc[e+f*x])^n*(a*(n-1)-b*n*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<0
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*d*Cot[e+f*x]*(d*Csc[e+f*x])^(n-1)/(a*f*(a+b*Csc[e+f*x])) + 
+  d*(n-1)/(a*b)*Int[(d*Csc[e+f*x])^(n-1)*(a-b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  d/b*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] - 
+  a*d/b*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*d^2*Cot[e+f*x]*(d*Csc[e+f*x])^(n-2)/(f*(2*n-3)*Sqrt[a+b*Csc[e+f*x]]) + 
+  d^2/(b*(2*n-3))*Int[(d*Csc[e+f*x])^(n-2)*(2*b*(n-2)-a*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n*Sqrt[a+b*Csc[e+f*x]]) + 
+  1/(2*b*d*n)*Int[(d*Csc[e+f*x])^(n+1)*(a+b*(2*n+1)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<0 && IntegerQ[2*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(m+n-1)) + 
+  d^2/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)*(b*(n-2)+a*m*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2-b^2] && RationalQ[n] && n>2 && NeQ[m+n-1] && IntegerQ[n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(a*d/b)^n*Cot[e+f*x]/(a^(n-2)*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
+    Subst[Int[(a-x)^(n-1)*(2*a-x)^(m-1/2)/Sqrt[x],x],x,a-b*Csc[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[IntegerQ[n]] && PositiveQ[a*d/b]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -(-a*d/b)^n*Cot[e+f*x]/(a^(n-1)*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
+    Subst[Int[x^(m-1/2)*(a-x)^(n-1)/Sqrt[2*a-x],x],x,a+b*Csc[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[IntegerQ[n]] && NegativeQ[a*d/b]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^2*d*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
+    Subst[Int[(d*x)^(n-1)*(a+b*x)^(m-1/2)/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^IntPart[m]*(a+b*Csc[e+f*x])^FracPart[m]/(1+b/a*Csc[e+f*x])^FracPart[m]*Int[(1+b/a*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[PositiveQ[a]]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  (a-b)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + b*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
+  1/m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(b^2*(m-1)+a^2*m+a*b*(2*m-1)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && IntegerQ[2*m]
+
+
+(* Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -2/f*Subst[Int[1/(a+b-(a-b)*x^2),x],x,Cot[e+f*x]/(1+Csc[e+f*x])] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] *)
+
+
+Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  1/b*Int[1/(1+a/b*Sin[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*Rt[a+b,2]/(b*f*Cot[e+f*x])*Sqrt[(b*(1-Csc[e+f*x]))/(a+b)]*Sqrt[-b*(1+Csc[e+f*x])/(a-b)]*
+    EllipticF[ArcSin[Sqrt[a+b*Csc[e+f*x]]/Rt[a+b,2]],(a+b)/(a-b)] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(a*(m+1)-b*(m+2)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+ Cot[e+f*x]/(f*Sqrt[1+Csc[e+f*x]]*Sqrt[1-Csc[e+f*x]])*Subst[Int[(a+b*x)^m/(Sqrt[1+x]*Sqrt[1-x]),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  m/(m+1)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(b+a*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  a*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) - 
+  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(b*(m+1)-a*(m+2)*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]^2/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -a/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] + 1/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -a^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
+  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[a*b*(m+1)-(a^2+b^2*(m+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(b*(m+1)-a*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-3)*(d*Csc[e+f*x])^(n+1)*
+    Simp[a^2*b*(m-2*n-2)-a*(3*b^2*n+a^2*(n+1))*Csc[e+f*x]-b*(b^2*n+a^2*(m+n-1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>2 && (IntegerQ[m] && n<-1 || IntegersQ[m+1/2,2*n] && n<=-1)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*(m+n-1)) + 
+  1/(d*(m+n-1))*Int[(a+b*Csc[e+f*x])^(m-3)*(d*Csc[e+f*x])^n*
+    Simp[a^3*d*(m+n-1)+a*b^2*d*n+b*(b^2*d*(m+n-2)+3*a^2*d*(m+n-1))*Csc[e+f*x]+a*b^2*d*(3*m+2*n-4)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>2 && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>2 && Not[IntegerQ[m]]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[b*d*(n-1)+a*d*(m+1)*Csc[e+f*x]-b*d*(m+n+1)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 0<n<1 && IntegersQ[2*m,2*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(f*(m+1)*(a^2-b^2)) - 
+  d^2/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*(a*(n-2)+b*(m+1)*Csc[e+f*x]-a*(m+n)*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 1<n<2 && IntegersQ[2*m,2*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a^2*d^3*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)/(b*f*(m+1)*(a^2-b^2)) + 
+  d^3/(b*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)*
+    Simp[a^2*(n-3)+a*b*(m+1)*Csc[e+f*x]-(a^2*(n-2)+b^2*(m+1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && (IntegerQ[n] && n>3 || IntegersQ[n+1/2,2*m] && n>2)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) - 
+  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
+    Simp[b*(m+n+1)-a*(n+1)*Csc[e+f*x]-b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+1/2,n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    (a^2*(m+1)-b^2*(m+n+1)-a*b*(m+1)*Csc[e+f*x]+b^2*(m+n+2)*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n]
+
+
+Int[Sqrt[d_.*csc[e_.+f_.*x_]]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  Sqrt[d*Sin[e+f*x]]*Sqrt[d*Csc[e+f*x]]/d*Int[Sqrt[d*Sin[e+f*x]]/(b+a*Sin[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^(3/2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  d*Sqrt[d*Sin[e+f*x]]*Sqrt[d*Csc[e+f*x]]*Int[1/(Sqrt[d*Sin[e+f*x]]*(b+a*Sin[e+f*x])),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^(5/2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  d/b*Int[(d*Csc[e+f*x])^(3/2),x] - a*d/b*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -d^3*Cot[e+f*x]*(d*Csc[e+f*x])^(n-3)/(b*f*(n-2)) + 
+  d^3/(b*(n-2))*Int[(d*Csc[e+f*x])^(n-3)*Simp[a*(n-3)+b*(n-3)*Csc[e+f*x]-a*(n-2)*Csc[e+f*x]^2,x]/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>3
+
+
+Int[1/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  b^2/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
+  1/a^2*Int[(a-b*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  Cot[e+f*x]*(d*Csc[e+f*x])^n/(a*f*n) - 
+  1/(a*d*n)*Int[(d*Csc[e+f*x])^(n+1)/(a+b*Csc[e+f*x])*
+    Simp[b*n-a*(n+1)*Csc[e+f*x]-b*(n+1)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  a*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  b/d*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*d*Cos[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n-1)/(f*(2*n-1)) + 
+  d^2/(2*n-1)*Int[(d*Csc[e+f*x])^(n-2)*Simp[2*a*(n-2)+b*(2*n-3)*Csc[e+f*x]+a*Csc[e+f*x]^2,x]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[a+b*Csc[e+f*x]]/(Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]])*Int[Sqrt[b+a*Sin[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Cot[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(2*d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[b-2*a*(n+1)*Csc[e+f*x]-b*(2*n+3)*Csc[e+f*x]^2,x]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
+
+
+Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/Sqrt[b+a*Sin[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  d*Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/(Sin[e+f*x]*Sqrt[b+a*Sin[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*d^2*Cos[e+f*x]*(d*Csc[e+f*x])^(n-2)*Sqrt[a+b*Csc[e+f*x]]/(b*f*(2*n-3)) + 
+  d^3/(b*(2*n-3))*Int[(d*Csc[e+f*x])^(n-3)/Sqrt[a+b*Csc[e+f*x]]*
+     Simp[2*a*(n-3)+b*(2*n-5)*Csc[e+f*x]-2*a*(n-2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
+
+
+Int[1/(csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  -Cos[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(a*f) - b/(2*a)*Int[(1+Csc[e+f*x]^2)/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  1/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] - 
+  b/(a*d)*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Cos[e+f*x]*(d*Csc[e+f*x])^(n+1)*Sqrt[a+b*Csc[e+f*x]]/(a*d*f*n) + 
+  1/(2*a*d*n)*Int[(d*Csc[e+f*x])^(n+1)/Sqrt[a+b*Csc[e+f*x]]*
+    Simp[-b*(2*n+1)+2*a*(n+1)*Csc[e+f*x]+b*(2*n+3)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*Cot[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n/(f*n) + 
+  1/(2*d*n)*Int[(d*Csc[e+f*x])^(n+1)/Sqrt[a+b*Csc[e+f*x]]*
+    Simp[a*b*(2*n-1)+2*(b^2*n+a^2*(n+1))*Csc[e+f*x]+a*b*(2*n+3)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegersQ[2*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d^3*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)/(b*f*(m+n-1)) + 
+  d^3/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-3)*
+    Simp[a*(n-3)+b*(m+n-2)*Csc[e+f*x]-a*(n-2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>3 && 
+  (IntegerQ[n] || IntegersQ[2*m,2*n]) && Not[IntegerQ[m] && m>2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-1)/(f*(m+n-1)) + 
+  d/(m+n-1)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n-1)*
+    Simp[a*b*(n-1)+(b^2*(m+n-2)+a^2*(m+n-1))*Csc[e+f*x]+a*b*(2*m+n-2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<2 && 0<n<3 && NeQ[m+n-1] && 
+  (IntegerQ[m] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(m+n-1)) + 
+  d^2/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-2)*
+    Simp[a*b*(n-2)+b^2*(m+n-2)*Csc[e+f*x]+a*b*m*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && -1<m<2 && 1<n<3 && NeQ[m+n-1] && 
+  (IntegerQ[n] || IntegersQ[2*m,2*n])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] + 
+  b/d*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b/d*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1),x] + 
+  a*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,n},x] && PositiveIntegerQ[m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,m,n},x]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_*(a_.+b_.*sec[e_.+f_.*x_])^p_,x_Symbol] :=
+  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*Sec[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.1.3 (d sin)^n (a+b sec)^m*)
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Int[(g*Cos[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
+FreeQ[{a,b,e,f,g,p},x] && IntegerQ[m]
+
+
+Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -1/(f*b^(p-1))*Subst[Int[(-a+b*x)^((p-1)/2)*(a+b*x)^(m+(p-1)/2)/x^(p+1),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2]
+
+
+Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  -1/f*Subst[Int[(-1+x)^((p-1)/2)*(1+x)^((p-1)/2)*(a+b*x)^m/x^(p+1),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_/cos[e_.+f_.*x_]^2,x_Symbol] :=
+  Tan[e+f*x]*(a+b*Csc[e+f*x])^m/f + b*m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1),x] /;
+FreeQ[{a,b,e,f,m},x]
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  Sin[e+f*x]^FracPart[m]*(a+b*Csc[e+f*x])^FracPart[m]/(b+a*Sin[e+f*x])^FracPart[m]*
+    Int[(g*Cos[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && (EqQ[a^2-b^2] || IntegersQ[2*m,p])
+
+
+Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Defer[Int][(g*Cos[e+f*x])^p*(a+b*Csc[e+f*x])^m,x] /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+(* Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
+  Int[(g*Sec[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
+FreeQ[{a,b,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] *)
+
+
+Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
+  g^IntPart[p]*(g*Sec[e+f*x])^FracPart[p]*Cos[e+f*x]^FracPart[p]*Int[(a+b*Csc[e+f*x])^m/Cos[e+f*x]^p,x] /;
+FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.1.4 (d tan)^n (a+b sec)^m*)
+
+
+Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
+  1/(a^(m-n-1)*b^n*d)*Subst[Int[(a-b*x)^((m-1)/2)*(a+b*x)^((m-1)/2+n)/x^(m+n),x],x,Sin[c+d*x]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[(m-1)/2] && EqQ[a^2-b^2] && IntegerQ[n]
+
+
+Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -1/(d*b^(m-1))*Subst[Int[(-a+b*x)^((m-1)/2)*(a+b*x)^((m-1)/2+n)/x,x],x,Csc[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[(m-1)/2] && EqQ[a^2-b^2] && Not[IntegerQ[n]]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  -e*(e*Cot[c+d*x])^(m-1)*(a*m+b*(m-1)*Csc[c+d*x])/(d*m*(m-1)) - 
+  e^2/m*Int[(e*Cot[c+d*x])^(m-2)*(a*m+b*(m-1)*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  -(e*Cot[c+d*x])^(m+1)*(a+b*Csc[c+d*x])/(d*e*(m+1)) - 
+  1/(e^2*(m+1))*Int[(e*Cot[c+d*x])^(m+2)*(a*(m+1)+b*(m+2)*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1
+
+
+Int[(a_+b_.*csc[c_.+d_.*x_])/cot[c_.+d_.*x_],x_Symbol] :=
+  Int[(b+a*Sin[c+d*x])/Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_.*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  a*Int[(e*Cot[c+d*x])^m,x] + b*Int[(e*Cot[c+d*x])^m*Csc[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m},x]
+
+
+Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -(-1)^((m-1)/2)/(d*b^(m-1))*Subst[Int[(b^2-x^2)^((m-1)/2)*(a+x)^n/x,x],x,b*Csc[c+d*x]] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[(m-1)/2] && NeQ[a^2-b^2]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(e*Cot[c+d*x])^m,(a+b*Csc[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n]
+
+
+Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -2*a^(m/2+n+1/2)/d*Subst[Int[x^m*(2+a*x^2)^(m/2+n-1/2)/(1+a*x^2),x],x,Cot[c+d*x]/Sqrt[a+b*Csc[c+d*x]]] /;
+FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && IntegerQ[m/2] && IntegerQ[n-1/2]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  a^(2*n)*e^(-2*n)*Int[(e*Cot[c+d*x])^(m+2*n)/(-a+b*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[a^2-b^2] && NegativeIntegerQ[n]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  -2^(m+n+1)*(e*Cot[c+d*x])^(m+1)*(a+b*Csc[c+d*x])^n/(d*e*(m+1))*(a/(a+b*Csc[c+d*x]))^(m+n+1)*
+    AppellF1[(m+1)/2,m+n,1,(m+3)/2,-(a-b*Csc[c+d*x])/(a+b*Csc[c+d*x]),(a-b*Csc[c+d*x])/(a+b*Csc[c+d*x])] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[n]]
+
+
+Int[Sqrt[e_.*cot[c_.+d_.*x_]]/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  1/a*Int[Sqrt[e*Cot[c+d*x]],x] - b/a*Int[Sqrt[e*Cot[c+d*x]]/(b+a*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  -e^2/b^2*Int[(e*Cot[c+d*x])^(m-2)*(a-b*Csc[c+d*x]),x] + 
+  e^2*(a^2-b^2)/b^2*Int[(e*Cot[c+d*x])^(m-2)/(a+b*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m-1/2]
+
+
+Int[1/(Sqrt[e_.*cot[c_.+d_.*x_]]*(a_+b_.*csc[c_.+d_.*x_])),x_Symbol] :=
+  1/a*Int[1/Sqrt[e*Cot[c+d*x]],x] - b/a*Int[1/(Sqrt[e*Cot[c+d*x]]*(b+a*Sin[c+d*x])),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
+  1/(a^2-b^2)*Int[(e*Cot[c+d*x])^m*(a-b*Csc[c+d*x]),x] + 
+  b^2/(e^2*(a^2-b^2))*Int[(e*Cot[c+d*x])^(m+2)/(a+b*Csc[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+1/2]
+
+
+Int[cot[c_.+d_.*x_]^2*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[(-1+Csc[c+d*x]^2)*(a+b*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(e*Cot[c+d*x])^m,(a+b*Csc[c+d*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[a^2-b^2] && PositiveIntegerQ[n]
+
+
+Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[Cos[c+d*x]^m*(b+a*Sin[c+d*x])^n/Sin[c+d*x]^(m+n),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && IntegerQ[n] && IntegerQ[m] && (IntegerQ[m/2] || m<=1)
+
+
+(* Int[cot[c_.+d_.*x_]^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*Csc[c+d*x])^n,(-1+Csc[c+d*x]^2)^(m/2),x],x] /;
+FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m/2] *)
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_.*(a_.+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(e*Cot[c+d*x])^m*(a+b*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*sec[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e*Cot[c+d*x])^m*Tan[c+d*x]^m*Int[(a+b*Sec[c+d*x])^n/Tan[c+d*x]^m,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[m]]
+
+
+Int[(e_.*tan[c_.+d_.*x_]^p_)^m_*(a_+b_.*sec[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e*Tan[c+d*x]^p)^m/(e*Tan[c+d*x])^(m*p)*Int[(e*Tan[c+d*x])^(m*p)*(a+b*Sec[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[(e_.*cot[c_.+d_.*x_]^p_)^m_*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e*Cot[c+d*x]^p)^m/(e*Cot[c+d*x])^(m*p)*Int[(e*Cot[c+d*x])^(m*p)*(a+b*Csc[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.2.1 (a+b sec)^m (c+d sec)^n*)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  c^n*Int[ExpandTrig[(1+d/c*csc[e+f*x])^n,(a+b*csc[e+f*x])^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && NegativeIntegerQ[n] && m+n<2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (-a*c)^m*Int[Cot[e+f*x]^(2*m)*(c+d*Csc[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[n] && Not[IntegerQ[n] && m-n>0]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[Cot[e+f*x]^(2*m),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  2*a*c*Cot[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n>1/2
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -2*a*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  1/c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  -4*a^2*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  a/c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  -2*a^2*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  a*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[n] && n<=-1/2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(5/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  -8*a^3*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  a^2/c^2*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
+    Subst[Int[(b+a*x)^(m-1/2)*(d+c*x)^(n-1/2)/x^(m+n),x],x,Sin[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && EqQ[m+n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)/x,x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*c*x + b*d*Int[Csc[e+f*x]^2,x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*c*x + (b*c+a*d)*Int[Csc[e+f*x],x] + b*d*Int[Csc[e+f*x]^2,x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[b*c+a*d]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  c*Int[Sqrt[a+b*Csc[e+f*x]],x] + d*Int[Sqrt[a+b*Csc[e+f*x]]*Csc[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + 
+ Int[Csc[e+f*x]*(b*c+a*d+b*d*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
+  1/m*Int[(a+b*Csc[e+f*x])^(m-1)*Simp[a*c*m+(b*c*m+a*d*(2*m-1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m>1 && EqQ[a^2-b^2] && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
+  1/m*Int[(a+b*Csc[e+f*x])^(m-2)*
+    Simp[a^2*c*m+(b^2*d*(m-1)+2*a*b*c*m+a^2*d*m)*Csc[e+f*x]+b*(b*c*m+a*d*(2*m-1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m>1 && NeQ[a^2-b^2] && IntegerQ[2*m]
+
+
+Int[(c_+d_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  c*x/a - (b*c-a*d)/a*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[(c_+d_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  c/a*Int[Sqrt[a+b*Csc[e+f*x]],x] - (b*c-a*d)/a*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[(c_+d_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -(b*c-a*d)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)) + 
+  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[a*c*(2*m+1)-(b*c-a*d)*(m+1)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && EqQ[a^2-b^2] && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  b*(b*c-a*d)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
+    Simp[c*(a^2-b^2)*(m+1)-(a*(b*c-a*d)*(m+1))*Csc[e+f*x]+b*(b*c-a*d)*(m+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2-b^2] && IntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  c*Int[(a+b*Csc[e+f*x])^m,x] + d*Int[(a+b*Csc[e+f*x])^m*Csc[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && Not[IntegerQ[2*m]]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  1/c*Int[Sqrt[a+b*Csc[e+f*x]],x] - d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a/c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + (b*c-a*d)/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a/c*Int[Sqrt[a+b*Csc[e+f*x]],x] + (b*c-a*d)/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+(* Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  b/d*Int[Sqrt[a+b*Csc[e+f*x]],x] - (b*c-a*d)/d*Int[Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] *)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  1/(c*d)*Int[(a^2*d+b^2*c*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] - 
+  (b*c-a*d)^2/(c*d)*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  1/(c*(b*c-a*d))*Int[(b*c-a*d-b*d*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + 
+  d^2/(c*(b*c-a*d))*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  1/c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] - d/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]/Cot[e+f*x]*Int[Cot[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  c*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] + 
+  d*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  1/c*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]],x] - 
+  d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*a/f*Subst[Int[1/(1+a*c*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  a/c*Int[Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  (b*c-a*d)/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  2*(a+b*Csc[e+f*x])/(c*f*Rt[(a+b)/(c+d),2]*Cot[e+f*x])*
+    Sqrt[(b*c-a*d)*(1+Csc[e+f*x])/((c-d)*(a+b*Csc[e+f*x]))]*
+    Sqrt[-(b*c-a*d)*(1-Csc[e+f*x])/((c+d)*(a+b*Csc[e+f*x]))]*
+    EllipticPi[a*(c+d)/(c*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[1/Cot[e+f*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  1/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] - 
+  b/a*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  1/c*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] - 
+  d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x])^(3/2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[c^2-d^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^2*(Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]]))*
+    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^n/(x*Sqrt[a-b*x]),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m-1/2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m] && IntegerQ[n] && MemberQ[{0,-1,-2},m+n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Sqrt[d+c*Sin[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(Sqrt[b+a*Sin[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
+    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && MemberQ[{0,-1,-2},m+n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Sin[e+f*x]^(m+n)*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/((b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n)*
+    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^Simplify[m+n],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[m+n] && Not[IntegerQ[2*m]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(a+b*csc[e+f*x])^m,(c+d*csc[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_./sec[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_.+b_.*csc[e_.+f_.*x_])^m_.*(d_./csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  d^m*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Sec[e + f*x])^p)^FracPart[n]/(d*Sec[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
+  c^IntPart[n]*(c*(d*Csc[e + f*x])^p)^FracPart[n]/(d*Csc[e + f*x])^(p*FracPart[n])*
+    Int[(a+b*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n*p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.2.2 (g sec)^p (a+b sec)^m (c+d sec)^n*)
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+1] && NeQ[2*m+1]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
+  (m+n+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[m+n+1] && NeQ[2*m+1] && 
+  Not[RationalQ[n] && n<0] && Not[PositiveIntegerQ[n+1/2] && n+1/2<-(m+n)]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  a*c*Log[1+b/a*Csc[e+f*x]]*Cot[e+f*x]/(b*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]) /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)*Sqrt[c+d*Csc[e+f*x]]) /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NeQ[m+1/2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(b*f*(2*m+1)) - 
+  d*(2*n-1)/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2] && RationalQ[m] && m<-1/2
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
+  c*(2*n-1)/(m+n)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2] && Not[RationalQ[m] && m<-1/2] && 
+  Not[PositiveIntegerQ[m-1/2] && m<n]
+
+
+Int[csc[e_.+f_.*x_]*(c_+d_.*csc[e_.+f_.*x_])^n_./Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*d*Cot[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  2*c*(2*n-1)/(2*n-1)*Int[Csc[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(b*f*(2*m+1)) - 
+  d*(2*n-1)/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n] && m<-1/2 && IntegerQ[2*m]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (-a*c)^m*Int[ExpandTrig[csc[e+f*x]*cot[e+f*x]^(2*m),(c+d*csc[e+f*x])^(n-m),x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n] && n-m>=0 && m*n>0
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[Csc[e+f*x]*Cot[e+f*x]^(2*m),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
+  (m+n+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (NegativeIntegerQ[m,n-1/2] || NegativeIntegerQ[m-1/2,n-1/2] && m<n)
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  (-a*c)^m*Int[ExpandTrig[(g*csc[e+f*x])^p*cot[e+f*x]^(2*m),(c+d*csc[e+f*x])^(n-m),x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n] && n-m>=0 && m*n>0
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
+  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[(g*Csc[e+f*x])^p*Cot[e+f*x]^(2*m),x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a*c*g*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
+    Subst[Int[(g*x)^(p-1)*(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2),x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[g_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -2*b*g/f*Subst[Int[1/(b*c+a*d-c*g*x^2),x],x,b*Cot[e+f*x]/(Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[Sqrt[g_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a/c*Int[Sqrt[g*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  (b*c-a*d)/(c*g)*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -2*b/f*Subst[Int[1/(b*c+a*d+d*x^2),x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -Sqrt[a+b*Csc[e+f*x]]*Sqrt[c/(c+d*Csc[e+f*x])]/(d*f*Sqrt[c*d*(a+b*Csc[e+f*x])/((b*c+a*d)*(c+d*Csc[e+f*x]))])*
+    EllipticE[ArcSin[c*Cot[e+f*x]/(c+d*Csc[e+f*x])],-(b*c-a*d)/(b*c+a*d)] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  b/d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
+  (b*c-a*d)/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  g/d*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]],x] - 
+  c*g/d*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  b/d*Int[(g*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] - 
+  (b*c-a*d)/d*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  b/(b*c-a*d)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
+  d/(b*c-a*d)*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  -2*Cot[e+f*x]/(f*(c+d)*Sqrt[a+b*Csc[e+f*x]]*Sqrt[-Cot[e+f*x]^2])*Sqrt[(a+b*Csc[e+f*x])/(a+b)]*
+    EllipticPi[2*d/(c+d),ArcSin[Sqrt[1-Csc[e+f*x]]/Sqrt[2]],2*b/(a+b)] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(3/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  -a*g/(b*c-a*d)*Int[Sqrt[g*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  c*g/(b*c-a*d)*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(3/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  g*Sqrt[g*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/(Sqrt[b+a*Sin[e+f*x]]*(d+c*Sin[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  -a/(b*c-a*d)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  c/(b*c-a*d)*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
+
+
+Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  1/d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
+  c/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(5/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  -c^2*g^2/(d*(b*c-a*d))*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] + 
+  g^2/(d*(b*c-a*d))*Int[Sqrt[g*Csc[e+f*x]]*(a*c+(b*c-a*d)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^(5/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  g/d*Int[(g*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] - 
+  c*g/d*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*b/f*Subst[Int[1/(1-b*d*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -(b*c-a*d)/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
+  b/d*Int[Csc[e+f*x]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*(a+b*Csc[e+f*x])/(d*f*Sqrt[(a+b)/(c+d)]*Cot[e+f*x])*
+    Sqrt[-(b*c-a*d)*(1-Csc[e+f*x])/((c+d)*(a+b*Csc[e+f*x]))]*Sqrt[(b*c-a*d)*(1+Csc[e+f*x])/((c-d)*(a+b*Csc[e+f*x]))]*
+    EllipticPi[b*(c+d)/(d*(a+b)),ArcSin[Sqrt[(a+b)/(c+d)]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  -2*a/(b*f)*Subst[Int[1/(2+(a*c-b*d)*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  -2*(c+d*Csc[e+f*x])/(f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cot[e+f*x])*
+    Sqrt[(b*c-a*d)*(1-Csc[e+f*x])/((a+b)*(c+d*Csc[e+f*x]))]*Sqrt[-(b*c-a*d)*(1+Csc[e+f*x])/((a-b)*(c+d*Csc[e+f*x]))]*
+    EllipticF[ArcSin[Rt[(c+d)/(a+b),2]*(Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]])],(a+b)*(c-d)/((a-b)*(c+d))] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  -a/b*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
+  1/b*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
+
+
+Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_])^(3/2),x_Symbol] :=
+  (a-b)/(c-d)*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
+  (b*c-a*d)/(c-d)*Int[Csc[e+f*x]*(1+Csc[e+f*x])/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(3/2)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^2*g*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
+    Subst[Int[(g*x)^(p-1)*(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && (EqQ[p-1] || IntegerQ[m-1/2])
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  1/g^(m+n)*Int[(g*Csc[e+f*x])^(m+n+p)*(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && IntegerQ[m] && IntegerQ[n]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (g*Csc[e+f*x])^(m+p)*(c+d*Csc[e+f*x])^n/(g^m*(d+c*Sin[e+f*x])^n)*Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n+p] && IntegerQ[m]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (g*Csc[e+f*x])^p*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/((b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n)*
+    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n+p] && Not[IntegerQ[m]]
+
+
+Int[csc[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Sqrt[d+c*Sin[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(Sqrt[b+a*Sin[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
+    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n+p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m-1/2] && IntegerQ[n-1/2] && IntegerQ[p] && MemberQ[{-1,-2},m+n+p]
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Int[ExpandTrig[(g*csc[e+f*x])^p*(a+b*csc[e+f*x])^m*(c+d*csc[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && (IntegersQ[m,n] || IntegersQ[m,p] || IntegersQ[n,p])
+
+
+Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_*(c_.+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(g*Csc[e+f*x])^p*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+Int[sec[e_.+f_.*x_]*(A_+B_.*sec[e_.+f_.*x_])/(Sqrt[a_+b_.*sec[e_.+f_.*x_]]*(c_+d_.*sec[e_.+f_.*x_])^(3/2)),x_Symbol] :=
+  2*A*(1+Sec[e+f*x])*Sqrt[(b*c-a*d)*(1-Sec[e+f*x])/((a+b)*(c+d*Sec[e+f*x]))]/
+    (f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Tan[e+f*x]*Sqrt[-(b*c-a*d)*(1+Sec[e+f*x])/((a-b)*(c+d*Sec[e+f*x]))])*
+    EllipticE[ArcSin[Rt[(c+d)/(a+b),2]*Sqrt[a+b*Sec[e+f*x]]/Sqrt[c+d*Sec[e+f*x]]],(a+b)*(c-d)/((a-b)*(c+d))] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B]
+
+
+Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^(3/2)),x_Symbol] :=
+  -2*A*(1+Csc[e+f*x])*Sqrt[(b*c-a*d)*(1-Csc[e+f*x])/((a+b)*(c+d*Csc[e+f*x]))]/
+    (f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cot[e+f*x]*Sqrt[-(b*c-a*d)*(1+Csc[e+f*x])/((a-b)*(c+d*Csc[e+f*x]))])*
+    EllipticE[ArcSin[Rt[(c+d)/(a+b),2]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]]],(a+b)*(c-d)/((a-b)*(c+d))] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.3.1 (a+b sec)^m (d sec)^n (A+B sec)*)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
+  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[n*(B*a+A*b)+(B*b*n+A*a*(n+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && RationalQ[n] && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_.*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+1)) + 
+  1/(n+1)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+1)+B*b*n+(A*b+B*a)*(n+1)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && Not[RationalQ[n] && n<=-1]
+
+
+Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  B/b*Int[Csc[e+f*x],x] + (A*b-a*B)/b*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) /;
+FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[a*B*m+A*b*(m+1)]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
+  (a*B*m+A*b*(m+1))/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[a*B*m+A*b*(m+1)] && RationalQ[m] && m<-1/2
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  (a*B*m+A*b*(m+1))/(b*(m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] /;
+FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[a*B*m+A*b*(m+1)] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  1/(m+1)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*Simp[b*B*m+a*A*(m+1)+(a*B*m+A*b*(m+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m>0
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[(a*A-b*B)*(m+1)-(A*b-a*B)*(m+2)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  -2*(A*b-a*B)*Rt[a+b*B/A,2]*Sqrt[b*(1-Csc[e+f*x])/(a+b)]*Sqrt[-b*(1+Csc[e+f*x])/(a-b)]/(b^2*f*Cot[e+f*x])*
+    EllipticE[ArcSin[Sqrt[a+b*Csc[e+f*x]]/Rt[a+b*B/A,2]],(a*A+b*B)/(a*A-b*B)] /;
+FreeQ[{a,b,e,f,A,B},x] && NeQ[a^2-b^2] && EqQ[A^2-B^2]
+
+
+Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  (A-B)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  B*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f,A,B},x] && NeQ[a^2-b^2] && NeQ[A^2-B^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  2*Sqrt[2]*A*(a+b*Csc[e+f*x])^m*(A-B*Csc[e+f*x])*Sqrt[(A+B*Csc[e+f*x])/A]/(B*f*Cot[e+f*x]*(A*(a+b*Csc[e+f*x])/(a*A+b*B))^m)*
+    AppellF1[1/2,-(1/2),-m,3/2,(A-B*Csc[e+f*x])/(2*A),(b*(A-B*Csc[e+f*x]))/(A*b+a*B)] /;
+FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && EqQ[A^2-B^2] && Not[IntegerQ[2*m]]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] + B/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)) + 
+  1/(b^2*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*m-a*B*m+b*B*(2*m+1)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) - 
+  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[b*(A*b-a*B)*(m+1)-(a*A*b*(m+2)-B*(a^2+b^2*(m+1)))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*B*(m+1)+(A*b*(m+2)-a*B)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,m},x] && NeQ[A*b-a*B] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) /;
+FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && EqQ[a*A*m-b*B*n]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(b*f*(2*m+1)) + 
+  (a*A*m+b*B*(m+1))/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && RationalQ[m] && m<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  (a*A*m-b*B*n)/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<=-1]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -2*b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[A*b*(2*n+1)+2*a*B*n]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*b^2*Cot[e+f*x]*(d*Csc[e+f*x])^n/(a*f*n*Sqrt[a+b*Csc[e+f*x]]) + 
+  (A*b*(2*n+1)+2*a*B*n)/(2*a*d*n)*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n+1),x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[A*b*(2*n+1)+2*a*B*n] && RationalQ[n] && n<0
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -2*b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
+  (A*b*(2*n+1)+2*a*B*n)/(b*(2*n+1))*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[A*b*(2*n+1)+2*a*B*n] && Not[RationalQ[n] && n<0]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*n) - 
+  b/(a*d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*Simp[a*A*(m-n-1)-b*B*n-(a*B*n+A*b*(m+n))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m,n] && m>1/2 && n<-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*(m+n)) + 
+  1/(d*(m+n))*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*Simp[a*A*d*(m+n)+B*(b*d*n)+(A*b*d*(m+n)+a*B*d*(2*m+n-1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m>1/2 && Not[RationalQ[n] && n<-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  d*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[A*(a*d*(n-1))-B*(b*d*(n-1))-d*(a*B*(m-n+1)+A*b*(m+n))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1/2 && n>0
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(b*f*(2*m+1)) - 
+  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[b*B*n-a*A*(2*m+n+1)+(A*b-a*B)*(m+n+1)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2 && Not[RationalQ[n] && n>0]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
+  d/(b*(m+n))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*Simp[b*B*(n-1)+(A*b*(m+n)+a*B*m)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[n] && n>1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*B*n-A*b*(m+n+1)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[n] && n<0
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  (A*b-a*B)/b*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] + 
+  B/b*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*n) + 
+  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n+1)*
+    Simp[a*(a*B*n-A*b*(m-n-1))+(2*a*b*B*n+A*(b^2*n+a^2*(1+n)))*Csc[e+f*x]+b*(b*B*n+a*A*(m+n))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m>1 && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -b*B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*(m+n)) + 
+  1/(m+n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n*
+    Simp[a^2*A*(m+n)+a*b*B*n+(a*(2*A*b+a*B)*(m+n)+b^2*B*(m+n-1))*Csc[e+f*x]+b*(A*b*(m+n)+a*B*(2*m+n-1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && 
+  Not[IntegerQ[n] && n>1 && Not[IntegerQ[m]]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -d*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
+  1/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[d*(n-1)*(A*b-a*B)+d*(a*A-b*B)*(m+1)*Csc[e+f*x]-d*(A*b-a*B)*(m+n+1)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 0<n<1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  a*d^2*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(b*f*(m+1)*(a^2-b^2)) - 
+  d/(b*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*
+    Simp[a*d*(A*b-a*B)*(n-2)+b*d*(A*b-a*B)*(m+1)*Csc[e+f*x]-(a*A*b*d*(m+n)-d*B*(a^2*(n-1)+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  b*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[A*(a^2*(m+1)-b^2*(m+n+1))+a*b*B*n-a*(A*b-a*B)*(m+1)*Csc[e+f*x]+b*(A*b-a*B)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
+  d/(m+n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[a*B*(n-1)+(b*B*(m+n-1)+a*A*(m+n))*Csc[e+f*x]+(a*B*m+A*b*(m+n))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<1 && n>0
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
+    Simp[A*b*m-a*B*n-(b*B*n+a*A*(n+1))*Csc[e+f*x]-A*b*(m+n+1)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<1 && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  -B*d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(b*f*(m+n)) + 
+  d^2/(b*(m+n))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)*
+    Simp[a*B*(n-2)+B*b*(m+n-1)*Csc[e+f*x]+(A*b*(m+n)-a*B*(n-1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && NeQ[m+n] && 
+  Not[IntegerQ[m] && m>1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
+  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
+    Simp[a*B*n-A*b*(m+n+1)+A*a*(n+1)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
+
+
+Int[(A_+B_.*csc[e_.+f_.*x_])/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  A/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] - 
+  (A*b-a*B)/(a*d)*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[d_.*csc[e_.+f_.*x_]]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  A*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
+  B/d*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  B/d*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] + 
+  A*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  A/a*Int[(d*Csc[e+f*x])^n,x] - (A*b-a*B)/(a*d)*Int[(d*Csc[e+f*x])^(n+1)/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+B*Csc[e+f*x]),x] /;
+FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
+
+
+(* Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_])^p_.,x_Symbol] :=
+  (-a*c)^m*Int[Cot[e+f*x]^(2*m)*(c+d*Csc[e+f*x])^(n-m)*(A+B*Csc[e+f*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
+  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_])^p_.,x_Symbol] :=
+  (-a*c)^m*Int[Cos[e+f*x]^(2*m)*(d+c*Sin[e+f*x])^(n-m)*(B+A*Sin[e+f*x])^p/Sin[e+f*x]^(m+n+p),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n,p]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.4.1 (a+b sec)^m (A+B sec+C sec^2)*)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b^2*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  C/b^2*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[-a+b*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
+
+
+Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*m) /;
+FreeQ[{b,e,f,A,C,m},x] && EqQ[C*m+A*(m+1)]
+
+
+Int[csc[e_.+f_.*x_]^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  Int[(C+A*Sin[e+f*x]^2)/Sin[e+f*x]^(m+2),x] /;
+FreeQ[{e,f,A,C},x] && NeQ[C*m+A*(m+1)] && NegativeIntegerQ[(m+1)/2]
+
+
+Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*m) + 
+  (C*m+A*(m+1))/(b^2*m)*Int[(b*Csc[e+f*x])^(m+2),x] /;
+FreeQ[{b,e,f,A,C},x] && NeQ[C*m+A*(m+1)] && RationalQ[m] && m<=-1
+
+
+Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*(m+1)) + 
+  (C*m+A*(m+1))/(m+1)*Int[(b*Csc[e+f*x])^m,x] /;
+FreeQ[{b,e,f,A,C,m},x] && NeQ[C*m+A*(m+1)] && Not[RationalQ[m] && m<=-1]
+
+
+Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  B/b*Int[(b*Csc[e+f*x])^(m+1),x] + Int[(b*Csc[e+f*x])^m*(A+C*Csc[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,B,C,m},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -b*C*Csc[e+f*x]*Cot[e+f*x]/(2*f) + 
+  1/2*Int[Simp[2*A*a+(2*B*a+b*(2*A+C))*Csc[e+f*x]+2*(a*C+B*b)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -b*C*Csc[e+f*x]*Cot[e+f*x]/(2*f) + 
+  1/2*Int[Simp[2*A*a+b*(2*A+C)*Csc[e+f*x]+2*a*C*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,C},x]
+
+
+Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  C/b*Int[Csc[e+f*x],x] + 1/b*Int[(A*b+(b*B-a*C)*Csc[e+f*x])/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,B,C},x]
+
+
+Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
+  C/b*Int[Csc[e+f*x],x] + 1/b*Int[(A*b-a*C*Csc[e+f*x])/(a+b*Csc[e+f*x]),x] /;
+FreeQ[{a,b,e,f,A,C},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(a*A-b*B+a*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
+  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*(2*m+1)+(b*B*(m+1)-a*(A*(m+1)-C*m))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -a*(A+C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
+  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*(2*m+1)-a*(A*(m+1)-C*m)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  1/(b*(m+1))*Int[(a+b*Csc[e+f*x])^m*Simp[A*b*(m+1)+(a*C*m+b*B*(m+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  1/(b*(m+1))*Int[(a+b*Csc[e+f*x])^m*Simp[A*b*(m+1)+a*C*m*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  1/(m+1)*Int[(a+b*Csc[e+f*x])^(m-1)*
+    Simp[a*A*(m+1)+((A*b+a*B)*(m+1)+b*C*m)*Csc[e+f*x]+(b*B*(m+1)+a*C*m)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && PositiveIntegerQ[2*m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
+  1/(m+1)*Int[(a+b*Csc[e+f*x])^(m-1)*Simp[a*A*(m+1)+(A*b*(m+1)+b*C*m)*Csc[e+f*x]+a*C*m*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && PositiveIntegerQ[2*m]
+
+
+Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Int[(A+(B-C)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + C*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
+  Int[(A-C*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + C*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
+    Simp[A*(a^2-b^2)*(m+1)-a*(A*b-a*B+b*C)*(m+1)*Csc[e+f*x]+(A*b^2-a*b*B+a^2*C)*(m+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
+    Simp[A*(a^2-b^2)*(m+1)-a*b*(A+C)*(m+1)*Csc[e+f*x]+(A*b^2+a^2*C)*(m+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && IntegerQ[2*m] && m<-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b*Int[(a+b*Csc[e+f*x])^m*(A*b+(b*B-a*C)*Csc[e+f*x]),x] + C/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  1/b*Int[(a+b*Csc[e+f*x])^m*(A*b-a*C*Csc[e+f*x]),x] + C/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_])^m_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  b^2*Int[(b*Cos[e+f*x])^(m-2)*(C+B*Cos[e+f*x]+A*Cos[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,B,C,m},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  b^2*Int[(b*Sin[e+f*x])^(m-2)*(C+B*Sin[e+f*x]+A*Sin[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,B,C,m},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*cos[e_.+f_.*x_])^m_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  b^2*Int[(b*Cos[e+f*x])^(m-2)*(C+A*Cos[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,C,m},x] && Not[IntegerQ[m]]
+
+
+Int[(b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  b^2*Int[(b*Sin[e+f*x])^(m-2)*(C+A*Sin[e+f*x]^2),x] /;
+FreeQ[{b,e,f,A,C,m},x] && Not[IntegerQ[m]]
+
+
+Int[(a_.*(b_.*sec[e_.+f_.*x_])^p_)^m_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  a^IntPart[m]*(a*(b*Sec[e+f*x])^p)^FracPart[m]/(b*Sec[e+f*x])^(p*FracPart[m])*
+    Int[(b*Sec[e+f*x])^(m*p)*(A+B*Sec[e+f*x]+C*Sec[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(a_.*(b_.*csc[e_.+f_.*x_])^p_)^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  a^IntPart[m]*(a*(b*Csc[e+f*x])^p)^FracPart[m]/(b*Csc[e+f*x])^(p*FracPart[m])*
+    Int[(b*Csc[e+f*x])^(m*p)*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(a_.*(b_.*sec[e_.+f_.*x_])^p_)^m_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  a^IntPart[m]*(a*(b*Sec[e+f*x])^p)^FracPart[m]/(b*Sec[e+f*x])^(p*FracPart[m])*
+    Int[(b*Sec[e+f*x])^(m*p)*(A+C*Sec[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
+
+
+Int[(a_.*(b_.*csc[e_.+f_.*x_])^p_)^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  a^IntPart[m]*(a*(b*Csc[e+f*x])^p)^FracPart[m]/(b*Csc[e+f*x])^(p*FracPart[m])*
+    Int[(b*Csc[e+f*x])^(m*p)*(A+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.4.2 (a+b sec)^m (d sec)^n (A+B sec+C sec^2)*)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
+  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[n*(B*a+A*b)+(n*(a*C+B*b)+A*a*(n+1))*Csc[e+f*x]+b*C*n*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && RationalQ[n] && n<-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
+  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[A*b*n+a*(C*n+A*(n+1))*Csc[e+f*x]+b*C*n*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && RationalQ[n] && n<-1
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_.*(a_+b_.*csc[e_.+f_.*x_])*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -b*C*Csc[e+f*x]*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+2)) + 
+  1/(n+2)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+2)+(B*a*(n+2)+b*(C*(n+1)+A*(n+2)))*Csc[e+f*x]+(a*C+B*b)*(n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[RationalQ[n] && n<-1]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^n_.*(a_+b_.*csc[e_.+f_.*x_])*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -b*C*Csc[e+f*x]*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+2)) + 
+  1/(n+2)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+2)+b*(C*(n+1)+A*(n+2))*Csc[e+f*x]+a*C*(n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && Not[RationalQ[n] && n<-1]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(a*A-b*B+a*C)*Cot[e+f*x]*Csc[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[a*B-b*C-2*A*b*(m+1)-(b*B*(m+2)-a*(A*(m+2)-C*(m-1)))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A+C)*Cot[e+f*x]*Csc[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[-b*C-2*A*b*(m+1)+a*(A*(m+2)-C*(m-1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
+  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[b*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C+b*(A*b-a*B+b*C)*(m+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
+  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[a*b*(A+C)*(m+1)-(A*b^2+a^2*C+b*(A*b+b*C)*(m+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*A*(m+2)+b*C*(m+1)+(b*B*(m+2)-a*C)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && Not[RationalQ[m] && m<-1]
+
+
+Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
+  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*A*(m+2)+b*C*(m+1)-a*C*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -(a*A-b*B+a*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(a*f*(2*m+1)) - 
+  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[a*B*n-b*C*n-A*b*(2*m+n+1)-(b*B*(m+n+1)-a*(A*(m+n+1)-C*(m-n)))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -a*(A+C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
+  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[b*C*n+A*b*(2*m+n+1)-(a*(A*(m+n+1)-C*(m-n)))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*B*n-b*(A*(m+n+1)+C*n)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && (RationalQ[n] && n<-1/2 || EqQ[m+n+1])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*(A*(m+n+1)+C*n)*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && (RationalQ[n] && n<-1/2 || EqQ[m+n+1])
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
+  1/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*Simp[A*b*(m+n+1)+b*C*n+(a*C*m+b*B*(m+n+1))*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,m,n},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && Not[RationalQ[n] && n<-1/2] && NeQ[m+n+1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
+  1/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*Simp[A*b*(m+n+1)+b*C*n+a*C*m*Csc[e+f*x],x],x] /;
+FreeQ[{a,b,d,e,f,A,C,m,n},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && Not[RationalQ[n] && n<-1/2] && NeQ[m+n+1]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  a*(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
+  1/(b^2*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[b*(m+1)*(-a*(b*B-a*C)+A*b^2)+
+      (b*B*(a^2+b^2*(m+1))-a*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Csc[e+f*x]-
+      b*C*(m+1)*(a^2-b^2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  a*(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
+  1/(b^2*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
+    Simp[b*(m+1)*(a^2*C+A*b^2)-a*(A*b^2*(m+2)+C*(a^2+b^2*(m+1)))*Csc[e+f*x]-b*C*(m+1)*(a^2-b^2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Csc[e+f*x]*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+3)) + 
+  1/(b*(m+3))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*
+    Simp[a*C+b*(C*(m+2)+A*(m+3))*Csc[e+f*x]-(2*a*C-b*B*(m+3))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Csc[e+f*x]*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+3)) + 
+  1/(b*(m+3))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[a*C+b*(C*(m+2)+A*(m+3))*Csc[e+f*x]-2*a*C*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,e,f,A,C,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
+    Simp[A*b*m-a*B*n-(b*B*n+a*(C*n+A*(n+1)))*Csc[e+f*x]-b*(C*n+A*(m+n+1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
+  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
+    Simp[A*b*m-a*(C*n+A*(n+1))*Csc[e+f*x]-b*(C*n+A*(m+n+1))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
+  1/(m+n+1)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*
+    Simp[a*A*(m+n+1)+a*C*n+((A*b+a*B)*(m+n+1)+b*C*(m+n))*Csc[e+f*x]+(b*B*(m+n+1)+a*C*m)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[n] && n<=-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
+  1/(m+n+1)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*
+    Simp[a*A*(m+n+1)+a*C*n+b*(A*(m+n+1)+C*(m+n))*Csc[e+f*x]+a*C*m*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[n] && n<=-1]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -d*(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(a^2-b^2)*(m+1)) + 
+  d/(b*(a^2-b^2)*(m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[A*b^2*(n-1)-a*(b*B-a*C)*(n-1)+
+      b*(a*A-b*B+a*C)*(m+1)*Csc[e+f*x]-
+      (b*(A*b-a*B)*(m+n+1)+C*(a^2*n+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>0
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -d*(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(a^2-b^2)*(m+1)) + 
+  d/(b*(a^2-b^2)*(m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
+    Simp[A*b^2*(n-1)+a^2*C*(n-1)+a*b*(A+C)*(m+1)*Csc[e+f*x]-(A*b^2*(m+n+1)+C*(a^2*n+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>0
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[a*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C)*(m+n+1)-
+      a*(A*b-a*B+b*C)*(m+1)*Csc[e+f*x]+
+      (A*b^2-a*b*B+a^2*C)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  (A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
+  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
+    Simp[a^2*(A+C)*(m+1)-(A*b^2+a^2*C)*(m+n+1)-a*b*(A+C)*(m+1)*Csc[e+f*x]+(A*b^2+a^2*C)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(m+n+1)) + 
+  d/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*
+    Simp[a*C*(n-1)+(A*b*(m+n+1)+b*C*(m+n))*Csc[e+f*x]+(b*B*(m+n+1)-a*C*n)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>0 (* && Not[IntegerQ[m] && m>0 && Not[IntegerQ[n]]] *)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  -C*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(m+n+1)) + 
+  d/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*
+    Simp[a*C*(n-1)+(A*b*(m+n+1)+b*C*(m+n))*Csc[e+f*x]-a*C*n*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>0 (* && Not[IntegerQ[m] && m>0 && Not[IntegerQ[n]]] *)
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
+  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
+    Simp[a*B*n-A*b*(m+n+1)+a*(A+A*n+C*n)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
+  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
+    Simp[-A*b*(m+n+1)+a*(A+A*n+C*n)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
+FreeQ[{a,b,d,e,f,A,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
+
+
+Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  (A*b^2-a*b*B+a^2*C)/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
+  1/a^2*Int[(a*A-(A*b-a*B)*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
+  (A*b^2+a^2*C)/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
+  1/a^2*Int[(a*A-A*b*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  C/d^2*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] + 
+  Int[(A+B*Csc[e+f*x])/(Sqrt[d*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
+
+
+Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
+  C/d^2*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] + 
+  A*Int[1/(Sqrt[d*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]),x] /;
+FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,B,C,m,n},x]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,C,m,n},x]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(d_.*cos[e_.+f_.*x_])^n_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  d^(m+2)*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m-2)*(C+B*Cos[e+f*x]+A*Cos[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  d^(m+2)*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m-2)*(C+B*Sin[e+f*x]+A*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(d_.*cos[e_.+f_.*x_])^n_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  d^(m+2)*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m-2)*(C+A*Cos[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  d^(m+2)*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m-2)*(C+A*Sin[e+f*x]^2),x] /;
+FreeQ[{a,b,d,e,f,A,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  c^IntPart[n]*(c*(d*Sec[e+f*x])^p)^FracPart[n]/(d*Sec[e+f*x])^(p*FracPart[n])*
+    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p)*(A+B*Sec[e+f*x]+C*Sec[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  c^IntPart[n]*(c*(d*Csc[e+f*x])^p)^FracPart[n]/(d*Csc[e+f*x])^(p*FracPart[n])*
+    Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n*p)*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  c^IntPart[n]*(c*(d*Sec[e+f*x])^p)^FracPart[n]/(d*Sec[e+f*x])^(p*FracPart[n])*
+    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p)*(A+C*Sec[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[n]]
+
+
+Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
+  c^IntPart[n]*(c*(d*Csc[e+f*x])^p)^FracPart[n]/(d*Csc[e+f*x])^(p*FracPart[n])*
+    Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n*p)*(A+C*Csc[e+f*x]^2),x] /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[n]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.7 (d trig)^m (a+b (c sec)^n)^p*)
+
+
+Int[u_.*(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  b^p*Int[ActivateTrig[u*tan[e+f*x]^(2*p)],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0] && IntegerQ[p]
+
+
+Int[u_.*(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  Int[ActivateTrig[u*(b*tan[e+f*x]^2)^p],x] /;
+FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0]
+
+
+Int[(b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  b*ff/f*Subst[Int[(b+b*ff^2*x^2)^(p-1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{b,e,f,p},x] && Not[IntegerQ[p]]
+
+
+Int[(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  b^IntPart[p]*(b*(c*Sec[e+f*x])^n)^FracPart[p]/(c*Sec[e+f*x])^(n*FracPart[p])*Int[(c*Sec[e+f*x])^(n*p),x] /;
+FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(b_.*sec[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
+  b/(2*f)*Subst[Int[(-1+x)^((m-1)/2)*(b*x)^(p-1),x],x,Sec[e+f*x]^2] /;
+FreeQ[{b,e,f,p},x] && Not[IntegerQ[p]] && IntegerQ[(m-1)/2]
+
+
+Int[u_.*(b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Sec[e+f*x],x]},
+  (b*ff^n)^IntPart[p]*(b*Sec[e+f*x]^n)^FracPart[p]/(Sec[e+f*x]/ff)^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(Sec[e+f*x]/ff)^(n*p),x]] /;
+FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[u_.*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  b^IntPart[p]*(b*(c*Sec[e+f*x])^n)^FracPart[p]/(c*Sec[e+f*x])^(n*FracPart[p])*
+    Int[ActivateTrig[u]*(c*Sec[e+f*x])^(n*p),x] /;
+FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
+  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
+
+
+Int[1/(a_+b_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
+  x/a - b/a*Int[1/(b+a*Cos[e+f*x]^2),x] /;
+FreeQ[{a,b,e,f},x] && NeQ[a+b,0]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b+b*ff^2*x^2)^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && NeQ[a+b,0] && NeQ[p,-1]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_]^4)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b+2*b*ff^2*x^2+b*ff^4*x^4)^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[2*p]
+
+
+Int[(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(a+b*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[n/2] && IGtQ[p,-2]
+
+
+Int[(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  Defer[Int][(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,e,f,n,p},x]
+
+
+Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff^(m+1)/f*Subst[Int[x^m*ExpandToSum[a+b*(1+ff^2*x^2)^(n/2),x]^p/(1+ff^2*x^2)^(m/2+1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && IntegerQ[n/2]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Cos[e+f*x],x]},
+  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(b+a*(ff*x)^n)^p/(ff*x)^(n*p),x],x,Cos[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n] && IntegerQ[p]
+
+
+Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Cos[e+f*x],x]},
+  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (m>0 || EqQ[n,2] || EqQ[n,4])
+
+
+Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*sec[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
+  d^(n*p)*Int[(d*Cos[e+f*x])^(m-n*p)*(b+a*Cos[e+f*x]^n)^p,x] /;
+FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
+
+
+Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  Module[{ff=FreeFactors[Cos[e+f*x],x]},
+  -1/(f*ff^(m+n*p-1))*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(b+a*(ff*x)^n)^p/x^(m+n*p),x],x,Cos[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,n},x] && IntegerQ[(m-1)/2] && IntegerQ[n] && IntegerQ[p]
+
+
+Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Sec[e+f*x],x]},
+  1/f*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p/x,x],x,Sec[e+f*x]/ff]] /;
+FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (m>0 || EqQ[n,2] || EqQ[n,4] || IGtQ[p,0] || IntegersQ[2*n,p])
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  b*ff/f*Subst[Int[(d*ff*x)^m*(b+b*ff^2*x^2)^(p-1),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{b,e,f,m,p},x]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(d*ff*x)^m*(a+b*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n/2] && (IntegerQ[m/2] || EqQ[n,2])
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  d*(d*Tan[e+f*x])^(m-1)*(b*(c*Sec[e+f*x])^n)^p/(f*(p*n+m-1)) - 
+  d^2*(m-1)/(p*n+m-1)*Int[(d*Tan[e+f*x])^(m-2)*(b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{b,d,c,e,f,p,n},x] && GtQ[m,1] && NeQ[p*n+m-1,0] && IntegersQ[2*p*n,2*m]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  (d*Tan[e+f*x])^(m+1)*(b*(c*Sec[e+f*x])^n)^p/(d*f*(m+1)) - 
+  (p*n+m+1)/(d^2*(m+1))*Int[(d*Tan[e+f*x])^(m+2)*(b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{b,d,c,e,f,p,n},x] && LtQ[m,-1] && NeQ[p*n+m+1,0] && IntegersQ[2*p*n,2*m]
+
+
+Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+Int[sec[e_.+f_.*x_]^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Tan[e+f*x],x]},
+  ff/f*Subst[Int[(1+ff^2*x^2)^(m/2-1)*ExpandToSum[a+b*(1+ff^2*x^2)^(n/2),x]^p,x],x,Tan[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && IntegerQ[n/2]
+
+
+Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[ExpandToSum[b+a*(1-ff^2*x^2)^(n/2),x]^p/(1-ff^2*x^2)^((m+n*p+1)/2),x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && IntegerQ[p]
+
+
+Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  With[{ff=FreeFactors[Sin[e+f*x],x]},
+  ff/f*Subst[Int[(a+b/(1-ff^2*x^2)^(n/2))^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
+FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && Not[IntegerQ[p]]
+
+
+Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
+  Int[ExpandTrig[sec[e+f*x]^m*(a+b*sec[e+f*x]^n)^p,x],x] /;
+FreeQ[{a,b,e,f},x] && IntegersQ[m,n,p]
+
+
+Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
+  Defer[Int][(d*Sec[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
+  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.9 trig^m (a+b sec^n+c sec^(2 n))^p*)
+
+
+Int[(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sec[d+e*x]^n+c*Sec[d+e*x]^(2*n))^p/(b+2*c*Sec[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Csc[d+e*x]^n+c*Csc[d+e*x]^(2*n))^p/(b+2*c*Csc[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[1/(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Sec[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Sec[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[1/(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  2*c/q*Int[1/(b-q+2*c*Csc[d+e*x]^n),x] - 
+  2*c/q*Int[1/(b+q+2*c*Csc[d+e*x]^n),x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
+
+
+Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cos[d+e*x],x]},
+  -f/e*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(b+a*(f*x)^n)^p/(f*x)^(n*p),x],x,Cos[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && IntegersQ[n,p]
+
+
+Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Sin[d+e*x],x]},
+  f/e*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(b+a*(f*x)^n)^p/(f*x)^(n*p),x],x,Sin[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && IntegersQ[n,p]
+
+
+Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*sec[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(m/2+1),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
+
+
+Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*csc[d_.+e_.*x_]^n_+c_.*csc[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(m/2+1),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
+
+
+Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Sec[d+e*x]^m*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  1/(4^p*c^p)*Int[Csc[d+e*x]^m*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Sec[d+e*x]^n+c*Sec[d+e*x]^(2*n))^p/(b+2*c*Sec[d+e*x]^n)^(2*p)*Int[Sec[d+e*x]^m*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  (a+b*Csc[d+e*x]^n+c*Csc[d+e*x]^(2*n))^p/(b+2*c*Csc[d+e*x]^n)^(2*p)*Int[Csc[d+e*x]^m*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
+
+
+Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  Int[ExpandTrig[sec[d+e*x]^m*(a+b*sec[d+e*x]^n+c*sec[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && IntegersQ[m,n,p]
+
+
+Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
+  Int[ExpandTrig[csc[d+e*x]^m*(a+b*csc[d+e*x]^n+c*csc[d+e*x]^(2*n))^p,x],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && IntegersQ[m,n,p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cos[d+e*x],x]},
+  -1/(e*f^(m+n*p-1))*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(c+b*(f*x)^n+c*(f*x)^(2*n))^p/x^(m+2*n*p),x],x,Cos[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && OddQ[m] && IntegerQ[n] && IntegerQ[p]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*csc[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Sin[d+e*x],x]},
+  1/(e*f^(m+n*p-1))*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(c+b*(f*x)^n+c*(f*x)^(2*n))^p/x^(m+2*n*p),x],x,Sin[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && OddQ[m] && IntegerQ[n] && IntegerQ[p]
+
+
+Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*sec[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Tan[d+e*x],x]},
+  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2),x],x,Tan[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
+
+
+Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*csc[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
+  Module[{f=FreeFactors[Cot[d+e*x],x]},
+  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2),x],x,Cot[d+e*x]/f]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
+
+
+Int[(A_+B_.*sec[d_.+e_.*x_])*(a_+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Sec[d+e*x])*(b+2*c*Sec[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*csc[d_.+e_.*x_])*(a_+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  1/(4^n*c^n)*Int[(A+B*Csc[d+e*x])*(b+2*c*Csc[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*sec[d_.+e_.*x_])*(a_+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Sec[d+e*x]+c*Sec[d+e*x]^2)^n/(b+2*c*Sec[d+e*x])^(2*n)*Int[(A+B*Sec[d+e*x])*(b+2*c*Sec[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*csc[d_.+e_.*x_])*(a_+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  (a+b*Csc[d+e*x]+c*Csc[d+e*x]^2)^n/(b+2*c*Csc[d+e*x])^(2*n)*Int[(A+B*Csc[d+e*x])*(b+2*c*Csc[d+e*x])^(2*n),x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
+
+
+Int[(A_+B_.*sec[d_.+e_.*x_])/(a_.+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Sec[d+e*x]),x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Sec[d+e*x]),x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*csc[d_.+e_.*x_])/(a_.+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2),x_Symbol] :=
+  Module[{q=Rt[b^2-4*a*c,2]},
+  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Csc[d+e*x]),x] + 
+  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Csc[d+e*x]),x]] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
+
+
+Int[(A_+B_.*sec[d_.+e_.*x_])*(a_.+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*sec[d+e*x])*(a+b*sec[d+e*x]+c*sec[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+Int[(A_+B_.*csc[d_.+e_.*x_])*(a_.+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
+  Int[ExpandTrig[(A+B*csc[d+e*x])*(a+b*csc[d+e*x]+c*csc[d+e*x]^2)^n,x],x] /;
+FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.10 (c+d x)^m (a+b sec)^n*)
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_],x_Symbol] :=
+  -2*(c+d*x)^m*ArcTanh[E^(-I*k*Pi)*E^(-I*e+f*fz*x)]/(f*fz*I) - 
+  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1-E^(-I*k*Pi)*E^(-I*e+f*fz*x)],x] + 
+  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1+E^(-I*k*Pi)*E^(-I*e+f*fz*x)],x] /;
+FreeQ[{c,d,e,f,fz},x] && IntegerQ[2*k] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
+  -2*(c+d*x)^m*ArcTanh[E^(I*k*Pi)*E^(I*(e+f*x))]/f - 
+  d*m/f*Int[(c+d*x)^(m-1)*Log[1-E^(I*k*Pi)*E^(I*(e+f*x))],x] + 
+  d*m/f*Int[(c+d*x)^(m-1)*Log[1+E^(I*k*Pi)*E^(I*(e+f*x))],x] /;
+FreeQ[{c,d,e,f},x] && IntegerQ[2*k] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*Complex[0,fz_]*x_],x_Symbol] :=
+  -2*(c+d*x)^m*ArcTanh[E^(-I*e+f*fz*x)]/(f*fz*I) - 
+  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1-E^(-I*e+f*fz*x)],x] + 
+  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1+E^(-I*e+f*fz*x)],x] /;
+FreeQ[{c,d,e,f,fz},x] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_],x_Symbol] :=
+  -2*(c+d*x)^m*ArcTanh[E^(I*(e+f*x))]/f - 
+  d*m/f*Int[(c+d*x)^(m-1)*Log[1-E^(I*(e+f*x))],x] + 
+  d*m/f*Int[(c+d*x)^(m-1)*Log[1+E^(I*(e+f*x))],x] /;
+FreeQ[{c,d,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_]^2,x_Symbol] :=
+  -(c+d*x)^m*Cot[e+f*x]/f + 
+  d*m/f*Int[(c+d*x)^(m-1)*Cot[e+f*x],x] /;
+FreeQ[{c,d,e,f},x] && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*(c+d*x)*Cot[e+f*x]*(b*Csc[e+f*x])^(n-2)/(f*(n-1)) - 
+  b^2*d*(b*Csc[e+f*x])^(n-2)/(f^2*(n-1)*(n-2)) + 
+  b^2*(n-2)/(n-1)*Int[(c+d*x)*(b*Csc[e+f*x])^(n-2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n>1 && n!=2
+
+
+Int[(c_.+d_.*x_)^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  -b^2*(c+d*x)^m*Cot[e+f*x]*(b*Csc[e+f*x])^(n-2)/(f*(n-1)) - 
+  b^2*d*m*(c+d*x)^(m-1)*(b*Csc[e+f*x])^(n-2)/(f^2*(n-1)*(n-2)) + 
+  b^2*(n-2)/(n-1)*Int[(c+d*x)^m*(b*Csc[e+f*x])^(n-2),x] + 
+  b^2*d^2*m*(m-1)/(f^2*(n-1)*(n-2))*Int[(c+d*x)^(m-2)*(b*Csc[e+f*x])^(n-2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && n!=2 && m>1
+
+
+Int[(c_.+d_.*x_)*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*(b*Csc[e+f*x])^n/(f^2*n^2) + 
+  (c+d*x)*Cos[e+f*x]*(b*Csc[e+f*x])^(n+1)/(b*f*n) + 
+  (n+1)/(b^2*n)*Int[(c+d*x)*(b*Csc[e+f*x])^(n+2),x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n<-1
+
+
+Int[(c_.+d_.*x_)^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  d*m*(c+d*x)^(m-1)*(b*Csc[e+f*x])^n/(f^2*n^2) + 
+  (c+d*x)^m*Cos[e+f*x]*(b*Csc[e+f*x])^(n+1)/(b*f*n) + 
+  (n+1)/(b^2*n)*Int[(c+d*x)^m*(b*Csc[e+f*x])^(n+2),x] - 
+  d^2*m*(m-1)/(f^2*n^2)*Int[(c+d*x)^(m-2)*(b*Csc[e+f*x])^n,x] /;
+FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && m>1
+
+
+Int[(c_.+d_.*x_)^m_.*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
+  (b*Sin[e+f*x])^n*(b*Csc[e+f*x])^n*Int[(c+d*x)^m/(b*Sin[e+f*x])^n,x] /;
+FreeQ[{b,c,d,e,f,m,n},x] && Not[IntegerQ[n]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Csc[e+f*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[m,n]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(c+d*x)^m,Sin[e+f*x]^(-n)/(b+a*Sin[e+f*x])^(-n),x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NegativeIntegerQ[n] && PositiveIntegerQ[m]
+
+
+Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_]^n_.,x_Symbol] :=
+  If[MatchQ[f,f1_.*Complex[0,j_]],
+    If[MatchQ[e,e1_.+Pi/2],
+      Defer[Int][(c+d*x)^m*Sech[I*(e-Pi/2)+I*f*x]^n,x],
+    (-I)^n*Defer[Int][(c+d*x)^m*Csch[-I*e-I*f*x]^n,x]],
+  If[MatchQ[e,e1_.+Pi/2],
+    Defer[Int][(c+d*x)^m*Sec[e-Pi/2+f*x]^n,x],
+  Defer[Int][(c+d*x)^m*Csc[e+f*x]^n,x]]] /;
+FreeQ[{c,d,e,f,m,n},x] && IntegerQ[n]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(c+d*x)^m*(a+b*Csc[e+f*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[u_^m_.*(a_.+b_.*Sec[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Sec[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*(a_.+b_.*Csc[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Csc[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3.11 (e x)^m (a+b sec(c+d x^n))^p*)
+
+
+Int[(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Sec[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Csc[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Sec[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Csc[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Sec[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sec[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Csc[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Csc[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Sec[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Sec[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Csc[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Csc[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sec[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Csc[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Sec[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Csc[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sec[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Csc[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sec[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Sec[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Csc[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Csc[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sec[a_.+b_.*x_^n_.]^p_*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
+  x^(m-n+1)*Sec[a+b*x^n]^(p-1)/(b*n*(p-1)) -
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Sec[a+b*x^n]^(p-1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
+
+
+Int[x_^m_.*Csc[a_.+b_.*x_^n_.]^p_*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
+  -x^(m-n+1)*Csc[a+b*x^n]^(p-1)/(b*n*(p-1)) +
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Csc[a+b*x^n]^(p-1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
+
+
+
+`)
+
+func resourcesRubi43SecantMBytes() ([]byte, error) {
+	return _resourcesRubi43SecantM, nil
+}
+
+func resourcesRubi43SecantM() (*asset, error) {
+	bytes, err := resourcesRubi43SecantMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/4.3 Secant.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi44MiscellaneousTrigFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Miscellaneous Trig Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*4.1 Sine normalization rules*)
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*sin[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^(m+n)/(d*Cos[a+b*x])^m,x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*sin[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^(m+n)/(d*Sin[a+b*x])^m,x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*sec[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Sec[a+b*x])^m*(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*sec[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Csc[a+b*x])^m*(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(c*Cos[a+b*x])^m/(c*Sin[a+b*x])^m*Int[ActivateTrig[u]*(c*Sin[a+b*x])^m/(c*Cos[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(c*Sin[a+b*x])^m/(c*Cos[a+b*x])^m*Int[ActivateTrig[u]*(c*Cos[a+b*x])^m/(c*Sin[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*sec[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Sec[a+b*x])^m*(c*Cos[a+b*x])^m*Int[ActivateTrig[u]/(c*Cos[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*csc[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Csc[a+b*x])^m*(c*Sin[a+b*x])^m*Int[ActivateTrig[u]/(c*Sin[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*sin[a_.+b_.*x_])^n_.*(A_+B_.*csc[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-1)*(B+A*Sin[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cos[a_.+b_.*x_])^n_.*(A_+B_.*sec[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-1)*(B+A*Cos[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*csc[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Sin[a+b*x])/Sin[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*sec[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Cos[a+b*x])/Cos[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*sin[a_.+b_.*x_])^n_.*(A_.+B_.*csc[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-2)*(C+B*Sin[a+b*x]+A*Sin[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*cos[a_.+b_.*x_])^n_.*(A_.+B_.*sec[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-2)*(C+B*Cos[a+b*x]+A*Cos[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*sin[a_.+b_.*x_])^n_.*(A_+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-2)*(C+A*Sin[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*cos[a_.+b_.*x_])^n_.*(A_+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-2)*(C+A*Cos[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*csc[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Sin[a+b*x]+A*Sin[a+b*x]^2)/Sin[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*sec[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Cos[a+b*x]+A*Cos[a+b*x]^2)/Cos[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Sin[a+b*x]^2)/Sin[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Cos[a+b*x]^2)/Cos[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownSineIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*sin[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Sin[a+b*x]+B*Sin[a+b*x]^2)/Sin[a+b*x],x] /;
+FreeQ[{a,b,A,B,C},x]
+
+
+Int[u_*(A_.+B_.*cos[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Cos[a+b*x]+B*Cos[a+b*x]^2)/Cos[a+b*x],x] /;
+FreeQ[{a,b,A,B,C},x]
+
+
+Int[u_*(A_.*sin[a_.+b_.*x_]^n_.+B_.*sin[a_.+b_.*x_]^n1_+C_.*sin[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Sin[a+b*x]^n*(A+B*Sin[a+b*x]+C*Sin[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+Int[u_*(A_.*cos[a_.+b_.*x_]^n_.+B_.*cos[a_.+b_.*x_]^n1_+C_.*cos[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Cos[a+b*x]^n*(A+B*Cos[a+b*x]+C*Cos[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.2 Tangent normalization rules*)
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*tan[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(d*Tan[a+b*x])^m*Int[ActivateTrig[u]*(d*Tan[a+b*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(c*Tan[a+b*x])^m*Int[ActivateTrig[u]/(c*Tan[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(c*Tan[a+b*x])^m*Int[ActivateTrig[u]/(c*Cot[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^n_.*(A_+B_.*cot[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-1)*(B+A*Tan[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^n_.*(A_+B_.*tan[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-1)*(B+A*Cot[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*cot[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Tan[a+b*x])/Tan[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*tan[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Cot[a+b*x])/Cot[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*tan[a_.+b_.*x_])^n_.*(A_.+B_.*cot[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-2)*(C+B*Tan[a+b*x]+A*Tan[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*cot[a_.+b_.*x_])^n_.*(A_.+B_.*tan[a_.+b_.*x_]+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-2)*(C+B*Cot[a+b*x]+A*Cot[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*tan[a_.+b_.*x_])^n_.*(A_+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-2)*(C+A*Tan[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*cot[a_.+b_.*x_])^n_.*(A_+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-2)*(C+A*Cot[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*cot[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Tan[a+b*x]+A*Tan[a+b*x]^2)/Tan[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*tan[a_.+b_.*x_]+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Cot[a+b*x]+A*Cot[a+b*x]^2)/Cot[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Tan[a+b*x]^2)/Tan[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownTangentIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Cot[a+b*x]^2)/Cot[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownCotangentIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*tan[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Tan[a+b*x]+B*Tan[a+b*x]^2)/Tan[a+b*x],x] /;
+FreeQ[{a,b,A,B,C},x]
+
+
+Int[u_*(A_.*tan[a_.+b_.*x_]^n_.+B_.*tan[a_.+b_.*x_]^n1_+C_.*tan[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Tan[a+b*x]^n*(A+B*Tan[a+b*x]+C*Tan[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+Int[u_*(A_.*cot[a_.+b_.*x_]^n_.+B_.*cot[a_.+b_.*x_]^n1_+C_.*cot[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Cot[a+b*x]^n*(A+B*Cot[a+b*x]+C*Cot[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.3 Secant normalization rules*)
+(**)
+
+
+Int[u_*(c_.*sin[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Sin[a+b*x])^m*(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cos[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cos[a+b*x])^m*(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^(m+n)/(d*Csc[a+b*x])^m,x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^(m-n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^(m+n)/(d*Sec[a+b*x])^m,x] /;
+FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
+
+
+Int[u_*(c_.*sin[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Csc[a+b*x])^m*(c*Sin[a+b*x])^m*Int[ActivateTrig[u]/(c*Csc[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cos[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Cos[a+b*x])^m*(c*Sec[a+b*x])^m*Int[ActivateTrig[u]/(c*Sec[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Tan[a+b*x])^m*(c*Csc[a+b*x])^m/(c*Sec[a+b*x])^m*Int[ActivateTrig[u]*(c*Sec[a+b*x])^m/(c*Csc[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
+  (c*Cot[a+b*x])^m*(c*Sec[a+b*x])^m/(c*Csc[a+b*x])^m*Int[ActivateTrig[u]*(c*Csc[a+b*x])^m/(c*Sec[a+b*x])^m,x] /;
+FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*sec[a_.+b_.*x_])^n_.*(A_+B_.*cos[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-1)*(B+A*Sec[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(c_.*csc[a_.+b_.*x_])^n_.*(A_+B_.*sin[a_.+b_.*x_]),x_Symbol] :=
+  c*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-1)*(B+A*Csc[a+b*x]),x] /;
+FreeQ[{a,b,c,A,B,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*cos[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Sec[a+b*x])/Sec[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_+B_.*sin[a_.+b_.*x_]),x_Symbol] :=
+  Int[ActivateTrig[u]*(B+A*Csc[a+b*x])/Csc[a+b*x],x] /;
+FreeQ[{a,b,A,B},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*sec[a_.+b_.*x_])^n_.*(A_.+B_.*cos[a_.+b_.*x_]+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-2)*(C+B*Sec[a+b*x]+A*Sec[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*csc[a_.+b_.*x_])^n_.*(A_.+B_.*sin[a_.+b_.*x_]+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-2)*(C+B*Csc[a+b*x]+A*Csc[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,B,C,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*sec[a_.+b_.*x_])^n_.*(A_+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-2)*(C+A*Sec[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_.*(c_.*csc[a_.+b_.*x_])^n_.*(A_+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
+  c^2*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-2)*(C+A*Csc[a+b*x]^2),x] /;
+FreeQ[{a,b,c,A,C,n},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*cos[a_.+b_.*x_]+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Sec[a+b*x]+A*Sec[a+b*x]^2)/Sec[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_.+B_.*sin[a_.+b_.*x_]+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+B*Csc[a+b*x]+A*Csc[a+b*x]^2)/Csc[a+b*x]^2,x] /;
+FreeQ[{a,b,A,B,C},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Sec[a+b*x]^2)/Sec[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
+  Int[ActivateTrig[u]*(C+A*Csc[a+b*x]^2)/Csc[a+b*x]^2,x] /;
+FreeQ[{a,b,A,C},x] && KnownSecantIntegrandQ[u,x]
+
+
+Int[u_*(A_.*sec[a_.+b_.*x_]^n_.+B_.*sec[a_.+b_.*x_]^n1_+C_.*sec[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Sec[a+b*x]^n*(A+B*Sec[a+b*x]+C*Sec[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+Int[u_*(A_.*csc[a_.+b_.*x_]^n_.+B_.*csc[a_.+b_.*x_]^n1_+C_.*csc[a_.+b_.*x_]^n2_),x_Symbol] :=
+  Int[ActivateTrig[u]*Csc[a+b*x]^n*(A+B*Csc[a+b*x]+C*Csc[a+b*x]^2),x] /;
+FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.1 (c trig)^m (d trig)^n*)
+
+
+Int[sin[a_.+b_.*x_]*sin[c_.+d_.*x_],x_Symbol] :=
+  Sin[a-c+(b-d)*x]/(2*(b-d)) - Sin[a+c+(b+d)*x]/(2*(b+d)) /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
+
+
+Int[cos[a_.+b_.*x_]*cos[c_.+d_.*x_],x_Symbol] :=
+  Sin[a-c+(b-d)*x]/(2*(b-d)) + Sin[a+c+(b+d)*x]/(2*(b+d)) /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
+
+
+Int[sin[a_.+b_.*x_]*cos[c_.+d_.*x_],x_Symbol] :=
+  -Cos[a-c+(b-d)*x]/(2*(b-d)) - Cos[a+c+(b+d)*x]/(2*(b+d)) /;
+FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
+
+
+Int[cos[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  1/2*Int[(g*Sin[c+d*x])^p,x] + 
+  1/2*Int[Cos[c+d*x]*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
+
+
+Int[sin[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  1/2*Int[(g*Sin[c+d*x])^p,x] - 
+  1/2*Int[Cos[c+d*x]*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
+  2^p/e^p*Int[(e*Cos[a+b*x])^(m+p)*Sin[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
+
+
+Int[(f_.*sin[a_.+b_.*x_])^n_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
+  2^p/f^p*Int[Cos[a+b*x]^p*(f*Sin[a+b*x])^(n+p),x] /;
+FreeQ[{a,b,c,d,f,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p-1]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p-1]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(b*g*m) /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(b*g*m) /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  e^4*(m+p-1)/(4*g^2*(p+1))*Int[(e*Cos[a+b*x])^(m-4)*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>2 && p<-1 && 
+  (m>3 || p==-3/2) && IntegersQ[2*m,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  e^4*(m+p-1)/(4*g^2*(p+1))*Int[(e*Sin[a+b*x])^(m-4)*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>2 && p<-1 && 
+  (m>3 || p==-3/2) && IntegersQ[2*m,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  e^2*(m+2*p+2)/(4*g^2*(p+1))*Int[(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
+  NeQ[m+2*p+2] && (p<-2 || m==2) && IntegersQ[2*m,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  e^2*(m+2*p+2)/(4*g^2*(p+1))*Int[(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
+  NeQ[m+2*p+2] && (p<-2 || m==2) && IntegersQ[2*m,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+2*p)) + 
+  e^2*(m+p-1)/(m+2*p)*Int[(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+2*p] &&
+  IntegersQ[2*m,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+2*p)) + 
+  e^2*(m+p-1)/(m+2*p)*Int[(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+2*p] &&
+  IntegersQ[2*m,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+p+1)) + 
+  (m+2*p+2)/(e^2*(m+p+1))*Int[(e*Cos[a+b*x])^(m+2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
+  NeQ[m+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+p+1)) + 
+  (m+2*p+2)/(e^2*(m+p+1))*Int[(e*Sin[a+b*x])^(m+2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
+  NeQ[m+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*p]
+
+
+Int[cos[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  2*Sin[a+b*x]*(g*Sin[c+d*x])^p/(d*(2*p+1)) + 2*p*g/(2*p+1)*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p>0 && IntegerQ[2*p]
+
+
+Int[sin[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -2*Cos[a+b*x]*(g*Sin[c+d*x])^p/(d*(2*p+1)) + 2*p*g/(2*p+1)*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p>0 && IntegerQ[2*p]
+
+
+Int[cos[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  Cos[a+b*x]*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  (2*p+3)/(2*g*(p+1))*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p+1),x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[sin[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -Sin[a+b*x]*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
+  (2*p+3)/(2*g*(p+1))*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p+1),x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p<-1 && IntegerQ[2*p]
+
+
+Int[cos[a_.+b_.*x_]/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
+  -ArcSin[Cos[a+b*x]-Sin[a+b*x]]/d + Log[Cos[a+b*x]+Sin[a+b*x]+Sqrt[Sin[c+d*x]]]/d /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c-a*d] && EqQ[d/b-2]
+
+
+Int[sin[a_.+b_.*x_]/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
+  -ArcSin[Cos[a+b*x]-Sin[a+b*x]]/d - Log[Cos[a+b*x]+Sin[a+b*x]+Sqrt[Sin[c+d*x]]]/d /;
+FreeQ[{a,b,c,d},x] && EqQ[b*c-a*d] && EqQ[d/b-2]
+
+
+Int[(g_.*sin[c_.+d_.*x_])^p_/cos[a_.+b_.*x_],x_Symbol] :=
+  2*g*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && IntegerQ[2*p]
+
+
+Int[(g_.*sin[c_.+d_.*x_])^p_/sin[a_.+b_.*x_],x_Symbol] :=
+  2*g*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && IntegerQ[2*p]
+
+
+(* Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^(m+1)*Sin[a+b*x]*(g*Sin[c+d*x])^p/(b*e*(m+p+1)*(Sin[a+b*x]^2)^((p+1)/2))*
+    Hypergeometric2F1[-(p-1)/2,(m+p+1)/2,(m+p+3)/2,Cos[a+b*x]^2] /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[m+p]] *)
+
+
+(* Int[(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -Cos[a+b*x]*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(p+1)*(Sin[a+b*x]^2)^((n+p+1)/2))*
+    Hypergeometric2F1[-(n+p-1)/2,(p+1)/2,(p+3)/2,Cos[a+b*x]^2] /;
+FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[n+p]] *)
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (g*Sin[c+d*x])^p/((e*Cos[a+b*x])^p*Sin[a+b*x]^p)*Int[(e*Cos[a+b*x])^(m+p)*Sin[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
+
+
+Int[(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (g*Sin[c+d*x])^p/(Cos[a+b*x]^p*(f*Sin[a+b*x])^p)*Int[Cos[a+b*x]^p*(f*Sin[a+b*x])^(n+p),x] /;
+FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
+
+
+Int[cos[a_.+b_.*x_]^2*sin[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  1/4*Int[(g*Sin[c+d*x])^p,x] - 
+  1/4*Int[Cos[c+d*x]^2*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
+  2^p/(e^p*f^p)*Int[(e*Cos[a+b*x])^(m+p)*(f*Sin[a+b*x])^(n+p),x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p+1]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p+1]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+n+2*p+2] && NeQ[m+p+1]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e^2*(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
+  e^4*(m+p-1)/(4*g^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-4)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>3 && p<-1 && 
+  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e^2*(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
+  e^4*(m+p-1)/(4*g^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-4)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>3 && p<-1 && 
+  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Cos[a+b*x])^m*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
+  e^2*(m+n+2*p+2)/(4*g^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p] && (p<-2 || m==2 || m==3)
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Sin[a+b*x])^m*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
+  e^2*(m+n+2*p+2)/(4*g^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p] && (p<-2 || m==2 || m==3)
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) + 
+  e^2*(m+p-1)/(f^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^(n+2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n] && m>1 && n<-1 && 
+  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) + 
+  e^2*(m+p-1)/(f^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^(n+2)*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n] && m>1 && n<-1 && 
+  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(m+n+2*p)) + 
+  e^2*(m+p-1)/(m+n+2*p)*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+n+2*p] && 
+  IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(m+n+2*p)) + 
+  e^2*(m+p-1)/(m+n+2*p)*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+n+2*p] && 
+  IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -f*(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^p/(b*e*(m+n+2*p)) + 
+  2*f*g*(n+p-1)/(e*(m+n+2*p))*Int[(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && 
+  NeQ[m+n+2*p] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  f*(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^p/(b*e*(m+n+2*p)) + 
+  2*f*g*(n+p-1)/(e*(m+n+2*p))*Int[(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p-1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && 
+  NeQ[m+n+2*p] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
+  f*(m+n+2*p+2)/(2*e*g*(m+p+1))*Int[(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
+  f*(m+n+2*p+2)/(2*e*g*(m+p+1))*Int[(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
+  (m+n+2*p+2)/(e^2*(m+p+1))*Int[(e*Cos[a+b*x])^(m+2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
+  (m+n+2*p+2)/(e^2*(m+p+1))*Int[(e*Sin[a+b*x])^(m+2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
+  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
+
+
+(* Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)*(Sin[a+b*x]^2)^((n+p+1)/2))*
+    Hypergeometric2F1[-(n+p-1)/2,(m+p+1)/2,(m+p+3)/2,Cos[a+b*x]^2] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[m+p]] && Not[IntegerQ[n+p]] *)
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
+  (g*Sin[c+d*x])^p/((e*Cos[a+b*x])^p*(f*Sin[a+b*x])^p)*Int[(e*Cos[a+b*x])^(m+p)*(f*Sin[a+b*x])^(n+p),x] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
+
+
+Int[(e_.*cos[a_.+b_.*x_])^m_.*sin[c_.+d_.*x_],x_Symbol] :=
+  -(m+2)*(e*Cos[a+b*x])^(m+1)*Cos[(m+1)*(a+b*x)]/(d*e*(m+1)) /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b*c-a*d] && EqQ[d/b-Abs[m+2]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.3 Inert trig functions*)
+
+
+Int[(a_.*F_[c_.+d_.*x_]^p_)^n_,x_Symbol] :=
+  With[{v=ActivateTrig[F[c+d*x]]},
+  a^IntPart[n]*(v/NonfreeFactors[v,x])^(p*IntPart[n])*(a*v^p)^FracPart[n]/NonfreeFactors[v,x]^(p*FracPart[n])*
+    Int[NonfreeFactors[v,x]^(n*p),x]] /;
+FreeQ[{a,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && IntegerQ[p]
+
+
+Int[(a_.*(b_.*F_[c_.+d_.*x_])^p_)^n_.,x_Symbol] :=
+  With[{v=ActivateTrig[F[c+d*x]]},
+  a^IntPart[n]*(a*(b*v)^p)^FracPart[n]/(b*v)^(p*FracPart[n])*Int[(b*v)^(n*p),x]] /;
+FreeQ[{a,b,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && Not[IntegerQ[p]]
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[1,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && (F===Cos || F===cos)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[1,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && (F===Sin || F===sin)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  1/(b*c)*Subst[Int[SubstFor[1/x,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && (F===Cot || F===cot)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -1/(b*c)*Subst[Int[SubstFor[1/x,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && (F===Tan || F===tan)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
+  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[1,Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
+ FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && NonsumQ[u] && (F===Sec || F===sec)
+
+
+Int[u_/cos[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
+  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[1,Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
+ FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && NonsumQ[u]
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
+  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[1,Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && NonsumQ[u] && (F===Csc || F===csc)
+
+
+Int[u_/sin[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
+  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[1,Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True]] /;
+FreeQ[{a,b,c},x] && NonsumQ[u]
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_.,x_Symbol] :=
+  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
+  1/(b*c*d^(n-1))*Subst[Int[SubstFor[1/(x^n*(1+d^2*x^2)),Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
+ FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True] && TryPureTanSubst[ActivateTrig[u]*Cot[c*(a+b*x)]^n,x]] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && (F===Cot || F===cot)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_.,x_Symbol] :=
+  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
+  -1/(b*c*d^(n-1))*Subst[Int[SubstFor[1/(x^n*(1+d^2*x^2)),Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True] && TryPureTanSubst[ActivateTrig[u]*Tan[c*(a+b*x)]^n,x]] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && (F===Tan || F===tan)
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Cot[a+b*x]],x]","-1/b*Subst[Int[F[x]/(1+x^2),x],x,Cot[a+b*x]]",Hold[
+  With[{d=FreeFactors[Cot[v],x]},
+  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Cot[v]/d,u,x],x],x,Cot[v]/d],x]]]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cot[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Cot[v],x]},
+  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Cot[v]/d,u,x],x],x,Cot[v]/d],x]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cot[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]]]
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Tan[a+b*x]],x]","1/b*Subst[Int[F[x]/(1+x^2),x],x,Tan[a+b*x]]",Hold[
+  With[{d=FreeFactors[Tan[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]]]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Tan[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]]]
+
+
+Int[F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[ActivateTrig[F[a+b*x]^p*G[c+d*x]^q],x],x] /;
+FreeQ[{a,b,c,d},x] && (F===sin || F===cos) && (G===sin || G===cos) && PositiveIntegerQ[p,q]
+
+
+Int[F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.*H_[e_.+f_.*x_]^r_.,x_Symbol] :=
+  Int[ExpandTrigReduce[ActivateTrig[F[a+b*x]^p*G[c+d*x]^q*H[e+f*x]^r],x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && (F===sin || F===cos) && (G===sin || G===cos) && (H===sin || H===cos) && PositiveIntegerQ[p,q,r]
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[1,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && (F===Cos || F===cos)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[1,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && (F===Sin || F===sin)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  1/(b*c)*Subst[Int[SubstFor[1/x,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && (F===Cot || F===cot)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -1/(b*c)*Subst[Int[SubstFor[1/x,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && (F===Tan || F===tan)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2),Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Cos || F===cos)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((-n-1)/2),Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Sec || F===sec)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2),Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Sin || F===sin)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((-n-1)/2),Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Csc || F===csc)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
+  1/(b*c*d^(n-1))*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2)/x^n,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Cot || F===cot)
+
+
+Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
+  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
+  -1/(b*c*d^(n-1))*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2)/x^n,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
+FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Tan || F===tan)
+
+
+Int[u_*(v_+d_.*F_[c_.*(a_.+b_.*x_)]^n_.),x_Symbol] :=
+  With[{e=FreeFactors[Sin[c*(a+b*x)],x]},
+  Int[ActivateTrig[u*v],x] + d*Int[ActivateTrig[u]*Cos[c*(a+b*x)]^n,x] /;
+ FunctionOfQ[Sin[c*(a+b*x)]/e,u,x]] /;
+FreeQ[{a,b,c,d},x] && Not[FreeQ[v,x]] && OddQ[n] && NonsumQ[u] && (F===Cos || F===cos)
+
+
+Int[u_*(v_+d_.*F_[c_.*(a_.+b_.*x_)]^n_.),x_Symbol] :=
+  With[{e=FreeFactors[Cos[c*(a+b*x)],x]},
+  Int[ActivateTrig[u*v],x] + d*Int[ActivateTrig[u]*Sin[c*(a+b*x)]^n,x] /;
+ FunctionOfQ[Cos[c*(a+b*x)]/e,u,x]] /;
+FreeQ[{a,b,c,d},x] && Not[FreeQ[v,x]] && OddQ[n] && NonsumQ[u] && (F===Sin || F===sin)
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Sin[a+b*x]]*Cos[a+b*x],x]","Subst[Int[F[x],x],x,Sin[a+b*x]]/b",Hold[
+  With[{d=FreeFactors[Sin[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Sin[v]/d,u/Cos[v],x],x],x,Sin[v]/d],x]]]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Sin[v],x],u/Cos[v],x]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Sin[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Sin[v]/d,u/Cos[v],x],x],x,Sin[v]/d],x]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Sin[v],x],u/Cos[v],x]]]
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Cos[a+b*x]]*Sin[a+b*x],x]","-Subst[Int[F[x],x],x,Cos[a+b*x]]/b",Hold[
+  With[{d=FreeFactors[Cos[v],x]},
+  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Cos[v]/d,u/Sin[v],x],x],x,Cos[v]/d],x]]]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cos[v],x],u/Sin[v],x]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Cos[v],x]},
+  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Cos[v]/d,u/Sin[v],x],x],x,Cos[v]/d],x]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cos[v],x],u/Sin[v],x]]]
+
+
+Int[u_.*(a_.+b_.*cos[d_.+e_.*x_]^2+c_.*sin[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
+  (a+c)^p*Int[ActivateTrig[u],x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[b-c]
+
+
+Int[u_.*(a_.+b_.*tan[d_.+e_.*x_]^2+c_.*sec[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
+  (a+c)^p*Int[ActivateTrig[u],x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[b+c]
+
+
+Int[u_.*(a_.+b_.*cot[d_.+e_.*x_]^2+c_.*csc[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
+  (a+c)^p*Int[ActivateTrig[u],x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[b+c]
+
+
+Int[u_/y_,x_Symbol] :=
+  With[{q=DerivativeDivides[ActivateTrig[y],ActivateTrig[u],x]},
+    q*Log[RemoveContent[ActivateTrig[y],x]] /;
+ Not[FalseQ[q]]] /;
+Not[InertTrigFreeQ[u]]
+
+
+Int[u_/(y_*w_),x_Symbol] :=
+  With[{q=DerivativeDivides[ActivateTrig[y*w],ActivateTrig[u],x]},
+    q*Log[RemoveContent[ActivateTrig[y*w],x]] /;
+ Not[FalseQ[q]]] /;
+Not[InertTrigFreeQ[u]]
+
+
+Int[u_*y_^m_.,x_Symbol] :=
+  With[{q=DerivativeDivides[ActivateTrig[y],ActivateTrig[u],x]},
+   q*ActivateTrig[y^(m+1)]/(m+1) /;
+ Not[FalseQ[q]]] /;
+FreeQ[m,x] && NeQ[m+1] && Not[InertTrigFreeQ[u]]
+
+
+Int[u_*y_^m_.*z_^n_.,x_Symbol] :=
+  With[{q=DerivativeDivides[ActivateTrig[y*z],ActivateTrig[u*z^(n-m)],x]},
+   q*ActivateTrig[y^(m+1)*z^(m+1)]/(m+1) /;
+ Not[FalseQ[q]]] /;
+FreeQ[{m,n},x] && NeQ[m+1] && Not[InertTrigFreeQ[u]]
+
+
+Int[u_.*(a_.*F_[c_.+d_.*x_]^p_)^n_,x_Symbol] :=
+  With[{v=ActivateTrig[F[c+d*x]]},
+  a^IntPart[n]*(v/NonfreeFactors[v,x])^(p*IntPart[n])*(a*v^p)^FracPart[n]/NonfreeFactors[v,x]^(p*FracPart[n])*
+    Int[ActivateTrig[u]*NonfreeFactors[v,x]^(n*p),x]] /;
+FreeQ[{a,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && IntegerQ[p]
+
+
+Int[u_.*(a_.*(b_.*F_[c_.+d_.*x_])^p_)^n_.,x_Symbol] :=
+  With[{v=ActivateTrig[F[c+d*x]]},
+  a^IntPart[n]*(a*(b*v)^p)^FracPart[n]/(b*v)^(p*FracPart[n])*Int[ActivateTrig[u]*(b*v)^(n*p),x]] /;
+FreeQ[{a,b,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && Not[IntegerQ[p]]
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Tan[a+b*x]],x]","1/b*Subst[Int[F[x]/(1+x^2),x],x,Tan[a+b*x]]",Hold[
+  With[{d=FreeFactors[Tan[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]]]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x]] /;
+SimplifyFlag && InverseFunctionFreeQ[u,x],
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Tan[v],x]},
+  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]] /;
+ Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x]] /;
+InverseFunctionFreeQ[u,x]]
+
+
+Int[u_.*(a_.*tan[c_.+d_.*x_]^n_.+b_.*sec[c_.+d_.*x_]^n_.)^p_,x_Symbol] :=
+  Int[ActivateTrig[u]*Sec[c+d*x]^(n*p)*(b+a*Sin[c+d*x]^n)^p,x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p]
+
+
+Int[u_.*(a_.*cot[c_.+d_.*x_]^n_.+b_.*csc[c_.+d_.*x_]^n_.)^p_,x_Symbol] :=
+  Int[ActivateTrig[u]*Csc[c+d*x]^(n*p)*(b+a*Cos[c+d*x]^n)^p,x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p]
+
+
+Int[u_*(a_*F_[c_.+d_.*x_]^p_.+b_.*F_[c_.+d_.*x_]^q_.)^n_.,x_Symbol] :=
+  Int[ActivateTrig[u*F[c+d*x]^(n*p)*(a+b*F[c+d*x]^(q-p))^n],x] /;
+FreeQ[{a,b,c,d,p,q},x] && InertTrigQ[F] && IntegerQ[n] && PosQ[q-p]
+
+
+Int[u_*(a_*F_[d_.+e_.*x_]^p_.+b_.*F_[d_.+e_.*x_]^q_.+c_.*F_[d_.+e_.*x_]^r_.)^n_.,x_Symbol] :=
+  Int[ActivateTrig[u*F[d+e*x]^(n*p)*(a+b*F[d+e*x]^(q-p)+c*F[d+e*x]^(r-p))^n],x] /;
+FreeQ[{a,b,c,d,e,p,q,r},x] && InertTrigQ[F] && IntegerQ[n] && PosQ[q-p] && PosQ[r-p]
+
+
+Int[u_*(a_+b_.*F_[d_.+e_.*x_]^p_.+c_.*F_[d_.+e_.*x_]^q_.)^n_.,x_Symbol] :=
+  Int[ActivateTrig[u*F[d+e*x]^(n*p)*(b+a*F[d+e*x]^(-p)+c*F[d+e*x]^(q-p))^n],x] /;
+FreeQ[{a,b,c,d,e,p,q},x] && InertTrigQ[F] && IntegerQ[n] && NegQ[p]
+
+
+Int[u_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[ActivateTrig[u]*(a*E^(-a/b*(c+d*x)))^n,x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2]
+
+
+Int[u_,x_Symbol] :=
+  Int[TrigSimplify[u],x] /;
+TrigSimplifyQ[u]
+
+
+Int[u_.*(a_*v_)^p_,x_Symbol] :=
+  With[{uu=ActivateTrig[u],vv=ActivateTrig[v]},
+  a^IntPart[p]*(a*vv)^FracPart[p]/(vv^FracPart[p])*Int[uu*vv^p,x]] /;
+FreeQ[{a,p},x] && Not[IntegerQ[p]] && Not[InertTrigFreeQ[v]]
+
+
+Int[u_.*(v_^m_)^p_,x_Symbol] :=
+  With[{uu=ActivateTrig[u],vv=ActivateTrig[v]},
+  (vv^m)^FracPart[p]/(vv^(m*FracPart[p]))*Int[uu*vv^(m*p),x]] /;
+FreeQ[{m,p},x] && Not[IntegerQ[p]] && Not[InertTrigFreeQ[v]]
+
+
+Int[u_.*(v_^m_.*w_^n_.)^p_,x_Symbol] :=
+  With[{uu=ActivateTrig[u],vv=ActivateTrig[v],ww=ActivateTrig[w]},
+  (vv^m*ww^n)^FracPart[p]/(vv^(m*FracPart[p])*ww^(n*FracPart[p]))*Int[uu*vv^(m*p)*ww^(n*p),x]] /;
+FreeQ[{m,n,p},x] && Not[IntegerQ[p]] && (Not[InertTrigFreeQ[v]] || Not[InertTrigFreeQ[w]])
+
+
+Int[u_,x_Symbol] :=
+  With[{v=ExpandTrig[u,x]},
+  Int[v,x] /;
+ SumQ[v]] /;
+Not[InertTrigFreeQ[u]]
+
+
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{w=Block[{ShowSteps=False,$StepCounter=Null}, 
+			Int[SubstFor[1/(1+FreeFactors[Tan[FunctionOfTrig[u,x]/2],x]^2*x^2),Tan[FunctionOfTrig[u,x]/2]/FreeFactors[Tan[FunctionOfTrig[u,x]/2],x],u,x],x]]},  
+  ShowStep["","Int[F[Sin[a+b*x],Cos[a+b*x]],x]","2/b*Subst[Int[1/(1+x^2)*F[2*x/(1+x^2),(1-x^2)/(1+x^2)],x],x,Tan[(a+b*x)/2]]",Hold[
+  Module[{v=FunctionOfTrig[u,x],d},
+  d=FreeFactors[Tan[v/2],x];
+  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]]]] /;
+ FreeQ[w,Int]] /;
+SimplifyFlag && InverseFunctionFreeQ[u,x] && Not[FalseQ[FunctionOfTrig[u,x]]],
+
+Int[u_,x_Symbol] :=
+  With[{w=Block[{ShowSteps=False,$StepCounter=Null}, 
+			Int[SubstFor[1/(1+FreeFactors[Tan[FunctionOfTrig[u,x]/2],x]^2*x^2),Tan[FunctionOfTrig[u,x]/2]/FreeFactors[Tan[FunctionOfTrig[u,x]/2],x],u,x],x]]},  
+  Module[{v=FunctionOfTrig[u,x],d},
+  d=FreeFactors[Tan[v/2],x];
+  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]] /;
+ FreeQ[w,Int]] /;
+InverseFunctionFreeQ[u,x] && Not[FalseQ[FunctionOfTrig[u,x]]]]
+
+
+(* If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  ShowStep["","Int[F[Sin[a+b*x],Cos[a+b*x]],x]","2/b*Subst[Int[1/(1+x^2)*F[2*x/(1+x^2),(1-x^2)/(1+x^2)],x],x,Tan[(a+b*x)/2]]",Hold[
+  With[{d=FreeFactors[Tan[v/2],x]},
+  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]]]] /;
+ Not[FalseQ[v]]] /;
+SimplifyFlag && InverseFunctionFreeQ[u,x],
+
+Int[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[u,x]},
+  With[{d=FreeFactors[Tan[v/2],x]},
+  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]] /;
+ Not[FalseQ[v]]] /;
+InverseFunctionFreeQ[u,x]] *)
+
+
+Int[u_,x_Symbol] :=
+  With[{v=ActivateTrig[u]},
+   Defer[Int][v,x]] /;
+Not[InertTrigFreeQ[u]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.5 (c+d x)^m trig(a+b x)^n trig(a+b x)^p*)
+
+
+Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Cos[a_.+b_.*x_],x_Symbol] :=
+  (c+d*x)^m*Sin[a+b*x]^(n+1)/(b*(n+1)) - 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Sin[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]*Cos[a_.+b_.*x_]^n_.,x_Symbol] :=
+  -(c+d*x)^m*Cos[a+b*x]^(n+1)/(b*(n+1)) + 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Cos[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Cos[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(c+d*x)^m,Sin[a+b*x]^n*Cos[a+b*x]^p,x],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
+  -Int[(c+d*x)^m*Sin[a+b*x]^n*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sin[a+b*x]^(n-2)*Tan[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Cos[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
+  -Int[(c+d*x)^m*Cos[a+b*x]^n*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Cos[a+b*x]^(n-2)*Cot[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
+  (c+d*x)^m*Sec[a+b*x]^n/(b*n) - 
+  d*m/(b*n)*Int[(c+d*x)^(m-1)*Sec[a+b*x]^n,x] /;
+FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
+  -(c+d*x)^m*Csc[a+b*x]^n/(b*n) + 
+  d*m/(b*n)*Int[(c+d*x)^(m-1)*Csc[a+b*x]^n,x] /;
+FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^2*Tan[a_.+b_.*x_]^n_.,x_Symbol] :=
+  (c+d*x)^m*Tan[a+b*x]^(n+1)/(b*(n+1)) - 
+  d*m/(b*(n +1))*Int[(c+d*x)^(m-1)*Tan[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^2*Cot[a_.+b_.*x_]^n_.,x_Symbol] :=
+  -(c+d*x)^m*Cot[a+b*x]^(n+1)/(b*(n+1)) + 
+  d*m/(b*(n +1))*Int[(c+d*x)^(m-1)*Cot[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]*Tan[a_.+b_.*x_]^p_,x_Symbol] :=
+  -Int[(c+d*x)^m*Sec[a+b*x]*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sec[a+b*x]^3*Tan[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_,x_Symbol] :=
+  -Int[(c+d*x)^m*Sec[a+b*x]^n*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sec[a+b*x]^(n+2)*Tan[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]*Cot[a_.+b_.*x_]^p_,x_Symbol] :=
+  -Int[(c+d*x)^m*Csc[a+b*x]*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csc[a+b*x]^3*Cot[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_,x_Symbol] :=
+  -Int[(c+d*x)^m*Csc[a+b*x]^n*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csc[a+b*x]^(n+2)*Cot[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Module[{u=IntHide[Sec[a+b*x]^n*Tan[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Module[{u=IntHide[Csc[a+b*x]^n*Cot[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Sec[a_.+b_.*x_]^n_., x_Symbol] :=
+  2^n*Int[(c+d*x)^m*Csc[2*a+2*b*x]^n,x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[m] && IntegerQ[n]
+
+
+Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Sec[a_.+b_.*x_]^p_., x_Symbol] :=
+  Module[{u=IntHide[Csc[a+b*x]^n*Sec[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && RationalQ[m] && m>0 && n!=p
+
+
+Int[u_^m_.*F_[v_]^n_.*G_[w_]^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*F[ExpandToSum[v,x]]^n*G[ExpandToSum[v,x]]^p,x] /;
+FreeQ[{m,n,p},x] && TrigQ[F] && TrigQ[G] && EqQ[v-w] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]*(a_+b_.*Sin[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sin[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]*(a_+b_.*Cos[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Cos[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cos[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sec[c_.+d_.*x_]^2*(a_+b_.*Tan[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Tan[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Tan[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Csc[c_.+d_.*x_]^2*(a_+b_.*Cot[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Cot[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cot[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sec[c_.+d_.*x_]*Tan[c_.+d_.*x_]*(a_+b_.*Sec[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Sec[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sec[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Csc[c_.+d_.*x_]*Cot[c_.+d_.*x_]*(a_+b_.*Csc[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Csc[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Csc[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*x_]^p_.*Sin[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Sin[a+b*x]^p*Sin[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[a_.+b_.*x_]^p_.*Cos[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Cos[a+b*x]^p*Cos[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*x_]^p_.*Cos[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Sin[a+b*x]^p*Cos[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p,q]
+
+
+Int[(e_.+f_.*x_)^m_.*F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigExpand[(e+f*x)^m*G[c+d*x]^q,F,c+d*x,p,b/d,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && MemberQ[{Sin,Cos},F] && MemberQ[{Sec,Csc},G] && 
+  PositiveIntegerQ[p,q] && EqQ[b*c-a*d] && PositiveIntegerQ[b/d-1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.6 F^(c (a+b x)) trig(d+e x)^n*)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_],x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]/(e^2+b^2*c^2*Log[F]^2) - 
+  e*F^(c*(a+b*x))*Cos[d+e*x]/(e^2+b^2*c^2*Log[F]^2) /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2+b^2*c^2*Log[F]^2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_],x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]/(e^2+b^2*c^2*Log[F]^2) + 
+  e*F^(c*(a+b*x))*Sin[d+e*x]/(e^2+b^2*c^2*Log[F]^2) /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2+b^2*c^2*Log[F]^2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^n/(e^2*n^2+b^2*c^2*Log[F]^2) - 
+  e*n*F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n-1)/(e^2*n^2+b^2*c^2*Log[F]^2) + 
+  (n*(n-1)*e^2)/(e^2*n^2+b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Sin[d+e*x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^m_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^m/(e^2*m^2+b^2*c^2*Log[F]^2) + 
+  e*m*F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(m-1)/(e^2*m^2+b^2*c^2*Log[F]^2) + 
+  (m*(m-1)*e^2)/(e^2*m^2+b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Cos[d+e*x]^(m-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*m^2+b^2*c^2*Log[F]^2] && RationalQ[m] && m>1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
+  F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n+1)/(e*(n+1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
+  F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(n+1)/(e*(n+1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
+  F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n+1)/(e*(n+1)) + 
+  (e^2*(n+2)^2+b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Sin[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
+  F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(n+1)/(e*(n+1)) + 
+  (e^2*(n+2)^2+b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Cos[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
+  E^(I*n*(d+e*x))*Sin[d+e*x]^n/(-1+E^(2*I*(d+e*x)))^n*Int[F^(c*(a+b*x))*(-1+E^(2*I*(d+e*x)))^n/E^(I*n*(d+e*x)),x] /;
+FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
+  E^(I*n*(d+e*x))*Cos[d+e*x]^n/(1+E^(2*I*(d+e*x)))^n*Int[F^(c*(a+b*x))*(1+E^(2*I*(d+e*x)))^n/E^(I*n*(d+e*x)),x] /;
+FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Tan[d_.+e_.*x_]^n_.,x_Symbol] :=
+  I^n*Int[ExpandIntegrand[F^(c*(a+b*x))*(1-E^(2*I*(d+e*x)))^n/(1+E^(2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cot[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (-I)^n*Int[ExpandIntegrand[F^(c*(a+b*x))*(1+E^(2*I*(d+e*x)))^n/(1-E^(2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*(Sec[d+e x]^n/(e^2*n^2+b^2*c^2*Log[F]^2)) - 
+  e*n*F^(c*(a+b*x))*Sec[d+e x]^(n+1)*(Sin[d+e x]/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
+  e^2*n*((n+1)/(e^2*n^2+b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Sec[d+e x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*(Csc[d+e x]^n/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
+  e*n*F^(c*(a+b*x))*Csc[d+e x]^(n+1)*(Cos[d+e x]/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
+  e^2*n*((n+1)/(e^2*n^2+b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Csc[d+e x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sec[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
+  F^(c*(a+b*x))*Sec[d+e x]^(n-1)*Sin[d+e x]/(e*(n-1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && NeQ[n-1] && NeQ[n-2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Csc[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
+  F^(c*(a+b*x))*Csc[d+e x]^(n-1)*Cos[d+e x]/(e*(n-1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && NeQ[n-1] && NeQ[n-2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sec[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
+  F^(c*(a+b*x))*Sec[d+e x]^(n-1)*Sin[d+e x]/(e*(n-1)) + 
+  (e^2*(n-2)^2+b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Sec[d+e x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && RationalQ[n] && n>1 && n!=2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Csc[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) - 
+  F^(c*(a+b*x))*Csc[d+e x]^(n-1)*Cos[d+e x]/(e*(n-1)) + 
+  (e^2*(n-2)^2+b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Csc[d+e x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && RationalQ[n] && n>1 && n!=2
+
+
+(* Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
+  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(I*n*(d+e*x))/(1+E^(2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
+
+
+(* Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (2*I)^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-I*n*(d+e*x))/(1-E^(-2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+k_.*Pi+e_.*x_]^n_.,x_Symbol] :=
+  2^n*E^(I*k*n*Pi)*E^(I*n*(d+e*x))*F^(c*(a+b*x))/(I*e*n+b*c*Log[F])*
+    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),-E^(2*I*k*Pi)*E^(2*I*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[4*k] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
+  2^n*E^(I*n*(d+e*x))*F^(c*(a+b*x))/(I*e*n+b*c*Log[F])*
+    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),-E^(2*I*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+k_.*Pi+e_.*x_]^n_.,x_Symbol] :=
+  (-2*I)^n*E^(I*k*n*Pi)*E^(I*n*(d+e*x))*(F^(c*(a+b*x))/(I*e*n+b*c*Log[F]))*
+    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),E^(2*I*k*Pi)*E^(2*I*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[4*k] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (-2*I)^n*E^(I*n*(d+e*x))*(F^(c*(a+b*x))/(I*e*n+b*c*Log[F]))*
+    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),E^(2*I*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (1+E^(2*I*(d+e*x)))^n*Sec[d+e*x]^n/E^(I*n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(I*n*(d+e*x))/(1+E^(2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (1-E^(-2*I*(d+e*x)))^n*Csc[d+e*x]^n/E^(-I*n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-I*n*(d+e*x))/(1-E^(-2*I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*f^n*Int[F^(c*(a+b*x))*Cos[d/2+e*x/2-f*Pi/(4*g)]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2-g^2] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*f^n*Int[F^(c*(a+b*x))*Cos[d/2+e*x/2]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*f^n*Int[F^(c*(a+b*x))*Sin[d/2+e*x/2]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^m_.*(f_+g_.*Sin[d_.+e_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[F^(c*(a+b*x))*Tan[f*Pi/(4*g)-d/2-e*x/2]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2-g^2] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
+  f^n*Int[F^(c*(a+b*x))*Tan[d/2+e*x/2]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
+  f^n*Int[F^(c*(a+b*x))*Cot[d/2+e*x/2]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Cos[d_.+e_.*x_])/(f_+g_.*Sin[d_.+e_.*x_]),x_Symbol] :=
+  2*i*Int[F^(c*(a+b*x))*(Cos[d+e*x]/(f+g*Sin[d+e*x])),x] + 
+  Int[F^(c*(a+b*x))*((h-i*Cos[d+e*x])/(f+g*Sin[d+e*x])),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2-i^2] && EqQ[g*h-f*i]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Sin[d_.+e_.*x_])/(f_+g_.*Cos[d_.+e_.*x_]),x_Symbol] :=
+  2*i*Int[F^(c*(a+b*x))*(Sin[d+e*x]/(f+g*Cos[d+e*x])),x] + 
+  Int[F^(c*(a+b*x))*((h-i*Sin[d+e*x])/(f+g*Cos[d+e*x])),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2-i^2] && EqQ[g*h+f*i]
+
+
+Int[F_^(c_.*u_)*G_[v_]^n_.,x_Symbol] :=
+  Int[F^(c*ExpandToSum[u,x])*G[ExpandToSum[v,x]]^n,x] /;
+FreeQ[{F,c,n},x] && TrigQ[G] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Module[{u=IntHide[F^(c*(a+b*x))*Sin[d+e*x]^n,x]},
+  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
+
+
+Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Module[{u=IntHide[F^(c*(a+b*x))*Cos[d+e*x]^n,x]},
+  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
+
+
+Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_],x_Symbol] :=
+  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Sin[d+e*x] - 
+  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cos[d+e*x],x] - 
+  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sin[d+e*x],x] /;
+FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
+
+
+Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_],x_Symbol] :=
+  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Cos[d+e*x] + 
+  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sin[d+e*x],x] - 
+  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cos[d+e*x],x] /;
+FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
+
+
+(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_.,x_Symbol] :=
+  I^n/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-I*(d+e*x))-E^(I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
+
+
+(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_.,x_Symbol] :=
+  1/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-I*(d+e*x))+E^(I*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*Cos[f_.+g_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[F^(c*(a+b*x)),Sin[d+e*x]^m*Cos[f+g*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n]
+
+
+Int[x_^p_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*Cos[f_.+g_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^p*F^(c*(a+b*x)),Sin[d+e*x]^m*Cos[f+g*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n,p]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*G_[d_.+e_.*x_]^m_.*H_[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^(c*(a+b*x)),G[d+e*x]^m*H[d+e*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && PositiveIntegerQ[m,n] && TrigQ[G] && TrigQ[H]
+
+
+Int[F_^u_*Sin[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Sin[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
+
+
+Int[F_^u_*Cos[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Cos[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
+
+
+Int[F_^u_*Sin[v_]^m_.*Cos[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Sin[v]^m*Cos[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[m,n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.7 x^m trig(a+b log(c x^n))^p*)
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(p+2)*Sin[a+b*Log[c*x^n]]^(p+2)/(p+1) + 
+  x*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2+1] && NeQ[p+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(p+2)*Cos[a+b*Log[c*x^n]]^(p+2)/(p+1) - 
+  x*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2+1] && NeQ[p+1]
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(E^(a*b*n*p)/(2*b*n*p)*(c*x^n)^(-1/(n*p))-E^(-a*b*n*p)/(2*b*n*p)*(c*x^n)^(1/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(E^(a*b*n*p)/2*(c*x^n)^(-1/(n*p))-E^(-a*b*n*p)/2*(c*x^n)^(1/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+1]
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  x*Sin[a+b*Log[c*x^n]]/(b^2*n^2+1) -
+  b*n*x*Cos[a+b*Log[c*x^n]]/(b^2*n^2+1) /;
+FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  x*Cos[a+b*Log[c*x^n]]/(1+b^2*n^2) +
+  b*n*x*Sin[a+b*Log[c*x^n]]/(b^2*n^2+1) /;
+FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2+1]
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Sin[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) -
+  b*n*p*x*Cos[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+1) +
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+1)*Int[Sin[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Cos[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
+  b*n*p*x*Cos[a+b*Log[c*x^n]]^(p-1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2*p^2+1) +
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+1)*Int[Cos[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
+  x*Sin[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (b^2*n^2*(p+2)^2+1)/(b^2*n^2*(p+1)*(p+2))*Int[Sin[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
+  x*Cos[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (b^2*n^2*(p+2)^2+1)/(b^2*n^2*(p+1)*(p+2))*Int[Cos[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+1]
+
+
+Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(I/(E^(I*a)*(c*x^n)^(I*b))-I*E^(I*a)*(c*x^n)^(I*b))^p/((1-I*b*n*p)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
+    Hypergeometric2F1[-p,(1-I*b*n*p)/(2*I*b*n),1+(1-I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(1/(E^(I*a)*(c*x^n)^(I*b))+E^(I*a)*(c*x^n)^(I*b))^p/((1-I*b*n*p)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
+    Hypergeometric2F1[-p,(1-I*b*n*p)/(2*I*b*n),1+(1-I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p+2)*x^(m+1)*Sin[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) + 
+  x^(m+1)*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2+(m+1)^2] && NeQ[p+1] && NeQ[m+1]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p+2)*x^(m+1)*Cos[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) - 
+  x^(m+1)*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2+(m+1)^2] && NeQ[p+1] && NeQ[m+1]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  1/2^p*Int[ExpandIntegrand[x^m*((m+1)/(b*n*p)*E^(a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) - 
+    (m+1)/(b*n*p)*E^(-a*b*n*p/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  1/2^p*Int[ExpandIntegrand[x^m*(E^(a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) - 
+    E^(-a*b*n*p/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) -
+  b*n*x^(m+1)*Cos[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2+(m+1)^2]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) +
+  b*n*x^(m+1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2+(m+1)^2]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) -
+  b*n*p*x^(m+1)*Cos[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+(m+1)^2) +
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Sin[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
+  b*n*p*x^(m+1)*Sin[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+(m+1)^2) +
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Cos[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
+  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (b^2*n^2*(p+2)^2+(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Sin[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+(m+1)^2]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x^(m+1)*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
+  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (b^2*n^2*(p+2)^2+(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Cos[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+(m+1)^2]
+
+
+Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*(I*E^(-I*a)*(c*x^n)^(-I*b)-I*E^(I*a)*(c*x^n)^(I*b))^p/((m+1-I*b*n*p)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
+    Hypergeometric2F1[-p,(m+1-I*b*n*p)/(2*I*b*n),1+(m+1-I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*(E^(-I*a)*(c*x^n)^(-I*b)+E^(I*a)*(c*x^n)^(I*b))^p/((m+1-I*b*n*p)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
+    Hypergeometric2F1[-p,(m+1-I*b*n*p)/(2*I*b*n),1+(m+1-I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*E^(a*b*n)*Int[(c*x^n)^(1/n)/(E^(2*a*b*n)+(c*x^n)^(2/n)),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2+1]
+
+
+Int[Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*b*n*E^(a*b*n)*Int[(c*x^n)^(1/n)/(E^(2*a*b*n)-(c*x^n)^(2/n)),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2+1]
+
+
+Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x*Sec[a+b*Log[c*x^n]]^(p-2)/(p-1) + 
+  x*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2+1] && NeQ[p-1]
+
+
+Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x*Csc[a+b*Log[c*x^n]]^(p-2)/(p-1) - 
+  x*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2+1] && NeQ[p-1]
+
+
+Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  x*Sec[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2+1)/(b^2*n^2*(p-1)*(p-2))*Int[Sec[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+1]
+
+
+Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  x*Csc[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2+1)/(b^2*n^2*(p-1)*(p-2))*Int[Csc[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+1]
+
+
+Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -b*n*p*x*Sin[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+1) +
+  x*Sec[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+1)*Int[Sec[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  b*n*p*x*Cos[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+1) +
+  x*Csc[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+1)*Int[Csc[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  x*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(1+I*b*n*p)*
+    (E^(I*a)*(c*x^n)^(I*b)/(1+E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
+    Hypergeometric2F1[p,(1+I*b*n*p)/(2*I*b*n),1+(1+I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
+
+
+Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  x*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(1+I*b*n*p)*
+    (-I*E^(I*a)*(c*x^n)^(I*b)/(1-E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
+    Hypergeometric2F1[p,(1+I*b*n*p)/(2*I*b*n),1+(1+I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*E^(a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(2*a*b*n/(m+1))+(c*x^n)^(2*(m+1)/n)),x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2+(m+1)^2]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*b*n/(m+1)*E^(a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(2*a*b*n/(m+1))-(c*x^n)^(2*(m+1)/n)),x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2+(m+1)^2]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x^(m+1)*Sec[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) + 
+  x^(m+1)*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x^(m+1)*Csc[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) - 
+  x^(m+1)*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  (m+1)*x^(m+1)*Sec[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2+(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Sec[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+(m+1)^2]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x^(m+1)*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  (m+1)*x^(m+1)*Csc[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2+(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Csc[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+(m+1)^2]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -b*n*p*x^(m+1)*Sin[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+(m+1)^2) +
+  (m+1)*x^(m+1)*Sec[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Sec[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  b*n*p*x^(m+1)*Cos[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+(m+1)^2) +
+  (m+1)*x^(m+1)*Csc[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Csc[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  x^(m+1)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(m+1+I*b*n*p)*
+    (E^(I*a)*(c*x^n)^(I*b)/(1+E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
+    Hypergeometric2F1[p,(m+1+I*b*n*p)/(2*I*b*n),1+(m+1+I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  x^(m+1)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(m+1+I*b*n*p)*
+    (-I*E^(I*a)*(c*x^n)^(I*b)/(1-E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
+    Hypergeometric2F1[p,(m+1+I*b*n*p)/(2*I*b*n),1+(m+1+I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
+
+
+Int[Sin[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  -Cos[a*x*Log[b*x]^p]/a -
+  p*Int[Sin[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b},x] && RationalQ[p] && p>0
+
+
+Int[Cos[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sin[a*x*Log[b*x]^p]/a -
+  p*Int[Cos[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b},x] && RationalQ[p] && p>0
+
+
+Int[Sin[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  -Cos[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) -
+  p/n*Int[Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
+  (n-1)/(a*n)*Int[Cos[a*x^n*Log[b*x]^p]/x^n,x] /;
+FreeQ[{a,b},x] && RationalQ[n,p] && p>0
+
+
+Int[Cos[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sin[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) -
+  p/n*Int[Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] +
+  (n-1)/(a*n)*Int[Sin[a*x^n*Log[b*x]^p]/x^n,x] /;
+FreeQ[{a,b},x] && RationalQ[n,p] && p>0
+
+
+Int[x_^m_.*Sin[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  -Cos[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
+
+
+Int[x_^m_.*Cos[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sin[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
+
+
+Int[x_^m_.*Sin[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  -x^(m-n+1)*Cos[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] +
+  (m-n+1)/(a*n)*Int[x^(m-n)*Cos[a*x^n*Log[b*x]^p],x] /;
+FreeQ[{a,b,m,n},x] && RationalQ[p] && p>0 && NeQ[m-n+1]
+
+
+Int[x_^m_*Cos[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  x^(m-n+1)*Sin[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
+  (m-n+1)/(a*n)*Int[x^(m-n)*Sin[a*x^n*Log[b*x]^p],x] /;
+FreeQ[{a,b,m,n},x] && RationalQ[p] && p>0 && NeQ[m-n+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*4.4.8 Active trig functions*)
+
+
+Int[Sin[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Sin[a*x]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[Cos[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Cos[a*x]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[Sin[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Sin[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
+
+
+Int[Cos[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Cos[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
+
+
+Int[Sin[u_]^n_.,x_Symbol] :=
+  Module[{lst=QuotientOfLinearsParts[u,x]},
+  Int[Sin[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
+PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
+
+
+Int[Cos[u_]^n_.,x_Symbol] :=
+  Module[{lst=QuotientOfLinearsParts[u,x]},
+  Int[Cos[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
+PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
+
+
+Int[u_.*Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
+  Int[u*Sin[v]^(p+q),x] /;
+EqQ[v-w]
+
+
+Int[u_.*Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
+  Int[u*Cos[v]^(p+q),x] /;
+EqQ[v-w]
+
+
+Int[Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Sin[v]^p*Sin[w]^q,x],x] /;
+(PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x]) && PositiveIntegerQ[p,q]
+
+
+Int[Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Cos[v]^p*Cos[w]^q,x],x] /;
+(PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x]) && PositiveIntegerQ[p,q]
+
+
+Int[x_^m_.*Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Sin[v]^p*Sin[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[x_^m_.*Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Cos[v]^p*Cos[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[u_.*Sin[v_]^p_.*Cos[w_]^p_.,x_Symbol] :=
+  1/2^p*Int[u*Sin[2*v]^p,x] /;
+EqQ[v-w] && IntegerQ[p]
+
+
+Int[Sin[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Sin[v]^p*Cos[w]^q,x],x] /;
+PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[x_^m_.*Sin[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Sin[v]^p*Cos[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[Sin[v_]*Tan[w_]^n_.,x_Symbol] :=
+  -Int[Cos[v]*Tan[w]^(n-1),x] + Cos[v-w]*Int[Sec[w]*Tan[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cos[v_]*Cot[w_]^n_.,x_Symbol] :=
+  -Int[Sin[v]*Cot[w]^(n-1),x] + Cos[v-w]*Int[Csc[w]*Cot[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sin[v_]*Cot[w_]^n_.,x_Symbol] :=
+  Int[Cos[v]*Cot[w]^(n-1),x] + Sin[v-w]*Int[Csc[w]*Cot[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cos[v_]*Tan[w_]^n_.,x_Symbol] :=
+  Int[Sin[v]*Tan[w]^(n-1),x] - Sin[v-w]*Int[Sec[w]*Tan[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sin[v_]*Sec[w_]^n_.,x_Symbol] :=
+  Cos[v-w]*Int[Tan[w]*Sec[w]^(n-1),x] + Sin[v-w]*Int[Sec[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cos[v_]*Csc[w_]^n_.,x_Symbol] :=
+  Cos[v-w]*Int[Cot[w]*Csc[w]^(n-1),x] - Sin[v-w]*Int[Csc[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sin[v_]*Csc[w_]^n_.,x_Symbol] :=
+  Sin[v-w]*Int[Cot[w]*Csc[w]^(n-1),x] + Cos[v-w]*Int[Csc[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cos[v_]*Sec[w_]^n_.,x_Symbol] :=
+  -Sin[v-w]*Int[Tan[w]*Sec[w]^(n-1),x] + Cos[v-w]*Int[Sec[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_+b_.*Sin[c_.+d_.*x_]*Cos[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[(e+f*x)^m*(a+b*Sin[2*c+2*d*x]/2)^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[x_^m_.*(a_+b_.*Sin[c_.+d_.*x_]^2)^n_,x_Symbol] :=
+  1/2^n*Int[x^m*(2*a+b-b*Cos[2*c+2*d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
+
+
+Int[x_^m_.*(a_+b_.*Cos[c_.+d_.*x_]^2)^n_,x_Symbol] :=
+  1/2^n*Int[x^m*(2*a+b+b*Cos[2*c+2*d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
+  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Sin[a+b*x^n]^p,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
+  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Cos[a+b*x^n]^p,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
+
+
+Int[(f_.+g_.*x_)^m_./(a_.+b_.*Cos[d_.+e_.*x_]^2+c_.*Sin[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(f_.+g_.*x_)^m_.*Sec[d_.+e_.*x_]^2/(b_+c_.*Tan[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
+FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*Sec[d_.+e_.*x_]^2/(b_.+a_.*Sec[d_.+e_.*x_]^2+c_.*Tan[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(f_.+g_.*x_)^m_.*Csc[d_.+e_.*x_]^2/(c_+b_.*Cot[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
+FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*Csc[d_.+e_.*x_]^2/(c_.+b_.*Cot[d_.+e_.*x_]^2+a_.*Csc[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
+  -I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
+  Int[(e+f*x)^m*E^(I*(c+d*x))/(a-Rt[a^2-b^2,2]-I*b*E^(I*(c+d*x))),x] + 
+  Int[(e+f*x)^m*E^(I*(c+d*x))/(a+Rt[a^2-b^2,2]-I*b*E^(I*(c+d*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && PosQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
+  I*(e+f*x)^(m+1)/(b*f*(m+1)) - 
+  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(a-Rt[a^2-b^2,2]+b*E^(I*(c+d*x))),x] - 
+  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(a+Rt[a^2-b^2,2]+b*E^(I*(c+d*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && PosQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
+  -I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
+  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a-Rt[-a^2+b^2,2]+b*E^(I*(c+d*x))),x] + 
+  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a+Rt[-a^2+b^2,2]+b*E^(I*(c+d*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NegQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
+  I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
+  Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a-Rt[-a^2+b^2,2]+I*b*E^(I*(c+d*x))),x] + 
+  Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a+Rt[-a^2+b^2,2]+I*b*E^(I*(c+d*x))),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NegQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]^n_/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
+  1/a*Int[(e+f*x)^m*Cos[c+d*x]^(n-2),x] - 
+  1/b*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)*Sin[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]^n_/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
+  1/a*Int[(e+f*x)^m*Sin[c+d*x]^(n-2),x] - 
+  1/b*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)*Cos[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]^n_/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
+  a/b^2*Int[(e+f*x)^m*Cos[c+d*x]^(n-2),x] - 
+  1/b*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)*Sin[c+d*x],x] - 
+  (a^2-b^2)/b^2*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)/(a+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]^n_/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
+  a/b^2*Int[(e+f*x)^m*Sin[c+d*x]^(n-2),x] - 
+  1/b*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)*Cos[c+d*x],x] - 
+  (a^2-b^2)/b^2*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)/(a+b*Cos[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)*(A_+B_.*Sin[c_.+d_.*x_])/(a_+b_.*Sin[c_.+d_.*x_])^2,x_Symbol] :=
+  -B*(e+f*x)*Cos[c+d*x]/(a*d*(a+b*Sin[c+d*x])) +
+  B*f/(a*d)*Int[Cos[c+d*x]/(a+b*Sin[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
+
+
+Int[(e_.+f_.*x_)*(A_+B_.*Cos[c_.+d_.*x_])/(a_+b_.*Cos[c_.+d_.*x_])^2,x_Symbol] :=
+  B*(e+f*x)*Sin[c+d*x]/(a*d*(a+b*Cos[c+d*x])) -
+  B*f/(a*d)*Int[Sin[c+d*x]/(a+b*Cos[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
+
+
+Int[(g_.+h_.*x_)^p_.*(a_+b_.*Sin[e_.+f_.*x_])^m_.*(c_+d_.*Sin[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*c^m*Int[(g+h*x)^p*Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[m] && IGeQ[n-m,0]
+
+
+Int[(g_.+h_.*x_)^p_.*(a_+b_.*Cos[e_.+f_.*x_])^m_.*(c_+d_.*Cos[e_.+f_.*x_])^n_.,x_Symbol] :=
+  a^m*c^m*Int[(g+h*x)^p*Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[m] && IGeQ[n-m,0]
+
+
+Int[(g_.+h_.*x_)^p_.*(a_+b_.*Sin[e_.+f_.*x_])^m_*(c_+d_.*Sin[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/Cos[e+f*x]^(2*FracPart[m])*
+    Int[(g+h*x)^p*Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[2*m] && IGeQ[n-m,0]
+
+
+Int[(g_.+h_.*x_)^p_.*(a_+b_.*Cos[e_.+f_.*x_])^m_*(c_+d_.*Cos[e_.+f_.*x_])^n_,x_Symbol] :=
+  a^IntPart[m]*c^IntPart[m]*(a+b*Cos[e+f*x])^FracPart[m]*(c+d*Cos[e+f*x])^FracPart[m]/Sin[e+f*x]^(2*FracPart[m])*
+    Int[(g+h*x)^p*Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m),x] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[2*m] && IGeQ[n-m,0]
+
+
+Int[Sec[v_]^m_.*(a_+b_.*Tan[v_])^n_., x_Symbol] :=
+  Int[(a*Cos[v]+b*Sin[v])^n,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
+
+
+Int[Csc[v_]^m_.*(a_+b_.*Cot[v_])^n_., x_Symbol] :=
+  Int[(b*Cos[v]+a*Sin[v])^n,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
+
+
+Int[u_.*Sin[a_.+b_.*x_]^m_.*Sin[c_.+d_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[u,Sin[a+b*x]^m*Sin[c+d*x]^n,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
+
+
+Int[u_.*Cos[a_.+b_.*x_]^m_.*Cos[c_.+d_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[u,Cos[a+b*x]^m*Cos[c+d*x]^n,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
+
+
+Int[Sec[a_.+b_.*x_]*Sec[c_+d_.*x_],x_Symbol] :=
+  -Csc[(b*c-a*d)/d]*Int[Tan[a+b*x],x] + Csc[(b*c-a*d)/b]*Int[Tan[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Csc[a_.+b_.*x_]*Csc[c_+d_.*x_],x_Symbol] :=
+  Csc[(b*c-a*d)/b]*Int[Cot[a+b*x],x] - Csc[(b*c-a*d)/d]*Int[Cot[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Tan[a_.+b_.*x_]*Tan[c_+d_.*x_],x_Symbol] :=
+  -b*x/d + b/d*Cos[(b*c-a*d)/d]*Int[Sec[a+b*x]*Sec[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Cot[a_.+b_.*x_]*Cot[c_+d_.*x_],x_Symbol] :=
+  -b*x/d + Cos[(b*c-a*d)/d]*Int[Csc[a+b*x]*Csc[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[u_.*(a_.*Cos[v_]+b_.*Sin[v_])^n_.,x_Symbol] :=
+  Int[u*(a*E^(-a/b*v))^n,x] /;
+FreeQ[{a,b,n},x] && EqQ[a^2+b^2]
+
+
+
+`)
+
+func resourcesRubi44MiscellaneousTrigFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi44MiscellaneousTrigFunctionsM, nil
+}
+
+func resourcesRubi44MiscellaneousTrigFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi44MiscellaneousTrigFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/4.4 Miscellaneous trig functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi5InverseTrigFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Inverse Trig Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.1 (a+b arcsin(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcSin[c*x])^n - 
+  b*c*n*Int[x*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcCos[c*x])^n + 
+  b*c*n*Int[x*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
+  c/(b*(n+1))*Int[x*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
+  c/(b*(n+1))*Int[x*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  1/(b*c)*Subst[Int[x^n*Cos[a/b-x/b],x],x,a+b*ArcSin[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  1/(b*c)*Subst[Int[x^n*Sin[a/b-x/b],x],x,a+b*ArcCos[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.2 (d x)^m (a+b arcsin(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./x_,x_Symbol] :=
+  Subst[Int[(a+b*x)^n/Tan[x],x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./x_,x_Symbol] :=
+  -Subst[Int[(a+b*x)^n/Cot[x],x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*ArcSin[c*x])^n/(d*(m+1)) - 
+  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*ArcCos[c*x])^n/(d*(m+1)) + 
+  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcSin[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcCos[c*x])^n/(m+1) + 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Sin[x]^(m-1)*(m-(m+1)*Sin[x]^2),x],x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -x^m*Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
+  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Cos[x]^(m-1)*(m-(m+1)*Cos[x]^2),x],x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] + 
+  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
+
+
+Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -x^m*Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
+  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] - 
+  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
+
+
+Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m*Cos[x],x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m*Sin[x],x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,m,n},x]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,m,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.3 (d+e x^2)^p (a+b arcsin(c x))^n*)
+
+
+(* Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n,x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] *)
+
+
+(* Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n,x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] *)
+
+
+Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])),x_Symbol] :=
+  Log[a+b*ArcSin[c*x]]/(b*c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])),x_Symbol] :=
+  -Log[a+b*ArcCos[c*x]]/(b*c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && Not[PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^p/(2*p+1)*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^p/(2*p+1)*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  x*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/2 - 
+  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[x*(a+b*ArcSin[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  x*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/2 + 
+  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[x*(a+b*ArcCos[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcSin[c*x])^n/(d*Sqrt[d+e*x^2]) - 
+  b*c*n/Sqrt[d]*Int[x*(a+b*ArcSin[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcCos[c*x])^n/(d*Sqrt[d+e*x^2]) + 
+  b*c*n/Sqrt[d]*Int[x*(a+b*ArcCos[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcSin[c*x])^n/(d*Sqrt[d+e*x^2]) - 
+  b*c*n*Sqrt[1-c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcSin[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcCos[c*x])^n/(d*Sqrt[d+e*x^2]) + 
+  b*c*n*Sqrt[1-c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcCos[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*c*n*d^p/(2*(p+1))*Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*c*n*d^p/(2*(p+1))*Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/(c*d)*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -1/(c*d)*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  d^p*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
+  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -d^p*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
+  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1-c^2*x^2)^FracPart[p])*
+     Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c*Subst[Int[(a+b*x)^n*Cos[x]^(2*p+1),x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -d^p/c*Subst[Int[(a+b*x)^n*Sin[x]^(2*p+1),x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n,(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n,(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(d*f+e*g*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(d*f+e*g*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.4 (f x)^m (d+e x^2)^p (a+b arcsin(c x))^n*)
+
+
+Int[x_*(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -1/e*Subst[Int[(a+b*x)^n*Tan[x],x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Subst[Int[(a+b*x)^n*Cot[x],x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) + 
+  b*n*d^p/(2*c*(p+1))*Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
+  b*n*d^p/(2*c*(p+1))*Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) + 
+  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
+  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  1/d*Subst[Int[(a+b*x)^n/(Cos[x]*Sin[x]),x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  -1/d*Subst[Int[(a+b*x)^n/(Cos[x]*Sin[x]),x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])/x_,x_Symbol] :=
+  (d+e*x^2)^p*(a+b*ArcSin[c*x])/(2*p) - 
+  b*c*d^p/(2*p)*Int[(1-c^2*x^2)^(p-1/2),x] + 
+  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])/x,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])/x_,x_Symbol] :=
+  (d+e*x^2)^p*(a+b*ArcCos[c*x])/(2*p) + 
+  b*c*d^p/(2*p)*Int[(1-c^2*x^2)^(p-1/2),x] + 
+  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])/x,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])/(f*(m+1)) - 
+  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2),x] - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])/(f*(m+1)) + 
+  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2),x] - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},  
+  Dist[d^p*(a+b*ArcSin[c*x]),u,x] - b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
+  p!=-1/2 && PositiveQ[d]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},  
+  Dist[d^p*(a+b*ArcCos[c*x]),u,x] + b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
+  p!=-1/2 && PositiveQ[d]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},
+  (a+b*ArcSin[c*x])*Int[x^m*(d+e*x^2)^p,x] - 
+  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},
+  (a+b*ArcCos[c*x])*Int[x^m*(d+e*x^2)^p,x] + 
+  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1),x] + 
+  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(f*(m+1)) + 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1),x] + 
+  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(f*(m+2)) - 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/((m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^m*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(f*(m+2)) + 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/((m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^m*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (RationalQ[m] || EqQ[n-1])
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[m] || IntegerQ[p] || n==1)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[m] || IntegerQ[p] || n==1)
+
+
+(* Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(e*m) + 
+  b*f*n/(c*m*Sqrt[d])*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSin[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
+
+
+(* Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(e*m) - 
+  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcCos[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(e*m) + 
+  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSin[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(e*m) - 
+  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcCos[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
+
+
+Int[x_^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Sin[x]^m,x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Cos[x]^m,x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f*x)^(m+1)*(a+b*ArcSin[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/(Sqrt[d]*f*(m+1)) - 
+  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f*x)^(m+1)*(a+b*ArcCos[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/(Sqrt[d]*f*(m+1)) + 
+  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(e*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] + 
+  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
+  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(e*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] - 
+  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
+  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(e*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] + 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(e*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] - 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f*x)^m*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && PositiveQ[d]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -(f*x)^m*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
+  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && PositiveQ[d]
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] + 
+  c*(m+2*p+1)*d^p/(b*f*(n+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] - 
+  c*(m+2*p+1)*d^p/(b*f*(n+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] + 
+  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] - 
+  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1-c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m*Cos[x]^(2*p+1),x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m*Sin[x]^(2*p+1),x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
+  IntegerQ[m] && -3<m<0
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
+  IntegerQ[m] && -3<m<0
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])/(2*e*(p+1)) + b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
+
+
+Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.5 u (a+b arcsin(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  Subst[Int[(a+b*x)^n*Cos[x]/(c*d+e*Sin[x]),x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  -Subst[Int[(a+b*x)^n*Sin[x]/(c*d+e*Cos[x]),x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*ArcSin[c*x])^n/(e*(m+1)) - 
+  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*ArcCos[c*x])^n/(e*(m+1)) + 
+  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]*(c*d+e*Sin[x])^m,x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]*(c*d+e*Cos[x])^m,x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
+
+
+Int[Px_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[ExpandExpression[Px,x],x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[ExpandExpression[Px,x],x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
+
+
+(* Int[Px_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=IntHide[Px,x]},  
+  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
+
+
+(* Int[Px_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=IntHide[Px,x]},  
+  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
+
+
+Int[Px_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[Px*(d+e*x)^m,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[Px*(d+e*x)^m,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
+
+
+Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
+  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
+
+
+Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
+  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
+
+
+Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
+  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
+  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
+
+
+Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
+  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
+  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
+
+
+Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
+  (m<-2*p-1 || m>3)
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
+  (m<-2*p-1 || m>3)
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
+  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
+  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
+
+
+Int[(f_+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d+e*x^2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -(f+g*x)^m*(d+e*x^2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
+  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  1/(b*c*Sqrt[d]*(n+1))*
+    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  -(f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
+  1/(b*c*Sqrt[d]*(n+1))*
+    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f+g*x)^m*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -(f+g*x)^m*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Sin[x])^m,x],x,ArcSin[c*x]] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Cos[x])^m,x],x,ArcCos[c*x]] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Log[h*(f+g*x)^m]*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcSin[c*x])^(n+1)/(f+g*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -Log[h*(f+g*x)^m]*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcCos[c*x])^(n+1)/(f+g*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
+  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
+  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
+
+
+Int[u_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
+  With[{v=IntHide[u,x]},  
+  Dist[a+b*ArcSin[c*x],v,x] - b*c*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
+ InverseFunctionFreeQ[v,x]] /;
+FreeQ[{a,b,c},x]
+
+
+Int[u_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
+  With[{v=IntHide[u,x]},  
+  Dist[a+b*ArcCos[c*x],v,x] + b*c*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
+ InverseFunctionFreeQ[v,x]] /;
+FreeQ[{a,b,c},x]
+
+
+Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcSin[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
+
+
+Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcCos[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
+
+
+Int[RFx_*ArcSin[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[ArcSin[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*ArcCos[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[ArcCos[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[RFx*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[RFx*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*ArcSin[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcSin[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*ArcCos[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcCos[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcSin[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcCos[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[u_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][u*(a+b*ArcSin[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[u_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][u*(a+b*ArcCos[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.1.6 Miscellaneous inverse sine*)
+(**)
+
+
+Int[(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcSin[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,n},x]
+
+
+Int[(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcCos[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,n},x]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[Sqrt[a_.+b_.*ArcSin[c_+d_.*x_^2]],x_Symbol] :=
+  x*Sqrt[a+b*ArcSin[c+d*x^2]] - 
+  Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelC[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Sqrt[c/b]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) + 
+  Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelS[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Sqrt[c/b]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
+
+
+Int[Sqrt[a_.+b_.*ArcCos[1+d_.*x_^2]],x_Symbol] :=
+  -2*Sqrt[a+b*ArcCos[1+d*x^2]]*Sin[ArcCos[1+d*x^2]/2]^2/(d*x) - 
+  2*Sqrt[Pi]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(Sqrt[1/b]*d*x) + 
+  2*Sqrt[Pi]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(Sqrt[1/b]*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[Sqrt[a_.+b_.*ArcCos[-1+d_.*x_^2]],x_Symbol] :=
+  2*Sqrt[a+b*ArcCos[-1+d*x^2]]*Cos[(1/2)*ArcCos[-1+d*x^2]]^2/(d*x) - 
+  2*Sqrt[Pi]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(Sqrt[1/b]*d*x) - 
+  2*Sqrt[Pi]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(Sqrt[1/b]*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[(a_.+b_.*ArcSin[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcSin[c+d*x^2])^n + 
+  2*b*n*Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcSin[c+d*x^2])^(n-1)/(d*x) - 
+  4*b^2*n*(n-1)*Int[(a+b*ArcSin[c+d*x^2])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
+
+
+Int[(a_.+b_.*ArcCos[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcCos[c+d*x^2])^n - 
+  2*b*n*Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcCos[c+d*x^2])^(n-1)/(d*x) - 
+  4*b^2*n*(n-1)*Int[(a+b*ArcCos[c+d*x^2])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
+
+
+Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2]),x_Symbol] :=
+  -x*(c*Cos[a/(2*b)]-Sin[a/(2*b)])*CosIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
+    (2*b*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) - 
+  x*(c*Cos[a/(2*b)]+Sin[a/(2*b)])*SinIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
+    (2*b*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
+
+
+Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2]),x_Symbol] :=
+  x*Cos[a/(2*b)]*CosIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[-d*x^2]) + 
+  x*Sin[a/(2*b)]*SinIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[-d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2]),x_Symbol] :=
+  x*Sin[a/(2*b)]*CosIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) - 
+  x*Cos[a/(2*b)]*SinIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/Sqrt[a_.+b_.*ArcSin[c_+d_.*x_^2]],x_Symbol] :=
+  -Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelC[1/(Sqrt[b*c]*Sqrt[Pi])*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Sqrt[b*c]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) - 
+  Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelS[(1/(Sqrt[b*c]*Sqrt[Pi]))*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Sqrt[b*c]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
+
+
+Int[1/Sqrt[a_.+b_.*ArcCos[1+d_.*x_^2]],x_Symbol] :=
+  -2*Sqrt[Pi/b]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) - 
+   2*Sqrt[Pi/b]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/Sqrt[a_.+b_.*ArcCos[-1+d_.*x_^2]],x_Symbol] :=
+  2*Sqrt[Pi/b]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) - 
+  2*Sqrt[Pi/b]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2])^(3/2),x_Symbol] :=
+  -Sqrt[-2*c*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcSin[c+d*x^2]]) - 
+  (c/b)^(3/2)*Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelC[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Cos[(1/2)*ArcSin[c+d*x^2]]-c*Sin[ArcSin[c+d*x^2]/2]) + 
+  (c/b)^(3/2)*Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelS[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
+    (Cos[(1/2)*ArcSin[c+d*x^2]]-c*Sin[ArcSin[c+d*x^2]/2]) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
+
+
+Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2])^(3/2),x_Symbol] :=
+  Sqrt[-2*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcCos[1+d*x^2]]) - 
+  2*(1/b)^(3/2)*Sqrt[Pi]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) + 
+  2*(1/b)^(3/2)*Sqrt[Pi]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2])^(3/2),x_Symbol] :=
+  Sqrt[2*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcCos[-1+d*x^2]]) - 
+  2*(1/b)^(3/2)*Sqrt[Pi]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) - 
+  2*(1/b)^(3/2)*Sqrt[Pi]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2])^2,x_Symbol] :=
+  -Sqrt[-2*c*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcSin[c+d*x^2])) - 
+  x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*CosIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
+    (4*b^2*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) + 
+  x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*SinIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
+    (4*b^2*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
+
+
+Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2])^2,x_Symbol] :=
+  Sqrt[-2*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcCos[1+d*x^2])) + 
+  x*Sin[a/(2*b)]*CosIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[(-d)*x^2]) - 
+  x*Cos[a/(2*b)]*SinIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[(-d)*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2])^2,x_Symbol] :=
+  Sqrt[2*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcCos[-1+d*x^2])) - 
+  x*Cos[a/(2*b)]*CosIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) - 
+  x*Sin[a/(2*b)]*SinIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[(a_.+b_.*ArcSin[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcSin[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
+  Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcSin[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) - 
+  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcSin[c+d*x^2])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[(a_.+b_.*ArcCos[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcCos[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) - 
+  Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcCos[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) - 
+  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcCos[c+d*x^2])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[ArcSin[a_.*x_^p_]^n_./x_,x_Symbol] :=
+  1/p*Subst[Int[x^n*Cot[x],x],x,ArcSin[a*x^p]] /;
+FreeQ[{a,p},x] && PositiveIntegerQ[n]
+
+
+Int[ArcCos[a_.*x_^p_]^n_./x_,x_Symbol] :=
+  -1/p*Subst[Int[x^n*Tan[x],x],x,ArcCos[a*x^p]] /;
+FreeQ[{a,p},x] && PositiveIntegerQ[n]
+
+
+Int[u_.*ArcSin[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCsc[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCos[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcSec[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[ArcSin[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
+  Sqrt[-b*x^2]/(b*x)*Subst[Int[ArcSin[x]^n/Sqrt[1-x^2],x],x,Sqrt[1+b*x^2]] /;
+FreeQ[{b,n},x]
+
+
+Int[ArcCos[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
+  Sqrt[-b*x^2]/(b*x)*Subst[Int[ArcCos[x]^n/Sqrt[1-x^2],x],x,Sqrt[1+b*x^2]] /;
+FreeQ[{b,n},x]
+
+
+Int[u_.*f_^(c_.*ArcSin[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[ReplaceAll[u,x->-a/b+Sin[x]/b]*f^(c*x^n)*Cos[x],x],x,ArcSin[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[u_.*f_^(c_.*ArcCos[a_.+b_.*x_]^n_.),x_Symbol] :=
+  -1/b*Subst[Int[ReplaceAll[u,x->-a/b+Cos[x]/b]*f^(c*x^n)*Sin[x],x],x,ArcCos[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[ArcSin[a_.*x_^2+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
+  x*ArcSin[a*x^2+b*Sqrt[c+d*x^2]] - 
+  x*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]/Sqrt[(-x^2)*(b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2])]*
+    Int[x*(b*d+2*a*Sqrt[c+d*x^2])/(Sqrt[c+d*x^2]*Sqrt[b^2*d +a^2*x^2+2*a*b*Sqrt[c+d*x^2]]),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2*c,1]
+
+
+Int[ArcCos[a_.*x_^2+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
+  x*ArcCos[a*x^2+b*Sqrt[c+d*x^2]] + 
+  x*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]/Sqrt[(-x^2)*(b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2])]*
+    Int[x*(b*d+2*a*Sqrt[c+d*x^2])/(Sqrt[c+d*x^2]*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2*c,1]
+
+
+Int[ArcSin[u_],x_Symbol] :=
+  x*ArcSin[u] -
+  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1-u^2],x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[ArcCos[u_],x_Symbol] :=
+  x*ArcCos[u] +
+  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1-u^2],x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSin[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcSin[u])/(d*(m+1)) -
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1-u^2],x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCos[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCos[u])/(d*(m+1)) +
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1-u^2],x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[v_*(a_.+b_.*ArcSin[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcSin[u]),w,x] -
+  b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1-u^2],x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+Int[v_*(a_.+b_.*ArcCos[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCos[u]),w,x] +
+  b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1-u^2],x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.2.1 u (a+b arctan(c x))^n*)
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcTan[c*x])^n -
+  b*c*n*Int[x*(a+b*ArcTan[c*x])^(n-1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcCot[c*x])^n +
+  b*c*n*Int[x*(a+b*ArcCot[c*x])^(n-1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  -(a+b*ArcTan[c*x])^n*Log[2*d/(d+e*x)]/e +
+  b*c*n/e*Int[(a+b*ArcTan[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  -(a+b*ArcCot[c*x])^n*Log[2*d/(d+e*x)]/e -
+  b*c*n/e*Int[(a+b*ArcCot[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
+
+
+Int[ArcTan[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
+  -ArcTan[c*d/e]*Log[d+e*x]/e + I*PolyLog[2,Simp[I*c*(d+e*x)/(I*c*d-e),x]]/(2*e) - I*PolyLog[2,Simp[I*c*(d+e*x)/(I*c*d+e),x]]/(2*e) /;
+FreeQ[{c,d,e},x] && PositiveQ[I*c*d/e+1] && NegativeQ[I*c*d/e-1]
+
+
+(* Int[ArcCot[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
+  ? /;
+FreeQ[{c,d,e},x] && PositiveQ[I*c*d/e+1] && NegativeQ[I*c*d/e-1] *)
+
+
+Int[ArcTan[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
+  I/2*Int[Log[1-I*c*x]/(d+e*x),x] - I/2*Int[Log[1+I*c*x]/(d+e*x),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[ArcCot[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
+  I/2*Int[Log[1-I/(c*x)]/(d+e*x),x] - I/2*Int[Log[1+I/(c*x)]/(d+e*x),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[(a_+b_.*ArcTan[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
+  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcTan[c*x]/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(a_+b_.*ArcCot[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
+  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcCot[c*x]/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  (d+e*x)^(p+1)*(a+b*ArcTan[c*x])/(e*(p+1)) - 
+  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  (d+e*x)^(p+1)*(a+b*ArcCot[c*x])/(e*(p+1)) + 
+  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_/x_,x_Symbol] :=
+  2*(a+b*ArcTan[c*x])^n*ArcTanh[1-2*I/(I-c*x)] -
+  2*b*c*n*Int[(a+b*ArcTan[c*x])^(n-1)*ArcTanh[1-2*I/(I-c*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_/x_,x_Symbol] :=
+  2*(a+b*ArcCot[c*x])^n*ArcCoth[1-2*I/(I-c*x)] +
+  2*b*c*n*Int[(a+b*ArcCot[c*x])^(n-1)*ArcCoth[1-2*I/(I-c*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcTan[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTan[c*x])^(n-1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcCot[c*x])^n/(m+1) + 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCot[c*x])^(n-1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
+
+
+Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcTan[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
+
+
+Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcCot[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/e*Int[x^(m-1)*(a+b*ArcTan[c*x])^n,x] -
+  d/e*Int[x^(m-1)*(a+b*ArcTan[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/e*Int[x^(m-1)*(a+b*ArcCot[c*x])^n,x] -
+  d/e*Int[x^(m-1)*(a+b*ArcCot[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
+  (a+b*ArcTan[c*x])^n*Log[2*e*x/(d+e*x)]/d - 
+  b*c*n/d*Int[(a+b*ArcTan[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
+  (a+b*ArcCot[c*x])^n*Log[2*e*x/(d+e*x)]/d +
+  b*c*n/d*Int[(a+b*ArcCot[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
+  e/d*Int[x^(m+1)*(a+b*ArcTan[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
+  e/d*Int[x^(m+1)*(a+b*ArcCot[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcTan[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
+
+
+Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcCot[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
+
+
+Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcTan[c*x])/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcCot[c*x])/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  -b*n*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] + 
+  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p>0 && n>1
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  b*n*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] + 
+  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p>0 && n>1
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcTan[c_.*x_])),x_Symbol] :=
+  Log[RemoveContent[a+b*ArcTan[c*x],x]]/(b*c*d) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCot[c_.*x_])),x_Symbol] :=
+  -Log[RemoveContent[a+b*ArcCot[c*x],x]]/(b*c*d) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -2*I*(a+b*ArcTan[c*x])*ArcTan[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) + 
+  I*b*PolyLog[2,-I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) - 
+  I*b*PolyLog[2,I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -2*I*(a+b*ArcCot[c*x])*ArcTan[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) - 
+  I*b*PolyLog[2,-I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) + 
+  I*b*PolyLog[2,I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcTan[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -x*Sqrt[1+1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTan[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCot[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcTan[c*x])^n/(2*d*(d+e*x^2)) + 
+  (a+b*ArcTan[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
+  b*c*n/2*Int[x*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcCot[c*x])^n/(2*d*(d+e*x^2)) - 
+  (a+b*ArcCot[c*x])^(n+1)/(2*b*c*d^2*(n+1)) + 
+  b*c*n/2*Int[x*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  b/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcTan[c*x])/(d*Sqrt[d+e*x^2]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcCot[c*x])/(d*Sqrt[d+e*x^2]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-3/2
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  b*n*(a+b*ArcTan[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcTan[c*x])^n/(d*Sqrt[d+e*x^2]) -
+  b^2*n*(n-1)*Int[(a+b*ArcTan[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>1
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b*n*(a+b*ArcCot[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcCot[c*x])^n/(d*Sqrt[d+e*x^2]) -
+  b^2*n*(n-1)*Int[(a+b*ArcCot[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  b*n*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n-1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
+  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n-1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
+  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  -(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c*Subst[Int[(a+b*x)^n/Cos[x]^(2*(p+1)),x],x,ArcTan[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  d^(p+1/2)*Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(1+c^2*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  -d^p/c*Subst[Int[(a+b*x)^n/Sin[x]^(2*(p+1)),x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  -d^(p+1/2)*x*Sqrt[(1+c^2*x^2)/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n/Sin[x]^(2*(p+1)),x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p]]
+
+
+Int[ArcTan[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
+  I/2*Int[Log[1-I*c*x]/(d+e*x^2),x] - I/2*Int[Log[1+I*c*x]/(d+e*x^2),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[ArcCot[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
+  I/2*Int[Log[1-I/(c*x)]/(d+e*x^2),x] - I/2*Int[Log[1+I/(c*x)]/(d+e*x^2),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[(a_+b_.*ArcTan[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
+  a*Int[1/(d+e*x^2),x] + b*Int[ArcTan[c*x]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(a_+b_.*ArcCot[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
+  a*Int[1/(d+e*x^2),x] + b*Int[ArcCot[c*x]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -I*(a+b*ArcTan[c*x])^(n+1)/(b*e*(n+1)) - 
+  1/(c*d)*Int[(a+b*ArcTan[c*x])^n/(I-c*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  I*(a+b*ArcCot[c*x])^(n+1)/(b*e*(n+1)) - 
+  1/(c*d)*Int[(a+b*ArcCot[c*x])^n/(I-c*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  x*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  1/(b*c*d*(n+1))*Int[(a+b*ArcTan[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
+
+
+Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  -x*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  1/(b*c*d*(n+1))*Int[(a+b*ArcCot[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  -I*(a+b*ArcTan[c*x])^(n+1)/(b*d*(n+1)) +
+  I/d*Int[(a+b*ArcTan[c*x])^n/(x*(I+c*x)),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  I*(a+b*ArcCot[c*x])^(n+1)/(b*d*(n+1)) +
+  I/d*Int[(a+b*ArcCot[c*x])^n/(x*(I+c*x)),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  x^m*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcTan[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  -x^m*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcCot[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcTan[c*x]),x^m/(d+e*x^2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCot[c*x]),x^m/(d+e*x^2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(2*e*(p+1)) - 
+  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(2*e*(p+1)) +
+  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) -
+  (1-c^2*x^2)*(a+b*ArcTan[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) -
+  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcTan[c*x])^(n+2)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
+  -x*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) -
+  (1-c^2*x^2)*(a+b*ArcCot[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) -
+  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcCot[c*x])^(n+2)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) + 
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*c^2*d*(p+1)) - 
+  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-5/2
+
+
+Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) + 
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*c^2*d*(p+1)) - 
+  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-5/2
+
+
+Int[x_^2*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  (a+b*ArcTan[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) - 
+  x*(a+b*ArcTan[c*x])^n/(2*c^2*d*(d+e*x^2)) + 
+  b*n/(2*c)*Int[x*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[x_^2*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  -(a+b*ArcCot[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) - 
+  x*(a+b*ArcCot[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
+  b*n/(2*c)*Int[x*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) - 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(c^2*d*m) + 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) - 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(c^2*d*m) + 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n-1)/(c*d*m^2) - 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(c^2*d*m) - 
+  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-2),x] + 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n-1)/(c*d*m^2) - 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(c^2*d*m) - 
+  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-2),x] + 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
+  -x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(d*(m+1)) + 
+  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
+
+
+Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])/(m+2) - 
+  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
+  d/(m+2)*Int[x^m*(a+b*ArcTan[c*x])/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && NeQ[m+2]
+
+
+Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])/(m+2) + 
+  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
+  d/(m+2)*Int[x^m*(a+b*ArcCot[c*x])/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && NeQ[m+2]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] + 
+  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] + 
+  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(c^2*d*m) - 
+  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcTan[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
+  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(c^2*d*m) + 
+  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcCot[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
+  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -2/Sqrt[d]*(a+b*ArcTan[c*x])*ArcTanh[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] + 
+  I*b/Sqrt[d]*PolyLog[2,-Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] - 
+  I*b/Sqrt[d]*PolyLog[2,Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -2/Sqrt[d]*(a+b*ArcCot[c*x])*ArcTanh[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] - 
+  I*b/Sqrt[d]*PolyLog[2,-Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] + 
+  I*b/Sqrt[d]*PolyLog[2,Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  1/Sqrt[d]*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcTan[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -c*x*Sqrt[1+1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTan[c*x])^n/(x*Sqrt[1+c^2*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCot[c*x])^n/(x*Sqrt[1+c^2*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(d*x) + 
+  b*c*n*Int[(a+b*ArcTan[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(d*x) - 
+  b*c*n*Int[(a+b*ArcCot[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTan[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
+  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
+
+
+Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(d*(m+1)) + 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCot[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
+  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] - 
+  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  -x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] + 
+  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m/Cos[x]^(m+2*(p+1)),x],x,ArcTan[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  d^(p+1/2)*Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[x^m*(1+c^2*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  -d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m/Sin[x]^(m+2*(p+1)),x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && IntegerQ[p]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  -d^(p+1/2)*x*Sqrt[(1+c^2*x^2)/(c^2*x^2)]/(c^m*Sqrt[d+e*x^2])*Subst[Int[(a+b*x)^n*Cos[x]^m/Sin[x]^(m+2*(p+1)),x],x,ArcCot[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p]]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*e*(p+1)) - 
+  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*e*(p+1)) + 
+  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcTan[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCot[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcTan[c*x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcCot[c*x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[ArcTanh[u_]*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[1-u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
+
+
+Int[ArcCoth[u_]*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
+
+
+Int[ArcTanh[u_]*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[1-u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
+
+
+Int[ArcCoth[u_]*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  I*(a+b*ArcTan[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
+  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I+c*x))^2]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  I*(a+b*ArcCot[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
+  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I+c*x))^2]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -I*(a+b*ArcTan[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
+  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I-c*x))^2]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -I*(a+b*ArcCot[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
+  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I-c*x))^2]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -I*(a+b*ArcTan[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
+  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -I*(a+b*ArcCot[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
+  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  I*(a+b*ArcTan[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
+  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  I*(a+b*ArcCot[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
+  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCot[c_.*x_])*(a_.+b_.*ArcTan[c_.*x_])),x_Symbol] :=
+  (-Log[a+b*ArcCot[c*x]]+Log[a+b*ArcTan[c*x]])/(b*c*d*(2*a+b*ArcCot[c*x]+b*ArcTan[c*x])) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
+
+
+Int[(a_.+b_.*ArcCot[c_.*x_])^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcCot[c*x])^(m+1)*(a+b*ArcTan[c*x])^n/(b*c*d*(m+1)) +
+  n/(m+1)*Int[(a+b*ArcCot[c*x])^(m+1)*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n] && 0<n<=m
+
+
+Int[(a_.+b_.*ArcTan[c_.*x_])^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTan[c*x])^(m+1)*(a+b*ArcCot[c*x])^n/(b*c*d*(m+1)) +
+  n/(m+1)*Int[(a+b*ArcTan[c*x])^(m+1)*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n] && 0<n<m
+
+
+Int[ArcTan[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  I/2*Int[Log[1-I*a*x]/(c+d*x^n),x] -
+  I/2*Int[Log[1+I*a*x]/(c+d*x^n),x] /;
+FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[d-a^2*c]]
+
+
+Int[ArcCot[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  I/2*Int[Log[1-I/(a*x)]/(c+d*x^n),x] -
+  I/2*Int[Log[1+I/(a*x)]/(c+d*x^n),x] /;
+FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[d-a^2*c]]
+
+
+Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  x*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x]) - 
+  2*e*g*Int[x^2*(a+b*ArcTan[c*x])/(f+g*x^2),x] - 
+  b*c*Int[x*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x]
+
+
+Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  x*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x]) - 
+  2*e*g*Int[x^2*(a+b*ArcCot[c*x])/(f+g*x^2),x] + 
+  b*c*Int[x*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x])/(m+1) - 
+  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcTan[c*x])/(f+g*x^2),x] - 
+  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x])/(m+1) - 
+  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcCot[c*x])/(f+g*x^2),x] + 
+  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
+  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
+  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(a+b*ArcTan[c*x]),x]},  
+  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(a+b*ArcCot[c*x]),x]},  
+  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
+
+
+Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_])^2,x_Symbol] :=
+  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x])^2/(2*g) - 
+  e*x^2*(a+b*ArcTan[c*x])^2/2 - 
+  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x]),x] + 
+  b*c*e*Int[x^2*(a+b*ArcTan[c*x])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[g-c^2*f]
+
+
+Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_])^2,x_Symbol] :=
+  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x])^2/(2*g) - 
+  e*x^2*(a+b*ArcCot[c*x])^2/2 + 
+  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x]),x] - 
+  b*c*e*Int[x^2*(a+b*ArcCot[c*x])/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[g-c^2*f]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.2.2 Exponentials of inverse tangent*)
+
+
+Int[E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[((1-I*a*x)^((I*n+1)/2)/((1+I*a*x)^((I*n-1)/2)*Sqrt[1+a^2*x^2])),x] /;
+FreeQ[a,x] && OddQ[I*n]
+
+
+Int[x_^m_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[x^m*((1-I*a*x)^((I*n+1)/2)/((1+I*a*x)^((I*n-1)/2)*Sqrt[1+a^2*x^2])),x] /;
+FreeQ[{a,m},x] && OddQ[I*n]
+
+
+Int[E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
+FreeQ[{a,n},x] && Not[OddQ[I*n]]
+
+
+Int[x_^m_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[x^m*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
+FreeQ[{a,m,n},x] && Not[OddQ[I*n]]
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1+d*x/c)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[u*(c+d*x)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  d^p*Int[u/x^p*(1+c*x/d)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[c^2+a^2*d^2] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  (-1)^(n/2)*c^p*Int[u*(1+d/(c*x))^p*(1-1/(I*a*x))^(I*n/2)/(1+1/(I*a*x))^(I*n/2),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && PositiveQ[c]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  Int[u*(c+d/x)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && Not[PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  x^p*(c+d/x)^p/(1+c*x/d)^p*Int[u/x^p*(1+c*x/d)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]]
+
+
+Int[E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  (n+a*x)*E^(n*ArcTan[a*x])/(a*c*(n^2+1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n]]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  (n-2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*c*(n^2+4*(p+1)^2)) + 
+  2*(p+1)*(2*p+3)/(c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && NeQ[n^2+4*(p+1)^2] && IntegerQ[2*p]
+
+
+Int[E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
+  E^(n*ArcTan[a*x])/(a*c*n) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[(1+a^2*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && IntegerQ[p] && IntegerQ[(I*n+1)/2] && Not[IntegerQ[p-I*n/2]]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^(I*n/2)*Int[(c+d*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[I*n/2]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  1/c^(I*n/2)*Int[(c+d*x^2)^(p+I*n/2)/(1+I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[I*n/2]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[x_*E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  -(1-a*n*x)*E^(n*ArcTan[a*x])/(d*(n^2+1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n]]
+
+
+Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  (c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(2*d*(p+1)) - a*c*n/(2*d*(p+1))*Int[(c+d*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && IntegerQ[2*p]
+
+
+(* Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  (2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a^2*c*(n^2+4*(p+1)^2)) - 
+  n*(2*p+3)/(a*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && NeQ[n^2+4*(p+1)^2] && Not[IntegerQ[I*n]] *)
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  -(1-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*d*n*(n^2+1)) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && EqQ[n^2-2*(p+1)] && Not[IntegerQ[I*n]]
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  -(n-2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*d*(n^2+4*(p+1)^2)) + 
+  (n^2-2*(p+1))/(d*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && NeQ[n^2+4*(p+1)^2] && 
+  IntegerQ[2*p]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[x^m*(1+a^2*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[(I*n+1)/2] && Not[IntegerQ[p-I*n/2]]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[x^m*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^(I*n/2)*Int[x^m*(c+d*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[I*n/2]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  1/c^(I*n/2)*Int[x^m*(c+d*x^2)^(p+I*n/2)/(1+I*a*x)^(I*n),x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[I*n/2]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[x^m*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[u_*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[u_*(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/((1-I*a*x)^FracPart[p]*(1+I*a*x)^FracPart[p])*
+    Int[u*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[I*n/2]
+
+
+Int[u_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[u*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[I*n/2]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  d^p*Int[u/x^(2*p)*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[c-a^2*d] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1-I/(a*x))^p*(1+I/(a*x))^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && PositiveQ[c]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
+  x^(2*p)*(c+d/x^2)^p/((1-I*a*x)^p*(1+I*a*x)^p)*Int[u/x^(2*p)*(1-I*a*x)^p*(1+I*a*x)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && Not[PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
+  x^(2*p)*(c+d/x^2)^p/(1+a^2*x^2)^p*Int[u/x^(2*p)*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && Not[IntegerQ[I*n/2]]
+
+
+Int[E^(n_.*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  Int[(1-I*a*c-I*b*c*x)^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[x_^m_*E^(n_*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  4/(I^m*n*b^(m+1)*c^(m+1))*
+    Subst[Int[x^(2/(I*n))*(1-I*a*c-(1+I*a*c)*x^(2/(I*n)))^m/(1+x^(2/(I*n)))^(m+2),x],x,
+      (1-I*c*(a+b*x))^(I*n/2)/(1+I*c*(a+b*x))^(I*n/2)] /;
+FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[I*n] && -1<I*n<1
+
+
+Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  Int[(d+e*x)^m*(1-I*a*c-I*b*c*x)^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2),x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTan[a_+b_.*x_]),x_Symbol] :=
+  (c/(1+a^2))^p*Int[u*(1-I*a-I*b*x)^(p+I*n/2)*(1+I*a+I*b*x)^(p-I*n/2),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && (IntegerQ[p] || PositiveQ[c/(1+a^2)])
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTan[a_+b_.*x_]),x_Symbol] :=
+  (c+d*x+e*x^2)^p/(1+a^2+2*a*b*x+b^2*x^2)^p*Int[u*(1+a^2+2*a*b*x+b^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && Not[IntegerQ[p] || PositiveQ[c/(1+a^2)]]
+
+
+Int[u_.*E^(n_.*ArcTan[c_./(a_.+b_.*x_)]),x_Symbol] :=
+  Int[u*E^(n*ArcCot[a/c+b*x/c]),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[u_.*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
+  (-1)^(I*n/2)*Int[u*E^(-n*ArcTan[a*x]),x] /;
+FreeQ[a,x] && IntegerQ[I*n/2]
+
+
+Int[E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^2*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
+FreeQ[a,x] && OddQ[I*n]
+
+
+Int[x_^m_.*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^(m+2)*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
+FreeQ[a,x] && OddQ[I*n] && IntegerQ[m]
+
+
+Int[E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1-I*x/a)^(I*n/2)/(x^2*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
+FreeQ[{a,n},x] && Not[IntegerQ[I*n]]
+
+
+Int[x_^m_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1-I*x/a)^(n/2)/(x^(m+2)*(1+I*x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,n},x] && Not[IntegerQ[I*n]] && IntegerQ[m]
+
+
+Int[x_^m_*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
+  -x^m*(1/x)^m*Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^(m+2)*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
+FreeQ[{a,m},x] && OddQ[I*n] && Not[IntegerQ[m]]
+
+
+Int[x_^m_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1-I*x/a)^(n/2)/(x^(m+2)*(1+I*x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,m,n},x] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[m]]
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  d^p*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[I*n/2]] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (c+d*x)^p/(x^p*(1+c/(d*x))^p)*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p]]
+
+
+Int[(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^2*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^(m+2)*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[m]
+
+
+Int[(c_+d_./x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (c+d/x)^p/(1+d/(c*x))^p*Int[(1+d/(c*x))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[x_^m_*(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*x^m*(1/x)^m*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^(m+2)*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegerQ[m]]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (c+d/x)^p/(1+d/(c*x))^p*Int[u*(1+d/(c*x))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
+  -E^(n*ArcCot[a*x])/(a*c*n) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c]
+
+
+Int[E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  -(n-a*x)*E^(n*ArcCot[a*x])/(a*c*(n^2+1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[OddQ[I*n]]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -(n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a*c*(n^2+4*(p+1)^2)) + 
+  2*(p+1)*(2*p+3)/(c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && p!=-3/2 && NeQ[n^2+4*(p+1)^2] && 
+  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
+
+
+Int[x_*E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  -(1+a*n*x)*E^(n*ArcCot[a*x])/(a^2*c*(n^2+1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[OddQ[I*n]]
+
+
+Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (2*(p+1)-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^2*c*(n^2+4*(p+1)^2)) + 
+  n*(2*p+3)/(a*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<=-1 && p!=-3/2 && NeQ[n^2+4*(p+1)^2] && 
+  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^3*c*n^2*(n^2+1)) /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && EqQ[n^2-2*(p+1)] && NeQ[n^2+1]
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^3*c*(n^2+4*(p+1)^2)) + 
+  (n^2-2*(p+1))/(a^2*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<=-1 && NeQ[n^2-2*(p+1)] && NeQ[n^2+4*(p+1)^2] && 
+  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p/a^(m+1)*Subst[Int[E^(n*x)*Cot[x]^(m+2*(p+1))/Cos[x]^(2*(p+1)),x],x,ArcCot[a*x]] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && IntegerQ[m] && 3<=m<=-2(p+1) && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  d^p*Int[u*x^(2*p)*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n/2]] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (c+d*x^2)^p/(x^(2*p)*(1+1/(a^2*x^2))^p)*Int[u*x^(2*p)*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  c^p/(I*a)^(2*p)*Int[u/x^(2*p)*(-1+I*a*x)^(p-I*n/2)*(1+I*a*x)^(p+I*n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegersQ[2*p,p+I*n/2]
+
+
+Int[(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^2,x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]]
+
+
+Int[x_^m_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]] && 
+  IntegerQ[m]
+
+
+Int[x_^m_*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  -c^p*x^m*(1/x)^m*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]] && 
+  Not[IntegerQ[m]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
+  (c+d/x^2)^p/(1+1/(a^2*x^2))^p*Int[u*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[u_.*E^(n_*ArcCot[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (-1)^(I*n/2)*Int[u*E^(-n*ArcTan[c*(a+b*x)]),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[I*n/2]
+
+
+Int[E^(n_.*ArcCot[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (I*c*(a+b*x))^(I*n/2)*(1+1/(I*c*(a+b*x)))^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2)*
+    Int[(1+I*a*c+I*b*c*x)^(I*n/2)/(-1+I*a*c+I*b*c*x)^(I*n/2),x] /;
+FreeQ[{a,b,c,n},x] && Not[IntegerQ[I*n/2]]
+
+
+Int[x_^m_*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  4/(I^m*n*b^(m+1)*c^(m+1))*
+    Subst[Int[x^(2/(I*n))*(1+I*a*c+(1-I*a*c)*x^(2/(I*n)))^m/(-1+x^(2/(I*n)))^(m+2),x],x,
+      (1+1/(I*c*(a+b*x)))^(I*n/2)/(1-1/(I*c*(a+b*x)))^(I*n/2)] /;
+FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[I*n] && -1<I*n<1
+
+
+Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (I*c*(a+b*x))^(I*n/2)*(1+1/(I*c*(a+b*x)))^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2)*
+    Int[(d+e*x)^m*(1+I*a*c+I*b*c*x)^(I*n/2)/(-1+I*a*c+I*b*c*x)^(I*n/2),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[I*n/2]]
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCot[a_+b_.*x_]),x_Symbol] :=
+  (c/(1+a^2))^p*((I*a+I*b*x)/(1+I*a+I*b*x))^(I*n/2)*((1+I*a+I*b*x)/(I*a+I*b*x))^(I*n/2)*
+    ((1-I*a-I*b*x)^(I*n/2)/(-1+I*a+I*b*x)^(I*n/2))*
+    Int[u*(1-I*a-I*b*x)^(p-I*n/2)*(1+I*a+I*b*x)^(p+I*n/2),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[I*n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && 
+  (IntegerQ[p] || PositiveQ[c/(1+a^2)])
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCot[a_+b_.*x_]),x_Symbol] :=
+  (c+d*x+e*x^2)^p/(1+a^2+2*a*b*x+b^2*x^2)^p*Int[u*(1+a^2+2*a*b*x+b^2*x^2)^p*E^(n*ArcCot[a*x]),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[I*n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && 
+  Not[IntegerQ[p] || PositiveQ[c/(1+a^2)]]
+
+
+Int[u_.*E^(n_.*ArcCot[c_./(a_.+b_.*x_)]),x_Symbol] :=
+  Int[u*E^(n*ArcTan[a/c+b*x/c]),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.2.3 Miscellaneous inverse tangent*)
+(**)
+
+
+Int[(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcTan[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcCot[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcTan[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcTan[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcCot[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcCot[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcTan[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(e+f*x)^m*(a+b*ArcTan[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcCot[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(e+f*x)^m*(a+b*ArcCot[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[ArcTan[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  I/2*Int[Log[1-I*a-I*b*x]/(c+d*x^n),x] -
+  I/2*Int[Log[1+I*a+I*b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[n]
+
+
+Int[ArcCot[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  I/2*Int[Log[(-I+a+b*x)/(a+b*x)]/(c+d*x^n),x] -
+  I/2*Int[Log[(I+a+b*x)/(a+b*x)]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[n]
+
+
+Int[ArcTan[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
+  Defer[Int][ArcTan[a+b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
+
+
+Int[ArcCot[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
+  Defer[Int][ArcCot[a+b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
+
+
+Int[ArcTan[a_+b_.*x_^n_],x_Symbol] :=
+  x*ArcTan[a+b*x^n] -
+  b*n*Int[x^n/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCot[a_+b_.*x_^n_],x_Symbol] :=
+  x*ArcCot[a+b*x^n] +
+  b*n*Int[x^n/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcTan[a_.+b_.*x_^n_]/x_,x_Symbol] :=
+  I/2*Int[Log[1-I*a-I*b*x^n]/x,x] -
+  I/2*Int[Log[1+I*a+I*b*x^n]/x,x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCot[a_.+b_.*x_^n_]/x_,x_Symbol] :=
+  I/2*Int[Log[1-I/(a+b*x^n)]/x,x] -
+  I/2*Int[Log[1+I/(a+b*x^n)]/x,x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[x_^m_.*ArcTan[a_+b_.*x_^n_],x_Symbol] :=
+  x^(m+1)*ArcTan[a+b*x^n]/(m+1) -
+  b*n/(m+1)*Int[x^(m+n)/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
+
+
+Int[x_^m_.*ArcCot[a_+b_.*x_^n_],x_Symbol] :=
+  x^(m+1)*ArcCot[a+b*x^n]/(m+1) +
+  b*n/(m+1)*Int[x^(m+n)/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
+
+
+Int[ArcTan[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  I/2*Int[Log[1-I*a-I*b*f^(c+d*x)],x] -
+  I/2*Int[Log[1+I*a+I*b*f^(c+d*x)],x] /;
+FreeQ[{a,b,c,d,f},x]
+
+
+Int[ArcCot[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  I/2*Int[Log[1-I/(a+b*f^(c+d*x))],x] -
+  I/2*Int[Log[1+I/(a+b*f^(c+d*x))],x] /;
+FreeQ[{a,b,c,d,f},x] 
+
+
+Int[x_^m_.*ArcTan[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  I/2*Int[x^m*Log[1-I*a-I*b*f^(c+d*x)],x] -
+  I/2*Int[x^m*Log[1+I*a+I*b*f^(c+d*x)],x] /;
+FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
+
+
+Int[x_^m_.*ArcCot[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  I/2*Int[x^m*Log[1-I/(a+b*f^(c+d*x))],x] -
+  I/2*Int[x^m*Log[1+I/(a+b*f^(c+d*x))],x] /;
+FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
+
+
+Int[u_.*ArcTan[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCot[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCot[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcTan[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[1/(Sqrt[a_.+b_.*x_^2]*ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
+  1/c*Log[ArcTan[c*x/Sqrt[a+b*x^2]]] /;
+FreeQ[{a,b,c},x] && EqQ[b+c^2]
+
+
+Int[1/(Sqrt[a_.+b_.*x_^2]*ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
+  -1/c*Log[ArcCot[c*x/Sqrt[a+b*x^2]]] /;
+FreeQ[{a,b,c},x] && EqQ[b+c^2]
+
+
+Int[ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
+  ArcTan[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
+FreeQ[{a,b,c,m},x] && EqQ[b+c^2] && NeQ[m+1]
+
+
+Int[ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
+  -ArcCot[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
+FreeQ[{a,b,c,m},x] && EqQ[b+c^2] && NeQ[m+1]
+
+
+Int[ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcTan[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b+c^2] && EqQ[b*d-a*e]
+
+
+Int[ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcCot[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b+c^2] && EqQ[b*d-a*e]
+
+
+Int[u_.*ArcTan[v_+s_.*Sqrt[w_]],x_Symbol] :=
+  Pi*s/4*Int[u,x] + 1/2*Int[u*ArcTan[v],x] /;
+EqQ[s^2-1] && EqQ[w-(v^2+1)]
+
+
+Int[u_.*ArcCot[v_+s_.*Sqrt[w_]],x_Symbol] :=
+  Pi*s/4*Int[u,x] - 1/2*Int[u*ArcTan[v],x] /;
+EqQ[s^2-1] && EqQ[w-(v^2+1)]
+
+
+If[ShowSteps,
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  ShowStep["","Int[f[x,ArcTan[a+b*x]]/(1+(a+b*x)^2),x]",
+		   "Subst[Int[f[-a/b+Tan[x]/b,x],x],x,ArcTan[a+b*x]]/b",Hold[
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sec[x]^(2*(n+1)),x],x], x, tmp]]] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcTan && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
+SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sec[x]^(2*(n+1)),x],x], x, tmp] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcTan && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
+QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
+
+
+If[ShowSteps,
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  ShowStep["","Int[f[x,ArcCot[a+b*x]]/(1+(a+b*x)^2),x]",
+		   "-Subst[Int[f[-a/b+Cot[x]/b,x],x],x,ArcCot[a+b*x]]/b",Hold[
+  -(-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Csc[x]^(2*(n+1)),x],x], x, tmp]]] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcCot && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
+SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  -(-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Csc[x]^(2*(n+1)),x],x], x, tmp] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcCot && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
+QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
+
+
+Int[ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Tan[a+b*x]] - 
+  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Tan[a+b*x]] + 
+  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Cot[a+b*x]] - 
+  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Cot[a+b*x]] + 
+  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Tan[a+b*x]] - 
+  b*(1+I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] + 
+  b*(1-I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Tan[a+b*x]] + 
+  b*(1+I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] - 
+  b*(1-I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Cot[a+b*x]] + 
+  b*(1+I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] - 
+  b*(1-I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Cot[a+b*x]] - 
+  b*(1+I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] + 
+  b*(1-I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Tan[a+b*x]]/(f*(m+1)) - 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Cot[a+b*x]]/(f*(m+1)) - 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Cot[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Tan[a+b*x]]/(f*(m+1)) - 
+  b*(1+I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] + 
+  b*(1-I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  b*(1+I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] - 
+  b*(1-I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Cot[a+b*x]]/(f*(m+1)) + 
+  b*(1+I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] - 
+  b*(1-I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Cot[a+b*x]]/(f*(m+1)) - 
+  b*(1+I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] + 
+  b*(1-I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2+1]
+
+
+Int[ArcTan[Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[Tanh[a+b*x]] - b*Int[x*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCot[Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[Tanh[a+b*x]] + b*Int[x*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcTan[Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[Coth[a+b*x]] + b*Int[x*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCot[Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[Coth[a+b*x]] - b*Int[x*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[Tanh[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[Tanh[a+b*x]]/(f*(m+1)) + b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[Coth[a+b*x]]/(f*(m+1)) + b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[Coth[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Tanh[a+b*x]] - 
+  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Tanh[a+b*x]] + 
+  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Coth[a+b*x]] - 
+  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Coth[a+b*x]] + 
+  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Tanh[a+b*x]] + 
+  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] - 
+  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Tanh[a+b*x]] - 
+  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] + 
+  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
+
+
+Int[ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTan[c+d*Coth[a+b*x]] - 
+  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] + 
+  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
+
+
+Int[ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCot[c+d*Coth[a+b*x]] + 
+  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] - 
+  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Tanh[a+b*x]]/(f*(m+1)) - 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Coth[a+b*x]]/(f*(m+1)) - 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] - 
+  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Tanh[a+b*x]]/(f*(m+1)) - 
+  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] + 
+  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTan[c+d*Coth[a+b*x]]/(f*(m+1)) - 
+  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] + 
+  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCot[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] - 
+  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
+
+
+Int[ArcTan[u_],x_Symbol] :=
+  x*ArcTan[u] -
+  Int[SimplifyIntegrand[x*D[u,x]/(1+u^2),x],x] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[ArcCot[u_],x_Symbol] :=
+  x*ArcCot[u] +
+  Int[SimplifyIntegrand[x*D[u,x]/(1+u^2),x],x] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcTan[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcTan[u])/(d*(m+1)) -
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1+u^2),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCot[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCot[u])/(d*(m+1)) +
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1+u^2),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
+
+
+Int[v_*(a_.+b_.*ArcTan[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcTan[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1+u^2),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcTan[u]),x]]
+
+
+Int[v_*(a_.+b_.*ArcCot[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCot[u]),w,x] + b*Int[SimplifyIntegrand[w*D[u,x]/(1+u^2),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcCot[u]),x]]
+
+
+Int[ArcTan[v_]*Log[w_]/(a_.+b_.*x_),x_Symbol] :=
+  I/2*Int[Log[1-I*v]*Log[w]/(a+b*x),x] - I/2*Int[Log[1+I*v]*Log[w]/(a+b*x),x] /;
+FreeQ[{a,b},x] && LinearQ[v,x] && LinearQ[w,x] && EqQ[Simplify[D[v/(a+b*x),x]]] && EqQ[Simplify[D[w/(a+b*x),x]]]
+
+
+Int[ArcTan[v_]*Log[w_],x_Symbol] :=
+  x*ArcTan[v]*Log[w] - 
+  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/(1+v^2),x],x] - 
+  Int[SimplifyIntegrand[x*ArcTan[v]*D[w,x]/w,x],x] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+Int[ArcCot[v_]*Log[w_],x_Symbol] :=
+  x*ArcCot[v]*Log[w] + 
+  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/(1+v^2),x],x] - 
+  Int[SimplifyIntegrand[x*ArcCot[v]*D[w,x]/w,x],x] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+Int[u_*ArcTan[v_]*Log[w_],x_Symbol] :=
+  With[{z=IntHide[u,x]},  
+  Dist[ArcTan[v]*Log[w],z,x] - 
+  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/(1+v^2),x],x] - 
+  Int[SimplifyIntegrand[z*ArcTan[v]*D[w,x]/w,x],x] /;
+ InverseFunctionFreeQ[z,x]] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+Int[u_*ArcCot[v_]*Log[w_],x_Symbol] :=
+  With[{z=IntHide[u,x]},  
+  Dist[ArcCot[v]*Log[w],z,x] + 
+  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/(1+v^2),x],x] - 
+  Int[SimplifyIntegrand[z*ArcCot[v]*D[w,x]/w,x],x] /;
+ InverseFunctionFreeQ[z,x]] /;
+InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*5.3/1 Miscellaneous inverse secant*)
+
+
+Int[ArcSec[c_.*x_],x_Symbol] :=
+  x*ArcSec[c*x] - 1/c*Int[1/(x*Sqrt[1-1/(c^2*x^2)]),x] /;
+FreeQ[c,x]
+
+
+Int[ArcCsc[c_.*x_],x_Symbol] :=
+  x*ArcCsc[c*x] + 1/c*Int[1/(x*Sqrt[1-1/(c^2*x^2)]),x] /;
+FreeQ[c,x]
+
+
+Int[(a_.+b_.*ArcSec[c_.*x_])^n_,x_Symbol] :=
+  1/c*Subst[Int[(a+b*x)^n*Sec[x]*Tan[x],x],x,ArcSec[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcCsc[c_.*x_])^n_,x_Symbol] :=
+  -1/c*Subst[Int[(a+b*x)^n*Csc[x]*Cot[x],x],x,ArcCsc[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcSec[c_.*x_])/x_,x_Symbol] :=
+  -Subst[Int[(a+b*ArcCos[x/c])/x,x],x,1/x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[(a_.+b_.*ArcCsc[c_.*x_])/x_,x_Symbol] :=
+  -Subst[Int[(a+b*ArcSin[x/c])/x,x],x,1/x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(a+b*ArcSec[c*x])/(m+1) - 
+  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1-1/(c^2*x^2)],x] /;
+FreeQ[{a,b,c,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(a+b*ArcCsc[c*x])/(m+1) +
+  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1-1/(c^2*x^2)],x] /;
+FreeQ[{a,b,c,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_])^n_,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sec[x]^(m+1)*Tan[x],x],x,ArcSec[c*x]] /;
+FreeQ[{a,b,c,n},x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_])^n_,x_Symbol] :=
+  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Csc[x]^(m+1)*Cot[x],x],x,ArcCsc[c*x]] /;
+FreeQ[{a,b,c,n},x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*ArcSec[c*x])^n,x] /;
+FreeQ[{a,b,c,m,n},x]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*ArcCsc[c*x])^n,x] /;
+FreeQ[{a,b,c,m,n},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcSec[c*x]),u,x] - b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcCsc[c*x]),u,x] + b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcSec[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCsc[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSec[c*x])/(2*e*(p+1)) - 
+  b*c*x/(2*e*(p+1)*Sqrt[c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[c^2*x^2-1]),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCsc[c*x])/(2*e*(p+1)) + 
+  b*c*x/(2*e*(p+1)*Sqrt[c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[c^2*x^2-1]),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcSec[c*x]),u,x] - b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcCsc[c*x]),u,x] + b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcSec[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCsc[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[ArcSec[a_+b_.*x_],x_Symbol] :=
+  (a+b*x)*ArcSec[a+b*x]/b - 
+  Int[1/((a+b*x)*Sqrt[1-1/(a+b*x)^2]),x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCsc[a_+b_.*x_],x_Symbol] :=
+  (a+b*x)*ArcCsc[a+b*x]/b + 
+  Int[1/((a+b*x)*Sqrt[1-1/(a+b*x)^2]),x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcSec[a_+b_.*x_]^n_,x_Symbol] :=
+  1/b*Subst[Int[x^n*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCsc[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b*Subst[Int[x^n*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcSec[a_+b_.*x_]/x_,x_Symbol] :=
+  ArcSec[a+b*x]*Log[1-(1-Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] + 
+  ArcSec[a+b*x]*Log[1-(1+Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] - 
+  ArcSec[a+b*x]*Log[1+E^(2*I*ArcSec[a+b*x])] - 
+  I*PolyLog[2,(1-Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] - 
+  I*PolyLog[2,(1+Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] + 
+  1/2*I*PolyLog[2,-E^(2*I*ArcSec[a+b*x])] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCsc[a_+b_.*x_]/x_,x_Symbol] :=
+  I*ArcCsc[a+b*x]^2 + 
+  ArcCsc[a+b*x]*Log[1-I*(1-Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
+  ArcCsc[a+b*x]*Log[1-I*(1+Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] - 
+  ArcCsc[a+b*x]*Log[1-E^(2*I*ArcCsc[a+b*x])] + 
+  I*PolyLog[2,I*(1-Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
+  I*PolyLog[2,I*(1+Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
+  1/2*I*PolyLog[2,E^(2*I*ArcCsc[a+b*x])] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*ArcSec[a_+b_.*x_],x_Symbol] :=
+  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcSec[a+b*x]/(b^(m+1)*(m+1)) - 
+  1/(b^(m+1)*(m+1))*Subst[Int[(((-a)*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1-x^2]),x],x,1/(a+b*x)] /;
+FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
+
+
+Int[x_^m_.*ArcCsc[a_+b_.*x_],x_Symbol] :=
+  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcCsc[a+b*x]/(b^(m+1)*(m+1)) + 
+  1/(b^(m+1)*(m+1))*Subst[Int[(((-a)*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1-x^2]),x],x,1/(a+b*x)] /;
+FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
+
+
+Int[x_^m_.*ArcSec[a_+b_.*x_]^n_,x_Symbol] :=
+  1/b^(m+1)*Subst[Int[x^n*(-a+Sec[x])^m*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
+FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*ArcCsc[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b^(m+1)*Subst[Int[x^n*(-a+Csc[x])^m*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
+FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
+
+
+Int[u_.*ArcSec[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCos[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCsc[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcSin[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*f_^(c_.*ArcSec[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[ReplaceAll[u,x->-a/b+Sec[x]/b]*f^(c*x^n)*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[u_.*f_^(c_.*ArcCsc[a_.+b_.*x_]^n_.),x_Symbol] :=
+  -1/b*Subst[Int[ReplaceAll[u,x->-a/b+Csc[x]/b]*f^(c*x^n)*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[ArcSec[u_],x_Symbol] :=
+  x*ArcSec[u] -
+  u/Sqrt[u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[ArcCsc[u_],x_Symbol] :=
+  x*ArcCsc[u] +
+  u/Sqrt[u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSec[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcSec[u])/(d*(m+1)) -
+  b*u/(d*(m+1)*Sqrt[u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCsc[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCsc[u])/(d*(m+1)) +
+  b*u/(d*(m+1)*Sqrt[u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[v_*(a_.+b_.*ArcSec[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcSec[u]),w,x] - b*u/Sqrt[u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+Int[v_*(a_.+b_.*ArcCsc[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCsc[u]),w,x] + b*u/Sqrt[u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+
+`)
+
+func resourcesRubi5InverseTrigFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi5InverseTrigFunctionsM, nil
+}
+
+func resourcesRubi5InverseTrigFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi5InverseTrigFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/5 Inverse trig functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi6HyperbolicFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Hyperbolic Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*6.1.10 (c+d x)^m (a+b sinh)^n*)
+
+
+Int[u_^m_.*(a_.+b_.*Sinh[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Sinh[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*(a_.+b_.*Cosh[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Cosh[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.1.11 (e x)^m (a+b x^n)^p sinh*)
+
+
+Int[(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sinh[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cosh[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  x^(-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
+  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
+
+
+Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  x^(-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
+  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
+
+
+Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sinh[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cosh[c+d*x],(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(n*p)*(b+a*x^(-n))^p*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(n*p)*(b+a*x^(-n))^p*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(a+b*x^n)^p*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(a+b*x^n)^p*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sinh[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cosh[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  e^m*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
+  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  e^m*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
+  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  x^(m-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  x^(m-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] - 
+  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Sinh[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[ExpandIntegrand[Cosh[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
+FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(m+n*p)*(b+a*x^(-n))^p*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Int[x^(m+n*p)*(b+a*x^(-n))^p*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*x^n)^p*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*x^n)^p*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.1.12 (e x)^m (a+b sinh(c+d x^n))^p*)
+
+
+Int[Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(c+d*x^n),x] - 1/2*Int[E^(-c-d*x^n),x] /;
+FreeQ[{c,d},x] && IntegerQ[n] && n>1
+
+
+Int[Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(c+d*x^n),x] + 1/2*Int[E^(-c-d*x^n),x] /;
+FreeQ[{c,d},x] && IntegerQ[n] && n>1
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Sinh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Cosh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*Sinh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k-1)*(a+b*Cosh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(c+d*x^n),x] - 1/2*Int[E^(-c-d*x^n),x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[E^(c+d*x^n),x] + 1/2*Int[E^(-c-d*x^n),x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Sinh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(a+b*Cosh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sinh[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cosh[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_,x_Symbol] :=
+  Defer[Int][(a+b*Sinh[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
+
+
+Int[(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_,x_Symbol] :=
+  Defer[Int][(a+b*Cosh[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
+
+
+Int[(a_.+b_.*Sinh[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Sinh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Cosh[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Cosh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[Sinh[d_.*x_^n_]/x_,x_Symbol] :=
+  SinhIntegral[d*x^n]/n /;
+FreeQ[{d,n},x]
+
+
+Int[Cosh[d_.*x_^n_]/x_,x_Symbol] :=
+  CoshIntegral[d*x^n]/n /;
+FreeQ[{d,n},x]
+
+
+Int[Sinh[c_+d_.*x_^n_]/x_,x_Symbol] :=
+  Sinh[c]*Int[Cosh[d*x^n]/x,x] + Cosh[c]*Int[Sinh[d*x^n]/x,x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[Cosh[c_+d_.*x_^n_]/x_,x_Symbol] :=
+  Cosh[c]*Int[Cosh[d*x^n]/x,x] + Sinh[c]*Int[Sinh[d*x^n]/x,x] /;
+FreeQ[{c,d,n},x]
+
+
+Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sinh[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
+
+
+Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cosh[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
+
+
+Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*Cosh[c+d*x^n]/(d*n) - 
+  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Cosh[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
+
+
+Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  e^(n-1)*(e*x)^(m-n+1)*Sinh[c+d*x^n]/(d*n) - 
+  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Sinh[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
+
+
+Int[(e_.*x_)^m_*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  (e*x)^(m+1)*Sinh[c+d*x^n]/(e*(m+1)) - 
+  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Cosh[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[(e_.*x_)^m_*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  (e*x)^(m+1)*Cosh[c+d*x^n]/(e*(m+1)) - 
+  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Sinh[c+d*x^n],x] /;
+FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(c+d*x^n),x] - 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
+FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(c+d*x^n),x] + 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
+FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -Sinh[a+b*x^n]^p/((n-1)*x^(n-1)) + 
+  b*n*p/(n-1)*Int[Sinh[a+b*x^n]^(p-1)*Cosh[a+b*x^n],x] /;
+FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -Cosh[a+b*x^n]^p/((n-1)*x^(n-1)) + 
+  b*n*p/(n-1)*Int[Cosh[a+b*x^n]^(p-1)*Sinh[a+b*x^n],x] /;
+FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -n*Sinh[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^n*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/(b*n*p) -
+  (p-1)/p*Int[x^m*Sinh[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -n*Cosh[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^n*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Cosh[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -(m-n+1)*x^(m-2*n+1)*Sinh[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^(m-n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/(b*n*p) -
+  (p-1)/p*Int[x^m*Sinh[a+b*x^n]^(p-2),x] +
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Sinh[a+b*x^n]^p,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -(m-n+1)*x^(m-2*n+1)*Cosh[a+b*x^n]^p/(b^2*n^2*p^2) +
+  x^(m-n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/(b*n*p) +
+  (p-1)/p*Int[x^m*Cosh[a+b*x^n]^(p-2),x] +
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Cosh[a+b*x^n]^p,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m+1)*Sinh[a+b*x^n]^p/(m+1) - 
+  b*n*p*x^(m+n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) + 
+  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sinh[a+b*x^n]^p,x] + 
+  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sinh[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m+1)*Cosh[a+b*x^n]^p/(m+1) - 
+  b*n*p*x^(m+n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) + 
+  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cosh[a+b*x^n]^p,x] - 
+  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cosh[a+b*x^n]^(p-2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Sinh[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Cosh[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sinh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cosh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^n*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
+  n*Sinh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) - 
+  (p+2)/(p+1)*Int[x^m*Sinh[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^n*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) + 
+  n*Cosh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
+  (p+2)/(p+1)*Int[x^m*Cosh[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  x^(m-n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)*x^(m-2*n+1)*Sinh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) -
+  (p+2)/(p+1)*Int[x^m*Sinh[a+b*x^n]^(p+2),x] +
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Sinh[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
+  -x^(m-n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) +
+  (m-n+1)*x^(m-2*n+1)*Cosh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (p+2)/(p+1)*Int[x^m*Cosh[a+b*x^n]^(p+2),x] -
+  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Cosh[a+b*x^n]^(p+2),x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
+
+
+Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/e*Subst[Int[(a+b*Sinh[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  With[{k=Denominator[m]},
+  -k/e*Subst[Int[(a+b*Cosh[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
+
+
+Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Sinh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Module[{k=Denominator[n]},
+  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Cosh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
+FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
+
+
+Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*Sinh[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[(a+b*Cosh[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
+FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
+
+
+Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(c+d*x^n),x] - 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
+FreeQ[{c,d,e,m,n},x]
+
+
+Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
+  1/2*Int[(e*x)^m*E^(c+d*x^n),x] + 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
+FreeQ[{c,d,e,m,n},x]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sinh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
+  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cosh[c+d*x^n])^p,x],x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Sinh[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Cosh[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*Sinh[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
+
+
+Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(e*x)^m*(a+b*Cosh[c+d*u^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sinh[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Sinh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Cosh[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Cosh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_.]^p_.*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
+  Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
+FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_.]^p_.*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
+  Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
+FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_^n_.]^p_.*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
+  x^(m-n+1)*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Sinh[a+b*x^n]^(p+1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_^n_.]^p_.*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
+  x^(m-n+1)*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
+  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cosh[a+b*x^n]^(p+1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.1.13 (d+e x)^m sinh(a+b x+c x^2)^n*)
+(**)
+
+
+Int[Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  1/2*Int[E^(a+b*x+c*x^2),x] - 1/2*Int[E^(-a-b*x-c*x^2),x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  1/2*Int[E^(a+b*x+c*x^2),x] + 1/2*Int[E^(-a-b*x-c*x^2),x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[Sinh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[Sinh[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[Cosh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[Cosh[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[Sinh[v_]^n_.,x_Symbol] :=
+  Int[Sinh[ExpandToSum[v,x]]^n,x] /;
+PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
+
+
+Int[Cosh[v_]^n_.,x_Symbol] :=
+  Int[Cosh[ExpandToSum[v,x]]^n,x] /;
+PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
+
+
+Int[(d_.+e_.*x_)*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Cosh[a+b*x+c*x^2]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Sinh[a+b*x+c*x^2]/(2*c) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Cosh[a+b*x+c*x^2]/(2*c) -
+  (b*e-2*c*d)/(2*c)*Int[Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Sinh[a+b*x+c*x^2]/(2*c) - 
+  (b*e-2*c*d)/(2*c)*Int[Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2]/(2*c) -
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2]/(2*c) - 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2]/(2*c) -
+  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2],x] -
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2]/(2*c) - 
+  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2],x] - 
+  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Sinh[a+b*x+c*x^2]/(e*(m+1)) -
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Cosh[a+b*x+c*x^2]/(e*(m+1)) - 
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && EqQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Sinh[a+b*x+c*x^2]/(e*(m+1)) -
+  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Cosh[a+b*x+c*x^2],x] -
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  (d+e*x)^(m+1)*Cosh[a+b*x+c*x^2]/(e*(m+1)) - 
+  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Sinh[a+b*x+c*x^2],x] -
+  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && NeQ[b*e-2*c*d]
+
+
+Int[(d_.+e_.*x_)^m_.*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Sinh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x]
+
+
+Int[(d_.+e_.*x_)^m_.*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Cosh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x]
+
+
+Int[(d_.+e_.*x_)^m_.*Sinh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[(d+e*x)^m,Sinh[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[n] && n>1
+
+
+Int[(d_.+e_.*x_)^m_.*Cosh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
+  Int[ExpandTrigReduce[(d+e*x)^m,Cosh[a+b*x+c*x^2]^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[n] && n>1
+
+
+Int[u_^m_.*Sinh[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Sinh[ExpandToSum[v,x]]^n,x] /;
+FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+Int[u_^m_.*Cosh[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Cosh[ExpandToSum[v,x]]^n,x] /;
+FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.2.10 (c+d x)^m (a+b tanh)^n*)
+
+
+Int[u_^m_.*(a_.+b_.*Tanh[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Tanh[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*(a_.+b_.*Coth[v_])^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*(a+b*Coth[ExpandToSum[v,x]])^n,x] /;
+FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.2.11 (e x)^m (a+b tanh(c+d x^n))^p*)
+
+
+Int[(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Tanh[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Coth[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Tanh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Coth[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Tanh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Tanh[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Coth[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Coth[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Tanh[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Tanh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Coth[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Coth[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Tanh[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Coth[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*Tanh[c_.+d_.*x_^n_]^2,x_Symbol] :=
+  -x^(m-n+1)*Tanh[c+d*x^n]/(d*n) + Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Tanh[c+d*x^n],x] /;
+FreeQ[{c,d,m,n},x]
+
+
+Int[x_^m_.*Coth[c_.+d_.*x_^n_]^2,x_Symbol] :=
+  -x^(m-n+1)*Coth[c+d*x^n]/(d*n) + Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Coth[c+d*x^n],x] /;
+FreeQ[{c,d,m,n},x]
+
+
+Int[x_^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Tanh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Coth[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Tanh[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Coth[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Tanh[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Tanh[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Coth[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Coth[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sech[a_.+b_.*x_^n_.]^p_.*Tanh[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
+  -x^(m-n+1)*Sech[a+b*x^n]^p/(b*n*p) +
+  (m-n+1)/(b*n*p)*Int[x^(m-n)*Sech[a+b*x^n]^p,x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
+
+
+Int[x_^m_.*Csch[a_.+b_.*x_^n_.]^p_.*Coth[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
+  -x^(m-n+1)*Csch[a+b*x^n]^p/(b*n*p) +
+  (m-n+1)/(b*n*p)*Int[x^(m-n)*Csch[a+b*x^n]^p,x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.2.12 (d+e x)^m tanh(a+b x+c x^2)^n*)
+(**)
+
+
+Int[Tanh[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Tanh[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[Coth[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][Coth[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(d_.+e_.*x_)*Tanh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Log[Cosh[a+b*x+c*x^2]]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Tanh[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)*Coth[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  e*Log[Sinh[a+b*x+c*x^2]]/(2*c) + 
+  (2*c*d-b*e)/(2*c)*Int[Coth[a+b*x+c*x^2],x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+(* Int[x_^m_*Tanh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  x^(m-1)*Log[Cosh[a+b*x+c*x^2]]/(2*c) -
+  b/(2*c)*Int[x^(m-1)*Tanh[a+b*x+c*x^2],x] -
+  (m-1)/(2*c)*Int[x^(m-2)*Log[Cosh[a+b*x+c*x^2]],x] /;
+FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
+
+
+(* Int[x_^m_*Coth[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
+  x^(m-1)*Log[Sinh[a+b*x+c*x^2]]/(2*c) -
+  b/(2*c)*Int[x^(m-1)*Coth[a+b*x+c*x^2],x] -
+  (m-1)/(2*c)*Int[x^(m-2)*Log[Sinh[a+b*x+c*x^2]],x] /;
+FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
+
+
+Int[(d_.+e_.*x_)^m_.*Tanh[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Tanh[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[(d_.+e_.*x_)^m_.*Coth[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x)^m*Coth[a+b*x+c*x^2]^n,x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.3.10 (c+d x)^m (a+b sech)^n*)
+
+
+Int[u_^m_.*Sech[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Sech[ExpandToSum[v,x]]^n,x] /;
+FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[u_^m_.*Csch[v_]^n_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*Csch[ExpandToSum[v,x]]^n,x] /;
+FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.3.11 (e x)^m (a+b sech(c+d x^n))^p*)
+(**)
+
+
+Int[(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Sech[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(1/n-1)*(a+b*Csch[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
+
+
+Int[(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Sech[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][(a+b*Csch[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,n,p},x]
+
+
+Int[(a_.+b_.*Sech[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sech[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Csch[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
+  1/Coefficient[u,x,1]*Subst[Int[(a+b*Csch[c+d*x^n])^p,x],x,u] /;
+FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
+
+
+Int[(a_.+b_.*Sech[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Sech[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(a_.+b_.*Csch[u_])^p_.,x_Symbol] :=
+  Int[(a+b*Csch[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sech[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Csch[c+d*x])^p,x],x,x^n] /;
+FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
+
+
+Int[x_^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Sech[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[x_^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*Csch[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sech[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
+  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Csch[c+d*x^n])^p,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Sech[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Sech[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[(e_*x_)^m_.*(a_.+b_.*Csch[u_])^p_.,x_Symbol] :=
+  Int[(e*x)^m*(a+b*Csch[ExpandToSum[u,x]])^p,x] /;
+FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
+
+
+Int[x_^m_.*Sech[a_.+b_.*x_^n_.]^p_*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
+  -x^(m-n+1)*Sech[a+b*x^n]^(p-1)/(b*n*(p-1)) +
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Sech[a+b*x^n]^(p-1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
+
+
+Int[x_^m_.*Csch[a_.+b_.*x_^n_.]^p_*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
+  -x^(m-n+1)*Csch[a+b*x^n]^(p-1)/(b*n*(p-1)) +
+  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Csch[a+b*x^n]^(p-1),x] /;
+FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.4.5 (c+d x)^m hyper(a+b x)^n hyper(a+b x)^p*)
+
+
+Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Cosh[a_.+b_.*x_],x_Symbol] :=
+  (c+d*x)^m*Sinh[a+b*x]^(n+1)/(b*(n+1)) - 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Sinh[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]*Cosh[a_.+b_.*x_]^n_.,x_Symbol] :=
+  (c+d*x)^m*Cosh[a+b*x]^(n+1)/(b*(n+1)) - 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Cosh[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Cosh[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(c+d*x)^m,Sinh[a+b*x]^n*Cosh[a+b*x]^p,x],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Int[(c+d*x)^m*Sinh[a+b*x]^n*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sinh[a+b*x]^(n-2)*Tanh[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Cosh[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
+  Int[(c+d*x)^m*Cosh[a+b*x]^n*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Cosh[a+b*x]^(n-2)*Coth[a+b*x]^p,x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
+
+
+Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
+  -(c+d*x)^m*Sech[a+b*x]^n/(b*n) + 
+  d*m/(b*n)*Int[(c+d*x)^(m-1)*Sech[a+b*x]^n,x] /;
+FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
+  -(c+d*x)^m*Csch[a+b*x]^n/(b*n) + 
+  d*m/(b*n)*Int[(c+d*x)^(m-1)*Csch[a+b*x]^n,x] /;
+FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
+
+
+Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^2*Tanh[a_.+b_.*x_]^n_.,x_Symbol] :=
+  (c+d*x)^m*Tanh[a+b*x]^(n+1)/(b*(n+1)) - 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Tanh[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^2*Coth[a_.+b_.*x_]^n_.,x_Symbol] :=
+  -(c+d*x)^m*Coth[a+b*x]^(n+1)/(b*(n+1)) + 
+  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Coth[a+b*x]^(n+1),x] /;
+FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]*Tanh[a_.+b_.*x_]^p_,x_Symbol] :=
+  Int[(c+d*x)^m*Sech[a+b*x]*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sech[a+b*x]^3*Tanh[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_,x_Symbol] :=
+  Int[(c+d*x)^m*Sech[a+b*x]^n*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sech[a+b*x]^(n+2)*Tanh[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]*Coth[a_.+b_.*x_]^p_,x_Symbol] :=
+  Int[(c+d*x)^m*Csch[a+b*x]*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csch[a+b*x]^3*Coth[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_,x_Symbol] :=
+  Int[(c+d*x)^m*Csch[a+b*x]^n*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csch[a+b*x]^(n+2)*Coth[a+b*x]^(p-2),x] /;
+FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
+
+
+Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
+  With[{u=IntHide[Sech[a+b*x]^n*Tanh[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
+  With[{u=IntHide[Csch[a+b*x]^n*Coth[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Sech[a_.+b_.*x_]^n_., x_Symbol] :=
+  2^n*Int[(c+d*x)^m*Csch[2*a+2*b*x]^n,x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[m] && IntegerQ[n]
+
+
+Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Sech[a_.+b_.*x_]^p_., x_Symbol] :=
+  With[{u=IntHide[Csch[a+b*x]^n*Sech[a+b*x]^p,x]},
+  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && RationalQ[m] && m>0 && n!=p
+
+
+Int[u_^m_.*F_[v_]^n_.*G_[w_]^p_.,x_Symbol] :=
+  Int[ExpandToSum[u,x]^m*F[ExpandToSum[v,x]]^n*G[ExpandToSum[v,x]]^p,x] /;
+FreeQ[{m,n,p},x] && HyperbolicQ[F] && HyperbolicQ[G] && EqQ[v-w] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]*(a_+b_.*Sinh[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Sinh[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sinh[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]*(a_+b_.*Cosh[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Cosh[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cosh[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sech[c_.+d_.*x_]^2*(a_+b_.*Tanh[c_.+d_.*x_])^n_.,x_Symbol] :=
+  (e+f*x)^m*(a+b*Tanh[c+d*x])^(n+1)/(b*d*(n+1)) - 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Tanh[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Csch[c_.+d_.*x_]^2*(a_+b_.*Coth[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Coth[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Coth[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sech[c_.+d_.*x_]*Tanh[c_.+d_.*x_]*(a_+b_.*Sech[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Sech[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sech[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Csch[c_.+d_.*x_]*Coth[c_.+d_.*x_]*(a_+b_.*Csch[c_.+d_.*x_])^n_.,x_Symbol] :=
+  -(e+f*x)^m*(a+b*Csch[c+d*x])^(n+1)/(b*d*(n+1)) + 
+  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Csch[c+d*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*x_]^p_.*Sinh[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Sinh[a+b*x]^p*Sinh[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[a_.+b_.*x_]^p_.*Cosh[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Cosh[a+b*x]^p*Cosh[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*x_]^p_.*Cosh[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[(e+f*x)^m,Sinh[a+b*x]^p*Cosh[c+d*x]^q,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p,q]
+
+
+Int[(e_.+f_.*x_)^m_.*F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
+  Int[ExpandTrigExpand[(e+f*x)^m*G[c+d*x]^q,F,c+d*x,p,b/d,x],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && MemberQ[{Sinh,Cosh},F] && MemberQ[{Sech,Csch},G] && 
+  PositiveIntegerQ[p,q] && EqQ[b*c-a*d] && PositiveIntegerQ[b/d-1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.4.6 F^(c (a+b x)) hyper(d+e x)^n*)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_],x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) + 
+  e*F^(c*(a+b*x))*Cosh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2-b^2*c^2*Log[F]^2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_],x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) + 
+  e*F^(c*(a+b*x))*Sinh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2-b^2*c^2*Log[F]^2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2) + 
+  e*n*F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n-1)/(e^2*n^2-b^2*c^2*Log[F]^2) - 
+  n*(n-1)*e^2/(e^2*n^2-b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Sinh[d+e*x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2) + 
+  e*n*F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n-1)/(e^2*n^2-b^2*c^2*Log[F]^2) + 
+  n*(n-1)*e^2/(e^2*n^2-b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Cosh[d+e*x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
+  F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n+1)/(e*(n+1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
+  F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n+1)/(e*(n+1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
+  F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n+1)/(e*(n+1)) - 
+  (e^2*(n+2)^2-b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Sinh[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
+  F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n+1)/(e*(n+1)) + 
+  (e^2*(n+2)^2-b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Cosh[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
+  E^(n*(d+e*x))*Sinh[d+e*x]^n/(-1+E^(2*(d+e*x)))^n*Int[F^(c*(a+b*x))*(-1+E^(2*(d+e*x)))^n/E^(n*(d+e*x)),x] /;
+FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
+  E^(n*(d+e*x))*Cosh[d+e*x]^n/(1+E^(2*(d+e*x)))^n*Int[F^(c*(a+b*x))*(1+E^(2*(d+e*x)))^n/E^(n*(d+e*x)),x] /;
+FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Tanh[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[F^(c*(a+b*x))*(-1+E^(2*(d+e*x)))^n/(1+E^(2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Coth[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[F^(c*(a+b*x))*(1+E^(2*(d+e*x)))^n/(-1+E^(2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*(Sech[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
+  e*n*F^(c*(a+b*x))*Sech[d+e*x]^(n+1)*(Sinh[d+e*x]/(e^2*n^2-b^2*c^2*Log[F]^2)) + 
+  e^2*n*((n+1)/(e^2*n^2-b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Sech[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*(Csch[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
+  e*n*F^(c*(a+b*x))*Csch[d+e*x]^(n+1)*(Cosh[d+e*x]/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
+  e^2*n*((n+1)/(e^2*n^2-b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Csch[d+e*x]^(n+2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Sech[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) + 
+  F^(c*(a+b*x))*Sech[d+e*x]^(n-1)*Sinh[d+e*x]/(e*(n-1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && NeQ[n-1] && NeQ[n-2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Csch[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) - 
+  F^(c*(a+b*x))*Csch[d+e*x]^(n-1)*Cosh[d+e*x]/(e*(n-1)) /;
+FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && NeQ[n-1] && NeQ[n-2]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
+  b*c*Log[F]*F^(c*(a+b*x))*Sech[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) + 
+  F^(c*(a+b*x))*Sech[d+e*x]^(n-1)*Sinh[d+e*x]/(e*(n-1)) +
+  (e^2*(n-2)^2-b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Sech[d+e*x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1 && n!=2
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
+  -b*c*Log[F]*F^(c*(a+b*x))*Csch[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) - 
+  F^(c*(a+b*x))*Csch[d+e*x]^(n-1)*Cosh[d+e*x]/(e*(n-1)) -
+  (e^2*(n-2)^2-b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Csch[d+e*x]^(n-2),x] /;
+FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1 && n!=2
+
+
+(* Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
+  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(n*(d+e*x))/(1+E^(2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
+
+
+(* Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
+  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-n*(d+e*x))/(1-E^(-2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
+  2^n*E^(n*(d+e*x))*F^(c*(a+b*x))/(e*n+b*c*Log[F])*Hypergeometric2F1[n,n/2+b*c*Log[F]/(2*e),1+n/2+b*c*Log[F]/(2*e),-E^(2*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (-2)^n*E^(n*(d+e*x))*F^(c*(a+b*x))/(e*n+b*c*Log[F])*Hypergeometric2F1[n,n/2+b*c*Log[F]/(2*e),1+n/2+b*c*Log[F]/(2*e),E^(2*(d+e*x))] /;
+FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (1+E^(2*(d+e*x)))^n*Sech[d+e*x]^n/E^(n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(n*(d+e*x))/(1+E^(2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (1-E^(-2*(d+e*x)))^n*Csch[d+e*x]^n/E^(-n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-n*(d+e*x))/(1-E^(-2*(d+e*x)))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Sinh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*f^n*Int[F^(c*(a+b*x))*Cosh[d/2+e*x/2-f*Pi/(4*g)]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2+g^2] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*g^n*Int[F^(c*(a+b*x))*Cosh[d/2+e*x/2]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  2^n*g^n*Int[F^(c*(a+b*x))*Sinh[d/2+e*x/2]^(2*n),x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && NegativeIntegerQ[n]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^m_.*(f_+g_.*Sinh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[F^(c*(a+b*x))*Tanh[d/2+e*x/2-f*Pi/(4*g)]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2+g^2] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[F^(c*(a+b*x))*Tanh[d/2+e*x/2]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
+  g^n*Int[F^(c*(a+b*x))*Coth[d/2+e*x/2]^m,x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && IntegersQ[m,n] && m+n==0
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Cosh[d_.+e_.*x_])/(f_+g_.*Sinh[d_.+e_.*x_]),x_Symbol] :=
+  2*i*Int[F^(c*(a+b*x))*(Cosh[d+e*x]/(f+g*Sinh[d+e*x])),x] + 
+  Int[F^(c*(a+b*x))*((h-i*Cosh[d+e*x])/(f+g*Sinh[d+e*x])),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2+g^2] && EqQ[h^2-i^2] && EqQ[g*h-f*i]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Sinh[d_.+e_.*x_])/(f_+g_.*Cosh[d_.+e_.*x_]),x_Symbol] :=
+  2*i*Int[F^(c*(a+b*x))*(Sinh[d+e*x]/(f+g*Cosh[d+e*x])),x] + 
+  Int[F^(c*(a+b*x))*((h-i*Sinh[d+e*x])/(f+g*Cosh[d+e*x])),x] /;
+FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2+i^2] && EqQ[g*h+f*i]
+
+
+Int[F_^(c_.*u_)*G_[v_]^n_.,x_Symbol] :=
+  Int[F^(c*ExpandToSum[u,x])*G[ExpandToSum[v,x]]^n,x] /;
+FreeQ[{F,c,n},x] && HyperbolicQ[G] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
+
+
+Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Module[{u=IntHide[F^(c*(a+b*x))*Sinh[d+e*x]^n,x]},
+  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
+
+
+Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Module[{u=IntHide[F^(c*(a+b*x))*Cosh[d+e*x]^n,x]},
+  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
+
+
+Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_],x_Symbol] :=
+  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Sinh[d+e*x] - 
+  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cosh[d+e*x],x] - 
+  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sinh[d+e*x],x] /;
+FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
+
+
+Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_],x_Symbol] :=
+  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Cosh[d+e*x] - 
+  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sinh[d+e*x],x] - 
+  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cosh[d+e*x],x] /;
+FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
+
+
+(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_.,x_Symbol] :=
+  (-1)^n/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-(d+e*x))-E^(d+e*x))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
+
+
+(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_.,x_Symbol] :=
+  1/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-(d+e*x))+E^(d+e*x))^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*Cosh[f_.+g_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[F^(c*(a+b*x)),Sinh[d+e*x]^m*Cosh[f+g*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n]
+
+
+Int[x_^p_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*Cosh[f_.+g_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^p*F^(c*(a+b*x)),Sinh[d+e*x]^m*Cosh[f+g*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n,p]
+
+
+Int[F_^(c_.*(a_.+b_.*x_))*G_[d_.+e_.*x_]^m_.*H_[d_.+e_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^(c*(a+b*x)),G[d+e*x]^m*H[d+e*x]^n,x],x] /;
+FreeQ[{F,a,b,c,d,e},x] && PositiveIntegerQ[m,n] && HyperbolicQ[G] && HyperbolicQ[H]
+
+
+Int[F_^u_*Sinh[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Sinh[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
+
+
+Int[F_^u_*Cosh[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Cosh[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
+
+
+Int[F_^u_*Sinh[v_]^m_.*Cosh[v_]^n_.,x_Symbol] :=
+  Int[ExpandTrigToExp[F^u,Sinh[v]^m*Cosh[v]^n,x],x] /;
+FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[m,n]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.4.7 x^m hyper(a+b log(c x^n))^p*)
+
+
+Int[Sinh[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[((c*x^n)^b/2 - 1/(2*(c*x^n)^b))^p,x] /;
+FreeQ[c,x] && RationalQ[b,n,p]
+
+
+Int[Cosh[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[((c*x^n)^b/2 + 1/(2*(c*x^n)^b))^p,x] /;
+FreeQ[c,x] && RationalQ[b,n,p]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*(p+2)*Sinh[a+b*Log[c*x^n]]^(p+2)/(p+1) + 
+  x*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2-1] && NeQ[p+1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(p+2)*Cosh[a+b*Log[c*x^n]]^(p+2)/(p+1) - 
+  x*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2-1] && NeQ[p+1]
+
+
+Int[Sqrt[Sinh[a_.+b_.*Log[c_.*x_^n_.]]],x_Symbol] :=
+  x*Sqrt[Sinh[a+b*Log[c*x^n]]]/Sqrt[-1+E^(2*a)*(c*x^n)^(4/n)]*
+    Int[Sqrt[-1+E^(2*a)*(c*x^n)^(4/n)]/x,x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b*n-2]
+
+
+Int[Sqrt[Cosh[a_.+b_.*Log[c_.*x_^n_.]]],x_Symbol] :=
+  x*Sqrt[Cosh[a+b*Log[c*x^n]]]/Sqrt[1+E^(2*a)*(c*x^n)^(4/n)]*
+    Int[Sqrt[1+E^(2*a)*(c*x^n)^(4/n)]/x,x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b*n-2]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(-E^(-a*b*n*p)/(2*b*n*p)*(c*x^n)^(-1/(n*p)) + E^(a*b*n*p)/(2*b*n*p)*(c*x^n)^(1/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  Int[ExpandIntegrand[(E^(-a*b*n*p)/2*(c*x^n)^(-1/(n*p)) + E^(a*b*n*p)/2*(c*x^n)^(1/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-1]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -x*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-1) +
+  b*n*x*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-1) /;
+FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2-1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -x*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-1) +
+  b*n*x*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-1) /;
+FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2-1]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Sinh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) + 
+  b*n*p*x*Cosh[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-1) - 
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-1)*Int[Sinh[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Cosh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) + 
+  b*n*p*x*Sinh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-1) + 
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-1)*Int[Cosh[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
+  x*Sinh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) -
+  (b^2*n^2*(p+2)^2-1)/(b^2*n^2*(p+1)*(p+2))*Int[Sinh[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2-1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) +
+  x*Cosh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
+  (b^2*n^2*(p+2)^2-1)/(b^2*n^2*(p+1)*(p+2))*Int[Cosh[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2-1]
+
+
+Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(-E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((b*n*p+1)*(2-2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
+    Hypergeometric2F1[-p,-(1+b*n*p)/(2*b*n),1-(1+b*n*p)/(2*b*n),E^(-2*a)*(c*x^n)^(-2*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*(E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((b*n*p+1)*(2+2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
+    Hypergeometric2F1[-p,-(1+b*n*p)/(2*b*n),1-(1+b*n*p)/(2*b*n),-E^(-2*a)*(c*x^n)^(-2*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(p+2)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) + 
+  x^(m+1)*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2-(m+1)^2] && NeQ[p+1] && NeQ[m+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p+2)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) - 
+  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2-(m+1)^2] && NeQ[p+1] && NeQ[m+1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  1/2^p*Int[ExpandIntegrand[x^m*(-(m+1)/(b*n*p)*E^(-a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) + 
+    (m+1)/(b*n*p)*E^((a*b*n*p)/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  1/2^p*Int[ExpandIntegrand[x^m*(E^((a*b*n*p)/(m+1))*(c*x^n)^((m+1)/(n*p)) + 
+    E^(-a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)))^p,x],x] /;
+FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -(m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) + 
+  b*n*x^(m+1)*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2-(m+1)^2] && NeQ[m+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -(m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) + 
+  b*n*x^(m+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2-(m+1)^2] && NeQ[m+1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) + 
+  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-(m+1)^2) - 
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Sinh[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*p^2-(m+1)^2] && RationalQ[p] && p>1 && NeQ[m+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) + 
+  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p-1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-(m+1)^2) + 
+  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Cosh[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*p^2-(m+1)^2] && RationalQ[p] && p>1 && NeQ[m+1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) - 
+  (m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) - 
+  (b^2*n^2*(p+2)^2-(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Sinh[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*(p+2)^2-(m+1)^2] && RationalQ[p] && p<-1 && p!=-2 && NeQ[m+1]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x^(m+1)*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) + 
+  (m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
+  (b^2*n^2*(p+2)^2-(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Cosh[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*(p+2)^2-(m+1)^2] && RationalQ[p] && p<-1 && p!=-2 && NeQ[m+1]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*(-E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((m+b*n*p+1)*(2-2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
+    Hypergeometric2F1[-p,-(m+b*n*p+1)/(2*b*n),1-(m+b*n*p+1)/(2*b*n),E^(-2*a)*(c*x^n)^(-2*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*(E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((m+b*n*p+1)*(2+2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
+    Hypergeometric2F1[-p,-(m+b*n*p+1)/(2*b*n),1-(m+b*n*p+1)/(2*b*n),-E^(-2*a)*(c*x^n)^(-2*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[Sech[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*Int[((c*x^n)^b/(1+(c*x^n)^(2*b)))^p,x] /;
+FreeQ[c,x] && RationalQ[b,n,p]
+
+
+Int[Csch[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*Int[((c*x^n)^b/(-1+(c*x^n)^(2*b)))^p,x] /;
+FreeQ[c,x] && RationalQ[b,n,p]
+
+
+Int[Sech[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*E^(-a*b*n)*Int[(c*x^n)^(1/n)/(E^(-2*a*b*n)+(c*x^n)^(2/n)),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2-1]
+
+
+Int[Csch[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -2*b*n*E^(-a*b*n)*Int[(c*x^n)^(1/n)/(E^(-2*a*b*n)-(c*x^n)^(2/n)),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2-1]
+
+
+Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x*Sech[a+b*Log[c*x^n]]^(p-2)/(p-1) + 
+  x*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2-1] && NeQ[p-1]
+
+
+Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(p-2)*x*Csch[a+b*Log[c*x^n]]^(p-2)/(p-1) - 
+  x*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2-1] && NeQ[p-1]
+
+
+Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) +
+  x*Sech[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2-1)/(b^2*n^2*(p-1)*(p-2))*Int[Sech[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-1]
+
+
+Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  x*Csch[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) -
+  (b^2*n^2*(p-2)^2-1)/(b^2*n^2*(p-1)*(p-2))*Int[Csch[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-1]
+
+
+Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -b*n*p*x*Sech[a+b*Log[c*x^n]]^(p+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-1) -
+  x*Sech[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-1)*Int[Sech[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -b*n*p*x*Cosh[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2-1) - 
+  x*Csch[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) -
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-1)*Int[Csch[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*x*(E^(2*a)*(c*x^n)^(2*b)+1)^p/(b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)+1))^p*
+    Hypergeometric2F1[p,(b*n*p+1)/(2*b*n),1+(b*n*p+1)/(2*b*n),-E^(2*a)*(c*x^n)^(2*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
+
+
+Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  x*(2-2*E^(2*a)*(c*x^n)^(2*b))^p/(b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)-1))^p*
+    Hypergeometric2F1[p,(b*n*p+1)/(2*b*n),1+(b*n*p+1)/(2*b*n),E^(2*a)*(c*x^n)^(2*b)] /;
+FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
+
+
+Int[x_^m_.*Sech[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*Int[x^m*((c*x^n)^b/(1+(c*x^n)^(2*b)))^p,x] /;
+FreeQ[c,x] && RationalQ[b,m,n,p]
+
+
+Int[x_^m_.*Csch[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*Int[x^m*((c*x^n)^b/(-1+(c*x^n)^(2*b)))^p,x] /;
+FreeQ[c,x] && RationalQ[b,m,n,p]
+
+
+Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  2*E^(-a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(-2*a*b*n/(m+1))+(c*x^n)^(2*(m+1)/n)),x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2-(m+1)^2]
+
+
+Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
+  -2*b*n/(m+1)*E^(-a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(-2*a*b*n/(m+1))-(c*x^n)^(2*(m+1)/n)),x] /;
+FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2-(m+1)^2]
+
+
+Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  (p-2)*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) + 
+  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
+
+
+Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(p-2)*x^(m+1)*Csch[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) - 
+  x^(m+1)*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
+
+
+Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) +
+  (m+1)*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
+  (b^2*n^2*(p-2)^2-(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Sech[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-(m+1)^2]
+
+
+Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -x^(m+1)*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
+  (m+1)*x^(m+1)*Csch[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) -
+  (b^2*n^2*(p-2)^2-(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Csch[a+b*Log[c*x^n]]^(p-2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-(m+1)^2]
+
+
+Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(m+1)*x^(m+1)*Sech[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) -
+  b*n*p*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-(m+1)^2) +
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Sech[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
+  -(m+1)*x^(m+1)*Csch[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) -
+  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2-(m+1)^2) -
+  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Csch[a+b*Log[c*x^n]]^(p+2),x] /;
+FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*x^(m+1)*(E^(2*a)*(c*x^n)^(2*b)+1)^p/(m+b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)+1))^p*
+    Hypergeometric2F1[p,(m+b*n*p+1)/(2*b*n),1+(m+b*n*p+1)/(2*b*n),-E^(2*a)*(c*x^n)^(2*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
+  2^p*x^(m+1)*(-E^(2*a)*(c*x^n)^(2*b)+1)^p/(m+b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)-1))^p*
+    Hypergeometric2F1[p,(m+b*n*p+1)/(2*b*n),1+(m+b*n*p+1)/(2*b*n),E^(2*a)*(c*x^n)^(2*b)] /;
+FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
+
+
+Int[Sinh[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Cosh[a*x*Log[b*x]^p]/a - 
+  p*Int[Sinh[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b},x] && RationalQ[p] && p>0
+
+
+Int[Cosh[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sinh[a*x*Log[b*x]^p]/a - 
+  p*Int[Cosh[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b},x] && RationalQ[p] && p>0
+
+
+Int[Sinh[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Cosh[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) - 
+  p/n*Int[Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] + 
+  (n-1)/(a*n)*Int[Cosh[a*x^n*Log[b*x]^p]/x^n,x] /;
+FreeQ[{a,b},x] && RationalQ[n,p] && p>0
+
+
+Int[Cosh[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sinh[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) - 
+  p/n*Int[Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] + 
+  (n-1)/(a*n)*Int[Sinh[a*x^n*Log[b*x]^p]/x^n,x] /;
+FreeQ[{a,b},x] && RationalQ[n,p] && p>0
+
+
+Int[x_^m_.*Sinh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  -Cosh[a*x^n*Log[b*x]^p]/(a*n) - 
+  p/n*Int[x^(n-1)*Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
+
+
+Int[x_^m_.*Cosh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  Sinh[a*x^n*Log[b*x]^p]/(a*n) - 
+  p/n*Int[x^(n-1)*Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
+FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
+
+
+Int[x_^m_*Sinh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  x^(m-n+1)*Cosh[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
+  (m-n+1)/(a*n)*Int[x^(m-n)*Cosh[a*x^n*Log[b*x]^p],x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && p>0 && NeQ[m-n+1]
+
+
+Int[x_^m_*Cosh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
+  x^(m-n+1)*Sinh[a*x^n*Log[b*x]^p]/(a*n) -
+  p/n*Int[x^m*Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
+  (m-n+1)/(a*n)*Int[x^(m-n)*Sinh[a*x^n*Log[b*x]^p],x] /;
+FreeQ[{a,b},x] && RationalQ[m,n,p] && p>0 && NeQ[m-n+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*6.4.8 Active hyperbolic functions*)
+
+
+Int[Sinh[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Sinh[a*x]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[Cosh[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Cosh[a*x]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[Sinh[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Sinh[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
+
+
+Int[Cosh[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
+  -1/d*Subst[Int[Cosh[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
+
+
+Int[Sinh[u_]^n_.,x_Symbol] :=
+  With[{lst=QuotientOfLinearsParts[u,x]},
+  Int[Sinh[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
+PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
+
+
+Int[Cosh[u_]^n_.,x_Symbol] :=
+  With[{lst=QuotientOfLinearsParts[u,x]},
+  Int[Cosh[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
+PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
+
+
+Int[u_.*Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
+  Int[u*Sinh[v]^(p+q),x] /;
+EqQ[v-w]
+
+
+Int[u_.*Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
+  Int[u*Cosh[v]^(p+q),x] /;
+EqQ[v-w]
+
+
+Int[Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Sinh[v]^p*Sinh[w]^q,x],x] /;
+PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Cosh[v]^p*Cosh[w]^q,x],x] /;
+PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[x_^m_.*Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Sinh[v]^p*Sinh[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[x_^m_.*Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Cosh[v]^p*Cosh[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[u_.*Sinh[v_]^p_.*Cosh[w_]^p_.,x_Symbol] :=
+  1/2^p*Int[u*Sinh[2*v]^p,x] /;
+EqQ[v-w] && IntegerQ[p]
+
+
+Int[Sinh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[Sinh[v]^p*Cosh[w]^q,x],x] /;
+PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[x_^m_.*Sinh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
+  Int[ExpandTrigReduce[x^m,Sinh[v]^p*Cosh[w]^q,x],x] /;
+PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
+
+
+Int[Sinh[v_]*Tanh[w_]^n_.,x_Symbol] :=
+  Int[Cosh[v]*Tanh[w]^(n-1),x] - Cosh[v-w]*Int[Sech[w]*Tanh[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cosh[v_]*Coth[w_]^n_.,x_Symbol] :=
+  Int[Sinh[v]*Coth[w]^(n-1),x] + Cosh[v-w]*Int[Csch[w]*Coth[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sinh[v_]*Coth[w_]^n_.,x_Symbol] :=
+  Int[Cosh[v]*Coth[w]^(n-1),x] + Sinh[v-w]*Int[Csch[w]*Coth[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cosh[v_]*Tanh[w_]^n_.,x_Symbol] :=
+  Int[Sinh[v]*Tanh[w]^(n-1),x] - Sinh[v-w]*Int[Sech[w]*Tanh[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sinh[v_]*Sech[w_]^n_.,x_Symbol] :=
+  Cosh[v-w]*Int[Tanh[w]*Sech[w]^(n-1),x] + Sinh[v-w]*Int[Sech[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cosh[v_]*Csch[w_]^n_.,x_Symbol] :=
+  Cosh[v-w]*Int[Coth[w]*Csch[w]^(n-1),x] + Sinh[v-w]*Int[Csch[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Sinh[v_]*Csch[w_]^n_.,x_Symbol] :=
+  Sinh[v-w]*Int[Coth[w]*Csch[w]^(n-1),x] + Cosh[v-w]*Int[Csch[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[Cosh[v_]*Sech[w_]^n_.,x_Symbol] :=
+  Sinh[v-w]*Int[Tanh[w]*Sech[w]^(n-1),x] + Cosh[v-w]*Int[Sech[w]^(n-1),x] /;
+RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_+b_.*Sinh[c_.+d_.*x_]*Cosh[c_.+d_.*x_])^n_.,x_Symbol] :=
+  Int[(e+f*x)^m*(a+b*Sinh[2*c+2*d*x]/2)^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[x_^m_.*(a_+b_.*Sinh[c_.+d_.*x_]^2)^n_,x_Symbol] :=
+  1/2^n*Int[x^m*(2*a-b+b*Cosh[2*c+2*d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a-b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
+
+
+Int[x_^m_.*(a_+b_.*Cosh[c_.+d_.*x_]^2)^n_,x_Symbol] :=
+  1/2^n*Int[x^m*(2*a+b+b*Cosh[2*c+2*d*x])^n,x] /;
+FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
+  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Sinh[a+b*x^n]^p,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
+  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Cosh[a+b*x^n]^p,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
+
+
+Int[(f_.+g_.*x_)^m_./(a_.+b_.*Cosh[d_.+e_.*x_]^2+c_.*Sinh[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(f_.+g_.*x_)^m_.*Sech[d_.+e_.*x_]^2/(b_+c_.*Tanh[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
+FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*Sech[d_.+e_.*x_]^2/(b_.+a_.*Sech[d_.+e_.*x_]^2+c_.*Tanh[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(f_.+g_.*x_)^m_.*Csch[d_.+e_.*x_]^2/(c_+b_.*Coth[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
+FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
+
+
+Int[(f_.+g_.*x_)^m_.*Csch[d_.+e_.*x_]^2/(c_.+b_.*Coth[d_.+e_.*x_]^2+a_.*Csch[d_.+e_.*x_]^2),x_Symbol] :=
+  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
+  -(e+f*x)^(m+1)/(b*f*(m+1)) + 
+  Int[(e+f*x)^m*E^(c+d*x)/(a-Rt[a^2+b^2,2]+b*E^(c+d*x)),x] + 
+  Int[(e+f*x)^m*E^(c+d*x)/(a+Rt[a^2+b^2,2]+b*E^(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] (* && PosQ[a^2+b^2] *)
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
+  -(e+f*x)^(m+1)/(b*f*(m+1)) + 
+  Int[(e+f*x)^m*E^(c+d*x)/(a-Rt[a^2-b^2,2]+b*E^(c+d*x)),x] + 
+  Int[(e+f*x)^m*E^(c+d*x)/(a+Rt[a^2-b^2,2]+b*E^(c+d*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] (* && PosQ[a^2+b^2] *)
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]^n_/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
+  1/a*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2),x] + 
+  1/b*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)*Sinh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2+b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]^n_/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
+  1/a*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2),x] + 
+  1/b*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)*Cosh[c+d*x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]^n_/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
+  -a/b^2*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2),x] + 
+  1/b*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)*Sinh[c+d*x],x] + 
+  (a^2+b^2)/b^2*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)/(a+b*Sinh[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2+b^2]
+
+
+Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]^n_/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
+  -a/b^2*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2),x] + 
+  1/b*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)*Cosh[c+d*x],x] + 
+  (a^2-b^2)/b^2*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)/(a+b*Cosh[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
+
+
+Int[(e_.+f_.*x_)*(A_+B_.*Sinh[c_.+d_.*x_])/(a_+b_.*Sinh[c_.+d_.*x_])^2,x_Symbol] :=
+  B*(e+f*x)*Cosh[c+d*x]/(a*d*(a+b*Sinh[c+d*x])) - 
+  B*f/(a*d)*Int[Cosh[c+d*x]/(a+b*Sinh[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A+b*B]
+
+
+Int[(e_.+f_.*x_)*(A_+B_.*Cosh[c_.+d_.*x_])/(a_+b_.*Cosh[c_.+d_.*x_])^2,x_Symbol] :=
+  B*(e+f*x)*Sinh[c+d*x]/(a*d*(a+b*Cosh[c+d*x])) -
+  B*f/(a*d)*Int[Sinh[c+d*x]/(a+b*Cosh[c+d*x]),x] /;
+FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
+
+
+Int[Sech[v_]^m_.*(a_+b_.*Tanh[v_])^n_.,x_Symbol] :=
+  Int[(a*Cosh[v]+b*Sinh[v])^n,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
+
+
+Int[Csch[v_]^m_.*(a_+b_.*Coth[v_])^n_.,x_Symbol] :=
+  Int[(b*Cosh[v]+a*Sinh[v])^n,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
+
+
+Int[u_.*Sinh[a_.+b_.*x_]^m_.*Sinh[c_.+d_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[u,Sinh[a+b*x]^m*Sinh[c+d*x]^n,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
+
+
+Int[u_.*Cosh[a_.+b_.*x_]^m_.*Cosh[c_.+d_.*x_]^n_.,x_Symbol] :=
+  Int[ExpandTrigReduce[u,Cosh[a+b*x]^m*Cosh[c+d*x]^n,x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
+
+
+Int[Sech[a_.+b_.*x_]*Sech[c_+d_.*x_],x_Symbol] :=
+  -Csch[(b*c-a*d)/d]*Int[Tanh[a+b*x],x] + Csch[(b*c-a*d)/b]*Int[Tanh[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Csch[a_.+b_.*x_]*Csch[c_+d_.*x_],x_Symbol] :=
+  Csch[(b*c-a*d)/b]*Int[Coth[a+b*x],x] - Csch[(b*c-a*d)/d]*Int[Coth[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Tanh[a_.+b_.*x_]*Tanh[c_+d_.*x_],x_Symbol] :=
+  b*x/d - b/d*Cosh[(b*c-a*d)/d]*Int[Sech[a+b*x]*Sech[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[Coth[a_.+b_.*x_]*Coth[c_+d_.*x_],x_Symbol] :=
+  b*x/d + Cosh[(b*c-a*d)/d]*Int[Csch[a+b*x]*Csch[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
+
+
+Int[u_.*(a_.*Cosh[v_]+b_.*Sinh[v_])^n_.,x_Symbol] :=
+  Int[u*(a*E^(a/b*v))^n,x] /;
+FreeQ[{a,b,n},x] && EqQ[a^2-b^2]
+
+
+
+`)
+
+func resourcesRubi6HyperbolicFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi6HyperbolicFunctionsM, nil
+}
+
+func resourcesRubi6HyperbolicFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi6HyperbolicFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/6 Hyperbolic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi7InverseHyperbolicFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Inverse Hyperbolic Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.1 (a+b arcsinh(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcSinh[c*x])^n - 
+  b*c*n*Int[x*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcCosh[c*x])^n - 
+  b*c*n*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c/(b*(n+1))*Int[x*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c/(b*(n+1))*Int[x*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  1/(b*c)*Subst[Int[x^n*Cosh[a/b-x/b],x],x,a+b*ArcSinh[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  -1/(b*c)*Subst[Int[x^n*Sinh[a/b-x/b],x],x,a+b*ArcCosh[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.2 (d x)^m (a+b arcsinh(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./x_,x_Symbol] :=
+  Subst[Int[(a+b*x)^n/Tanh[x],x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./x_,x_Symbol] :=
+  Subst[Int[(a+b*x)^n/Coth[x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*ArcSinh[c*x])^n/(d*(m+1)) - 
+  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d*x)^(m+1)*(a+b*ArcCosh[c*x])^n/(d*(m+1)) - 
+  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcSinh[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcCosh[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Sinh[x]^(m-1)*(m+(m+1)*Sinh[x]^2),x],x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1)*Cosh[x]^(m-1)*(m-(m+1)*Cosh[x]^2),x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] - 
+  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
+
+
+Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  x^m*Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] - 
+  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
+
+
+Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m*Cosh[x],x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,m,n},x]
+
+
+Int[(d_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d*x)^m*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,m,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.3 (d+e x^2)^p (a+b arcsinh(c x))^n*)
+
+
+Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])),x_Symbol] :=
+  Log[a+b*ArcSinh[c*x]]/(b*c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
+
+
+Int[1/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])),x_Symbol] :=
+  Log[a+b*ArcCosh[c*x]]/(b*c*Sqrt[-d1*d2]) /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2]
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveQ[d] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  (a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && Not[PositiveQ[d1] && NegativeQ[d2]]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^p/(2*p+1)*Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d)^p/((2*p+1))*Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p]
+
+
+(* Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
+  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^p/((2*p+1))*Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p-1/2] && 
+  (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  x*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/2 - 
+  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1+c^2*x^2])*Int[x*(a+b*ArcSinh[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/(2*Sqrt[1+c^2*x^2])*Int[(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/2 - 
+  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(2*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[x*(a+b*ArcCosh[c*x])^(n-1),x] - 
+  Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(2*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
+  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/((2*p+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p-1/2]
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
+  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0
+
+
+(* Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcSinh[c*x])^n/(d*Sqrt[d+e*x^2]) - 
+  b*c*n/Sqrt[d]*Int[x*(a+b*ArcSinh[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && PositiveQ[d] *)
+
+
+(* Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./((d1_+e1_.*x_)^(3/2)*(d2_+e2_.*x_)^(3/2)),x_Symbol] :=
+  x*(a+b*ArcCosh[c*x])^n/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
+  b*c*n/Sqrt[-d1*d2]*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(d1*d2+e1*e2*x^2),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  x*(a+b*ArcSinh[c*x])^n/(d*Sqrt[d+e*x^2]) - 
+  b*c*n*Sqrt[1+c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcSinh[c*x])^(n-1)/(1+c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./((d1_+e1_.*x_)^(3/2)*(d2_+e2_.*x_)^(3/2)),x_Symbol] :=
+  x*(a+b*ArcCosh[c*x])^n/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
+  b*c*n*Sqrt[1+c*x]*Sqrt[-1+c*x]/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0
+
+
+(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
+  b*c*n*d^p/(2*(p+1))*Int[x*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d)^p/(2*(p+1))*Int[x*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && IntegerQ[p]
+
+
+(* Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
+  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^p/(2*(p+1))*Int[x*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && 
+  IntegerQ[p+1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*(p+1)) + 
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[x*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
+
+
+Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
+  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^(p+1/2)*Sqrt[1+c*x]*Sqrt[-1+c*x]/(2*(p+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*
+    Int[x*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && IntegerQ[p+1/2]
+
+
+Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
+  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[x*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/(c*d)*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  -1/(c*d)*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  d^p*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (-d)^p*(-1+c*x)^(p+1/2)*(1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(-d)^p*(2*p+1)/(b*(n+1))*Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[p]
+
+
+(* Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (-d1*d2)^p*(-1+c*x)^(p+1/2)*(1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(-d1*d2)^p*(2*p+1)/(b*(n+1))*Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[p-1/2] && 
+  (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(2*p+1)*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(b*(n+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[p-1/2]
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
+  c*(2*p+1)*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[x*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c*Subst[Int[(a+b*x)^n*Cosh[x]^(2*p+1),x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^p/c*Subst[Int[(a+b*x)^n*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^p/c*Subst[Int[(a+b*x)^n*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
+  (PositiveQ[d1] && NegativeQ[d2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1+c^2*x^2]*Int[(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[2*p] && Not[PositiveQ[d1] && NegativeQ[d2]]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[e-c^2*d] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2]) *)
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && NeQ[e-c^2*d] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && IntegerQ[p]
+
+
+Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n,p},x]
+
+
+Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(d*f+e*g*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2+g^2] && Not[IntegerQ[p]]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[c^2*d+e] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.4 (f x)^m (d+e x^2)^p (a+b arcsinh(c x))^n*)
+
+
+Int[x_*(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Subst[Int[(a+b*x)^n*Tanh[x],x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Subst[Int[(a+b*x)^n*Coth[x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
+  b*n*d^p/(2*c*(p+1))*Int[(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e*(p+1)) - 
+  b*n*(-d)^p/(2*c*(p+1))*Int[(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && IntegerQ[p]
+
+
+(* Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
+  b*n*(-d1*d2)^(p-1/2)/(2*c*(p+1))*Int[(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && IntegerQ[p+1/2] && 
+  (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
+  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
+  b*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && NeQ[p+1] && IntegerQ[p+1/2]
+
+
+Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
+  b*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  1/d*Subst[Int[(a+b*x)^n/(Cosh[x]*Sinh[x]),x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  -1/d*Subst[Int[(a+b*x)^n/(Cosh[x]*Sinh[x]),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(d*f*(m+1)) + 
+  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && IntegerQ[p]
+
+
+(* Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
+  b*c*n*(-d1*d2)^p/(f*(m+1))*Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && 
+  NeQ[m+1] && IntegerQ[p+1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && 
+  NeQ[m+1] && IntegerQ[p+1/2]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])/x_,x_Symbol] :=
+  (d+e*x^2)^p*(a+b*ArcSinh[c*x])/(2*p) - 
+  b*c*d^p/(2*p)*Int[(1+c^2*x^2)^(p-1/2),x] + 
+  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])/x,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])/x_,x_Symbol] :=
+  (d+e*x^2)^p*(a+b*ArcCosh[c*x])/(2*p) - 
+  b*c*(-d)^p/(2*p)*Int[(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2),x] + 
+  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])/x,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])/(f*(m+1)) - 
+  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2),x] - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])/(f*(m+1)) - 
+  b*c*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2),x] - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x]),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1+c^2*x^2)^p,x]},  
+  Dist[d^p*(a+b*ArcSinh[c*x]),u,x] - b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
+  p!=-1/2 && PositiveQ[d]
+
+
+Int[x_^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1+c*x)^p*(-1+c*x)^p,x]},  
+  Dist[(-d1*d2)^p*(a+b*ArcCosh[c*x]),u,x] - b*c*(-d1*d2)^p*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2] && 
+  (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && p!=-1/2 && PositiveQ[d1] && NegativeQ[d2]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1+c^2*x^2)^p,x]},
+  (a+b*ArcSinh[c*x])*Int[x^m*(d+e*x^2)^p,x] - 
+  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1+c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
+
+
+Int[x_^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(1+c*x)^p*(-1+c*x)^p,x]},  
+  (a+b*ArcCosh[c*x])*Int[x^m*(d1+e1*x)^p*(d2+e2*x)^p,x] - 
+  b*c*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
+  (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && IntegerQ[p]
+
+
+(* Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
+  2*e1*e2*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^p/(f*(m+1))*Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && 
+  IntegerQ[p-1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
+  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[(f_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
+  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[(f*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1),x] - 
+  c^2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f^2*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[((f*x)^(m+2)*(a+b*ArcCosh[c*x])^n)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
+  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
+  2*e1*e2*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && IntegerQ[p-1/2]
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d)^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  IntegerQ[p] && (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(f*(m+2)) - 
+  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1),x] + 
+  Sqrt[d+e*x^2]/((m+2)*Sqrt[1+c^2*x^2])*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(f*(m+2)) - 
+  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+2)*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1),x] - 
+  Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/((m+2)*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && 
+  (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+2*p+1)) + 
+  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  (RationalQ[m] || EqQ[n-1])
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+2*p+1)) + 
+  2*d1*d2*p/(m+2*p+1)*Int[(f*x)^m*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+2*p+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
+  IntegerQ[p-1/2] && (RationalQ[m] || EqQ[n-1])
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(d*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] + 
+  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] + 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && 
+  IntegerQ[p+1/2]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
+  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] + 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d)^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && p<-1 && m>1 && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
+  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] - 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
+  f^2*(m-1)/(2*e1*e2*(p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && IntegerQ[p+1/2]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
+  f^2*(m-1)/(2*e1*e2*(p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p<-1 && Not[IntegerQ[p]] && m>1
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
+  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d)^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*f*(p+1)) + 
+  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
+  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
+  (IntegerQ[m] || IntegerQ[p] || n==1)
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*f*(p+1)) + 
+  (m+2*p+3)/(2*d1*d2*(p+1))*Int[(f*x)^m*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*f*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && 
+  Not[RationalQ[m] && m>1] && (IntegerQ[m] || n==1) && IntegerQ[p+1/2]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  -(f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*f*(p+1)) + 
+  (m+2*p+3)/(2*d1*d2*(p+1))*Int[(f*x)^m*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
+  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*f*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && 
+  Not[RationalQ[m] && m>1] && (IntegerQ[m] || IntegerQ[p] || n==1)
+
+
+(* Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(e*m) - 
+  b*f*n*Sqrt[1+c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSinh[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
+
+
+(* Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(e1*e2*m) + 
+  b*f*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(c*d1*d2*m*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[(f*x)^(m-2)*(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m] *)
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(e*m) - 
+  b*f*n*Sqrt[1+c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
+  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSinh[c*x])^n)/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  f*(f*x)^(m-1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(e1*e2*m) + 
+  b*f*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(c*d1*d2*m*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n-1),x] + 
+  f^2*(m-1)/(c^2*m)*Int[(f*x)^(m-2)*(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
+
+
+Int[x_^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Sinh[x]^m,x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[x_^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  1/(c^(m+1)*Sqrt[-d1*d2])*Subst[Int[(a+b*x)^n*Cosh[x]^m,x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[n] && 
+  PositiveQ[d1] && NegativeQ[d2] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f*x)^(m+1)*(a+b*ArcSinh[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,-c^2*x^2]/(Sqrt[d]*f*(m+1)) - 
+  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},-c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && PositiveQ[d] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  (f*x)^(m+1)*Sqrt[1-c^2*x^2]*(a+b*ArcCosh[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/
+    (f*(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
+  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[-d1*d2]*f^2*(m+1)*(m+2)) /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && Not[IntegerQ[m]]
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
+
+
+Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && Not[PositiveQ[d1] && NegativeQ[d2]] && 
+  (IntegerQ[m] || n==1)
+
+
+(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(e*(m+2*p+1)) - 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
+  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
+  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(e*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d)^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[p] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(e*(m+2*p+1)) - 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
+  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(e1*e2*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(c*(m+2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
+  IntegerQ[m] && IntegerQ[p+1/2]
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(e1*e2*(m+2*p+1)) + 
+  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] - 
+  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(c*(m+2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
+  IntegerQ[m]
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  d^p*(f*x)^m*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*(-d)^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && IntegerQ[p-1/2]
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f*x)^m*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && PositiveQ[d]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  (f*x)^m*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
+  (f*m)/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && PositiveQ[d1] && NegativeQ[d2]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && Not[PositiveQ[d]]
+
+
+Int[(f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && Not[PositiveQ[d1] && NegativeQ[d2]]
+
+
+(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  d^p*(f*x)^m*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] - 
+  c*d^p*(m+2*p+1)/(b*f*(n+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
+  (IntegerQ[p] || PositiveQ[d]) *)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*(-d)^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] - 
+  c*(-d)^p*(m+2*p+1)/(b*f*(n+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
+  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] - 
+  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1+c^2*x^2)^FracPart[p])*
+    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
+  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] - 
+  c*(m+2*p+1)*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*f*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && 
+  PositiveIntegerQ[p+1/2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m*Cosh[x]^(2*p+1),x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p+1/2] && p>-1 && PositiveIntegerQ[m] && 
+  (PositiveQ[d1] && NegativeQ[d2])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[x^m*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
+
+
+Int[x_^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[x^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && 
+  Not[IntegerQ[p] || PositiveQ[d1] && NegativeQ[d2]]
+
+
+Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
+  IntegerQ[m] && -3<m<0
+
+
+Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),(f*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[p+1/2] && 
+  Not[PositiveIntegerQ[(m+1)/2]] && IntegerQ[m] && -3<m<0
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  d*(f*x)^(m+1)*(a+b*ArcCosh[c*x])/(f*(m+1)) + 
+  e*(f*x)^(m+3)*(a+b*ArcCosh[c*x])/(f^3*(m+3)) - 
+  b*c/(f*(m+1)*(m+3))*Int[(f*x)^(m+1)*(d*(m+3)+e*(m+1)*x^2)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && NeQ[m+1] && NeQ[m+3]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[e-c^2*d] && NeQ[p+1]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[e-c^2*d] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && IntegerQ[p]
+
+
+Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(f*x)^m*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,m,n,p},x]
+
+
+Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
+    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2+g^2] && Not[IntegerQ[p]]
+
+
+Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[c^2*d+e] && Not[IntegerQ[p]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.5 u (a+b arcsinh(c x))^n*)
+
+
+Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_.+e_.*x_),x_Symbol] :=
+  Subst[Int[(a+b*x)^n*Cosh[x]/(c*d+e*Sinh[x]),x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_.+e_.*x_),x_Symbol] :=
+  Subst[Int[(a+b*x)^n*Sinh[x]/(c*d+e*Cosh[x]),x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*ArcSinh[c*x])^n/(e*(m+1)) - 
+  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x)^(m+1)*(a+b*ArcCosh[c*x])^n/(e*(m+1)) - 
+  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcSinh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
+
+
+Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcCosh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]*(c*d+e*Sinh[x])^m,x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
+
+
+Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  1/c^(m+1)*Subst[Int[(a+b*x)^n*(c*d+e*Cosh[x])^m*Sinh[x],x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
+
+
+Int[Px_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[ExpandExpression[Px,x],x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[ExpandExpression[Px,x],x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
+
+
+(* Int[Px_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=IntHide[Px,x]},  
+  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
+
+
+(* Int[Px_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=IntHide[Px,x]},  
+  Dist[(a+b*ArcCosh[c*x])^n,u,x] - 
+    b*c*n*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
+
+
+Int[Px_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(a+b*ArcSinh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(a+b*ArcCosh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[Px*(d+e*x)^m,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
+
+
+Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[Px*(d+e*x)^m,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
+
+
+Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
+  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
+
+
+Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
+  Dist[(a+b*ArcCosh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
+
+
+Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
+  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
+  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
+
+
+Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
+  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
+  Dist[(a+b*ArcCosh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
+
+
+Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcSinh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcCosh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1+c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
+  (m<-2*p-1 || m>3)
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(f+g*x)^m*(d1+e1*x)^p*(d2+e2*x)^p,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[Dist[1/(Sqrt[1+c*x]*Sqrt[-1+c*x]),u,x],x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && 
+  PositiveQ[d1] && NegativeQ[d2] && m>0 && (m<-2*p-1 || m>3)
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
+  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && IntegerQ[p+1/2] && 
+  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n] && m>0 && (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
+
+
+Int[(f_.+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d+e*x^2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d1*d2+e1*e2*x^2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
+  1/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(d1*d2*g*m+2*e1*e2*f*x+e1*e2*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && 
+  PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n,(f+g*x)^m*(d1+e1*x)^(p-1/2)*(d2+e2*x)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && 
+  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  1/(b*c*Sqrt[d]*(n+1))*
+    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (f+g*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
+  1/(b*c*Sqrt[-d1*d2]*(n+1))*
+    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),
+      (d1*d2*g*m+e1*e2*f*(2*p+1)*x+e1*e2*g*(m+2*p+1)*x^2)*(d1+e1*x)^(p-1/2)*(d2+e2*x)^(p-1/2),x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && 
+  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n] && m<0
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  (f+g*x)^m*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  (f+g*x)^m*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
+  g*m/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && m>0 && 
+  RationalQ[n] && n<-1
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Sinh[x])^m,x],x,ArcSinh[c*x]] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
+
+
+Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  1/(c^(m+1)*Sqrt[-d1*d2])*Subst[Int[(a+b*x)^n*(c*f+g*Cosh[x])^m,x],x,ArcCosh[c*x]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && 
+  (m>0 || PositiveIntegerQ[n])
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),(f+g*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2),x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && 
+  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[(f+g*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2]
+
+
+Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*
+    Int[(f+g*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && IntegerQ[p-1/2] && 
+  Not[PositiveQ[d1] && NegativeQ[d2]]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Log[h*(f+g*x)^m]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
+  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcSinh[c*x])^(n+1)/(f+g*x),x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[n]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
+  Log[h*(f+g*x)^m]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
+  g*m/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(a+b*ArcCosh[c*x])^(n+1)/(f+g*x),x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g,h,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[e-c^2*d] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[Log[h*(f+g*x)^m]*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
+
+
+Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
+    Int[Log[h*(f+g*x)^m]*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g,h,m,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2] && Not[PositiveQ[d1] && NegativeQ[d2]]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
+  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1+c^2*x^2],u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
+
+
+Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
+  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[Dist[1/(Sqrt[1+c*x]*Sqrt[-1+c*x]),u,x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(d+e*x)^m*(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
+
+
+Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(d+e*x)^m*(f+g*x)^m,x],x] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
+
+
+Int[u_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
+  With[{v=IntHide[u,x]},  
+  Dist[a+b*ArcSinh[c*x],v,x] - b*c*Int[SimplifyIntegrand[v/Sqrt[1+c^2*x^2],x],x] /;
+ InverseFunctionFreeQ[v,x]] /;
+FreeQ[{a,b,c},x]
+
+
+Int[u_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
+  With[{v=IntHide[u,x]},  
+  Dist[a+b*ArcCosh[c*x],v,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
+ InverseFunctionFreeQ[v,x]] /;
+FreeQ[{a,b,c},x]
+
+
+Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
+
+
+Int[Px_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && PolynomialQ[Px,x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2]
+
+
+Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcSinh[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[e-c^2*d] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
+
+
+Int[Px_.*(f_+g_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[Px*(f+g*(d1+e1*x)^p*(d2+e2*x)^p)^m*(a+b*ArcCosh[c*x])^n,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && PolynomialQ[Px,x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
+  IntegersQ[m,n]
+
+
+Int[RFx_*ArcSinh[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[ArcSinh[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*ArcCosh[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[ArcCosh[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[RFx*(a+b*ArcSinh[c*x])^n,x],x] /;
+FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(a_+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[RFx*(a+b*ArcCosh[c*x])^n,x],x] /;
+FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*ArcSinh[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcSinh[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*ArcCosh[c_.*x_]^n_.,x_Symbol] :=
+  With[{u=ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p*ArcCosh[c*x]^n,RFx,x]},
+  Int[u,x] /;
+ SumQ[u]] /;
+FreeQ[{c,d1,e1,d2,e2},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcSinh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
+
+
+Int[RFx_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p,RFx*(a+b*ArcCosh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d1,e1,d2,e2},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && 
+  IntegerQ[p-1/2]
+
+
+Int[u_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][u*(a+b*ArcSinh[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[u_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][u*(a+b*ArcCosh[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.1.6 Miscellaneous inverse hyperbolic sine*)
+(**)
+
+
+Int[(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,n},x]
+
+
+Int[(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,n},x]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[Sqrt[a_.+b_.*ArcSinh[c_+d_.*x_^2]],x_Symbol] :=
+  x*Sqrt[a+b*ArcSinh[c+d*x^2]] - 
+  Sqrt[Pi]*x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*FresnelC[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
+    (Sqrt[-(c/b)]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
+  Sqrt[Pi]*x*(Cosh[a/(2*b)]+c*Sinh[a/(2*b)])*FresnelS[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
+    (Sqrt[-(c/b)]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
+
+
+Int[(a_.+b_.*ArcSinh[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcSinh[c+d*x^2])^n - 
+  2*b*n*Sqrt[2*c*d*x^2+d^2*x^4]*(a+b*ArcSinh[c+d*x^2])^(n-1)/(d*x) + 
+  4*b^2*n*(n-1)*Int[(a+b*ArcSinh[c+d*x^2])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1] && RationalQ[n] && n>1
+
+
+Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2]),x_Symbol] :=
+  x*(c*Cosh[a/(2*b)]-Sinh[a/(2*b)])*CoshIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
+    (2*b*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[(1/2)*ArcSinh[c+d*x^2]])) + 
+  x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*SinhIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
+    (2*b*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[(1/2)*ArcSinh[c+d*x^2]])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
+
+
+Int[1/Sqrt[a_.+b_.*ArcSinh[c_+d_.*x_^2]],x_Symbol] :=
+  (c+1)*Sqrt[Pi/2]*x*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Erfi[Sqrt[a+b*ArcSinh[c+d*x^2]]/Sqrt[2*b]]/
+    (2*Sqrt[b]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
+  (c-1)*Sqrt[Pi/2]*x*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Erf[Sqrt[a+b*ArcSinh[c+d*x^2]]/Sqrt[2*b]]/
+    (2*Sqrt[b]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
+
+
+Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2])^(3/2),x_Symbol] :=
+  -Sqrt[2*c*d*x^2+d^2*x^4]/(b*d*x*Sqrt[a+b*ArcSinh[c+d*x^2]]) - 
+  (-c/b)^(3/2)*Sqrt[Pi]*x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*FresnelC[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
+    (Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2]) + 
+  (-c/b)^(3/2)*Sqrt[Pi]*x*(Cosh[a/(2*b)]+c*Sinh[a/(2*b)])*FresnelS[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
+    (Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2]) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
+
+
+Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2])^2,x_Symbol] :=
+  -Sqrt[2*c*d*x^2+d^2*x^4]/(2*b*d*x*(a+b*ArcSinh[c+d*x^2])) + 
+  x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*CoshIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
+    (4*b^2*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
+  x*(c*Cosh[a/(2*b)]-Sinh[a/(2*b)])*SinhIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
+    (4*b^2*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
+
+
+Int[(a_.+b_.*ArcSinh[c_+d_.*x_^2])^n_,x_Symbol] :=
+  -x*(a+b*ArcSinh[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
+  Sqrt[2*c*d*x^2+d^2*x^4]*(a+b*ArcSinh[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) + 
+  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcSinh[c+d*x^2])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2+1] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[Sqrt[a_.+b_.*ArcCosh[1+d_.*x_^2]],x_Symbol] :=
+  2*Sqrt[a+b*ArcCosh[1+d*x^2]]*Sinh[(1/2)*ArcCosh[1+d*x^2]]^2/(d*x) - 
+  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[(1/2)*ArcCosh[1+d*x^2]]*
+    Erfi[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[1+d*x^2]]]/(d*x) + 
+  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[(1/2)*ArcCosh[1+d*x^2]]*
+    Erf[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[Sqrt[a_.+b_.*ArcCosh[-1+d_.*x_^2]],x_Symbol] :=
+  2*Sqrt[a+b*ArcCosh[-1+d*x^2]]*Cosh[(1/2)*ArcCosh[-1+d*x^2]]^2/(d*x) - 
+  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[(1/2)*ArcCosh[-1+d*x^2]]*
+    Erfi[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[-1+d*x^2]]]/(d*x) - 
+  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[(1/2)*ArcCosh[-1+d*x^2]]*
+    Erf[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[-1+d*x^2]]]/(d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[(a_.+b_.*ArcCosh[c_+d_.*x_^2])^n_,x_Symbol] :=
+  x*(a+b*ArcCosh[c+d*x^2])^n - 
+  2*b*n*(2*c*d*x^2+d^2*x^4)*(a+b*ArcCosh[c+d*x^2])^(n-1)/(d*x*Sqrt[-1+c+d*x^2]*Sqrt[1+c+d*x^2]) + 
+  4*b^2*n*(n-1)*Int[(a+b*ArcCosh[c+d*x^2])^(n-2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
+
+
+Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2]),x_Symbol] :=
+  x*Cosh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) - 
+  x*Sinh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2]),x_Symbol] :=
+  -x*Sinh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) + 
+  x*Cosh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/Sqrt[a_.+b_.*ArcCosh[1+d_.*x_^2]],x_Symbol] :=
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) + 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/Sqrt[a_.+b_.*ArcCosh[-1+d_.*x_^2]],x_Symbol] :=
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) - 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2])^(3/2),x_Symbol] :=
+  -Sqrt[d*x^2]*Sqrt[2+d*x^2]/(b*d*x*Sqrt[a+b*ArcCosh[1+d*x^2]]) + 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x)- 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2])^(3/2),x_Symbol] :=
+  -Sqrt[d*x^2]*Sqrt[-2+d*x^2]/(b*d*x*Sqrt[a+b*ArcCosh[-1+d*x^2]]) + 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) + 
+  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2])^2,x_Symbol] :=
+  -Sqrt[d*x^2]*Sqrt[2+d*x^2]/(2*b*d*x*(a+b*ArcCosh[1+d*x^2])) - 
+  x*Sinh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) + 
+  x*Cosh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2])^2,x_Symbol] :=
+  -Sqrt[d*x^2]*Sqrt[-2+d*x^2]/(2*b*d*x*(a+b*ArcCosh[-1+d*x^2])) + 
+  x*Cosh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) - 
+  x*Sinh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[(a_.+b_.*ArcCosh[c_+d_.*x_^2])^n_,x_Symbol] :=
+  -x*(a+b*ArcCosh[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
+  (2*c*x^2 +d*x^4)*(a+b*ArcCosh[c+d*x^2])^(n+1)/(2*b*(n+1)*x*Sqrt[-1+c+d*x^2]*Sqrt[1+c+d*x^2]) + 
+  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcCosh[c+d*x^2])^(n+2),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[ArcSinh[a_.*x_^p_]^n_./x_,x_Symbol] :=
+  1/p*Subst[Int[x^n*Coth[x],x],x,ArcSinh[a*x^p]] /;
+FreeQ[{a,p},x] && PositiveIntegerQ[n]
+
+
+Int[ArcCosh[a_.*x_^p_]^n_./x_,x_Symbol] :=
+  1/p*Subst[Int[x^n*Tanh[x],x],x,ArcCosh[a*x^p]] /;
+FreeQ[{a,p},x] && PositiveIntegerQ[n]
+
+
+Int[u_.*ArcSinh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCsch[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCosh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcSech[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[ArcSinh[Sqrt[-1+b_.*x_^2]]^n_./Sqrt[-1+b_.*x_^2],x_Symbol] :=
+  Sqrt[b*x^2]/(b*x)*Subst[Int[ArcSinh[x]^n/Sqrt[1+x^2],x],x,Sqrt[-1+b*x^2]] /;
+FreeQ[{b,n},x]
+
+
+Int[ArcCosh[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
+  Sqrt[-1+Sqrt[1+b*x^2]]*Sqrt[1+Sqrt[1+b*x^2]]/(b*x)*Subst[Int[ArcCosh[x]^n/(Sqrt[-1+x]*Sqrt[1+x]),x],x,Sqrt[1+b*x^2]] /;
+FreeQ[{b,n},x]
+
+
+Int[f_^(c_.*ArcSinh[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[f^(c*x^n)*Cosh[x],x],x,ArcSinh[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[f_^(c_.*ArcCosh[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[f^(c*x^n)*Sinh[x],x],x,ArcCosh[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
+
+
+Int[x_^m_.*f_^(c_.*ArcSinh[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[(-a/b+Sinh[x]/b)^m*f^(c*x^n)*Cosh[x],x],x,ArcSinh[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[m,n]
+
+
+Int[x_^m_.*f_^(c_.*ArcCosh[a_.+b_.*x_]^n_.),x_Symbol] :=
+  1/b*Subst[Int[(-a/b+Cosh[x]/b)^m*f^(c*x^n)*Sinh[x],x],x,ArcCosh[a+b*x]] /;
+FreeQ[{a,b,c,f},x] && PositiveIntegerQ[m,n]
+
+
+Int[ArcSinh[u_],x_Symbol] :=
+  x*ArcSinh[u] -
+  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1+u^2],x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[ArcCosh[u_],x_Symbol] :=
+  x*ArcCosh[u] - 
+  Int[SimplifyIntegrand[x*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSinh[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcSinh[u])/(d*(m+1)) -
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1+u^2],x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCosh[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCosh[u])/(d*(m+1)) -
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[v_*(a_.+b_.*ArcSinh[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcSinh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1+u^2],x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+Int[v_*(a_.+b_.*ArcCosh[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCosh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+Int[E^(n_.*ArcSinh[u_]), x_Symbol] :=
+  Int[(u+Sqrt[1+u^2])^n,x] /;
+IntegerQ[n] && PolynomialQ[u,x]
+
+
+Int[x_^m_.*E^(n_.*ArcSinh[u_]), x_Symbol] :=
+  Int[x^m*(u+Sqrt[1+u^2])^n,x] /;
+RationalQ[m] && IntegerQ[n] && PolynomialQ[u,x]
+
+
+Int[E^(n_.*ArcCosh[u_]), x_Symbol] :=
+  Int[(u+Sqrt[-1+u]*Sqrt[1+u])^n,x] /;
+IntegerQ[n] && PolynomialQ[u,x]
+
+
+Int[x_^m_.*E^(n_.*ArcCosh[u_]), x_Symbol] :=
+  Int[x^m*(u+Sqrt[-1+u]*Sqrt[1+u])^n,x] /;
+RationalQ[m] && IntegerQ[n] && PolynomialQ[u,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.2.1 u (a+b arctanh(c x))^n*)
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcTanh[c*x])^n -
+  b*c*n*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  x*(a+b*ArcCoth[c*x])^n -
+  b*c*n*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  -(a+b*ArcTanh[c*x])^n*Log[2*d/(d+e*x)]/e +
+  b*c*n/e*Int[(a+b*ArcTanh[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  -(a+b*ArcCoth[c*x])^n*Log[2*d/(d+e*x)]/e +
+  b*c*n/e*Int[(a+b*ArcCoth[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
+
+
+Int[ArcTanh[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
+  -ArcTanh[c*d/e]*Log[d+e*x]/e - PolyLog[2,Simp[c*(d+e*x)/(c*d-e),x]]/(2*e) + PolyLog[2,Simp[c*(d+e*x)/(c*d+e),x]]/(2*e) /;
+FreeQ[{c,d,e},x] && PositiveQ[c*d/e+1] && NegativeQ[c*d/e-1]
+
+
+(* Int[ArcCoth[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
+  z /;
+FreeQ[{c,d,e},x] *)
+
+
+Int[ArcTanh[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
+  1/2*Int[Log[1+c*x]/(d+e*x),x] - 1/2*Int[Log[1-c*x]/(d+e*x),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[ArcCoth[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
+  1/2*Int[Log[1+1/(c*x)]/(d+e*x),x] - 1/2*Int[Log[1-1/(c*x)]/(d+e*x),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[(a_+b_.*ArcTanh[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
+  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcTanh[c*x]/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(a_+b_.*ArcCoth[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
+  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcCoth[c*x]/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  (d+e*x)^(p+1)*(a+b*ArcTanh[c*x])/(e*(p+1)) - 
+  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  (d+e*x)^(p+1)*(a+b*ArcCoth[c*x])/(e*(p+1)) - 
+  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/x_,x_Symbol] :=
+  2*(a+b*ArcTanh[c*x])^n*ArcTanh[1-2/(1-c*x)] -
+  2*b*c*n*Int[(a+b*ArcTanh[c*x])^(n-1)*ArcTanh[1-2/(1-c*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/x_,x_Symbol] :=
+  2*(a+b*ArcCoth[c*x])^n*ArcCoth[1-2/(1-c*x)] -
+  2*b*c*n*Int[(a+b*ArcCoth[c*x])^(n-1)*ArcCoth[1-2/(1-c*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
+
+
+Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcTanh[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  x^(m+1)*(a+b*ArcCoth[c*x])^n/(m+1) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
+
+
+Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
+
+
+Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/e*Int[x^(m-1)*(a+b*ArcTanh[c*x])^n,x] -
+  d/e*Int[x^(m-1)*(a+b*ArcTanh[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
+
+
+Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/e*Int[x^(m-1)*(a+b*ArcCoth[c*x])^n,x] -
+  d/e*Int[x^(m-1)*(a+b*ArcCoth[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^n*Log[2*e*x/(d+e*x)]/d - 
+  b*c*n/d*Int[(a+b*ArcTanh[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^n*Log[2*e*x/(d+e*x)]/d -
+  b*c*n/d*Int[(a+b*ArcCoth[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
+  e/d*Int[x^(m+1)*(a+b*ArcTanh[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
+  e/d*Int[x^(m+1)*(a+b*ArcCoth[c*x])^n/(d+e*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
+
+
+Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
+
+
+Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
+
+
+Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  b*n*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] - 
+  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p>0 && n>1
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  b*n*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
+  x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n/(2*p+1) + 
+  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] - 
+  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p>0 && n>1
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcTanh[c_.*x_])),x_Symbol] :=
+  Log[RemoveContent[a+b*ArcTanh[c*x],x]]/(b*c*d) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCoth[c_.*x_])),x_Symbol] :=
+  Log[RemoveContent[a+b*ArcCoth[c*x],x]]/(b*c*d) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NeQ[n+1]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -2*(a+b*ArcTanh[c*x])*ArcTan[Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) - 
+  I*b*PolyLog[2,-I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) + 
+  I*b*PolyLog[2,I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -2*(a+b*ArcCoth[c*x])*ArcTan[Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) - 
+  I*b*PolyLog[2,-I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) + 
+  I*b*PolyLog[2,I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcTanh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -x*Sqrt[1-1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTanh[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCoth[c*x])^n/Sqrt[1-c^2*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcTanh[c*x])^n/(2*d*(d+e*x^2)) + 
+  (a+b*ArcTanh[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
+  b*c*n/2*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcCoth[c*x])^n/(2*d*(d+e*x^2)) + 
+  (a+b*ArcCoth[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
+  b*c*n/2*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcTanh[c*x])/(d*Sqrt[d+e*x^2]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcCoth[c*x])/(d*Sqrt[d+e*x^2]) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-3/2
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b*n*(a+b*ArcTanh[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcTanh[c*x])^n/(d*Sqrt[d+e*x^2]) +
+  b^2*n*(n-1)*Int[(a+b*ArcTanh[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>1
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
+  -b*n*(a+b*ArcCoth[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
+  x*(a+b*ArcCoth[c*x])^n/(d*Sqrt[d+e*x^2]) +
+  b^2*n*(n-1)*Int[(a+b*ArcCoth[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n-1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] +
+  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n-1)/(4*c*d*(p+1)^2) -
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(2*d*(p+1)) +
+  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] +
+  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) + 
+  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n<-1
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c*Subst[Int[(a+b*x)^n/Cosh[x]^(2*(p+1)),x],x,ArcTanh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  d^(p+1/2)*Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  -(-d)^p/c*Subst[Int[(a+b*x)^n/Sinh[x]^(2*(p+1)),x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && IntegerQ[p]
+
+
+Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  -(-d)^(p+1/2)*x*Sqrt[(c^2*x^2-1)/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n/Sinh[x]^(2*(p+1)),x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p]]
+
+
+Int[ArcTanh[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+c*x]/(d+e*x^2),x] - 1/2*Int[Log[1-c*x]/(d+e*x^2),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[ArcCoth[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+1/(c*x)]/(d+e*x^2),x] - 1/2*Int[Log[1-1/(c*x)]/(d+e*x^2),x] /;
+FreeQ[{c,d,e},x]
+
+
+Int[(a_+b_.*ArcTanh[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
+  a*Int[1/(d+e*x^2),x] + b*Int[ArcTanh[c*x]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(a_+b_.*ArcCoth[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
+  a*Int[1/(d+e*x^2),x] + b*Int[ArcCoth[c*x]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
+
+
+Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^(n+1)/(b*e*(n+1)) + 
+  1/(c*d)*Int[(a+b*ArcTanh[c*x])^n/(1-c*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^(n+1)/(b*e*(n+1)) + 
+  1/(c*d)*Int[(a+b*ArcCoth[c*x])^n/(1-c*x),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
+
+
+Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  x*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  1/(b*c*d*(n+1))*Int[(a+b*ArcTanh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
+
+
+Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  -x*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  1/(b*c*d*(n+1))*Int[(a+b*ArcCoth[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^(n+1)/(b*d*(n+1)) +
+  1/d*Int[(a+b*ArcTanh[c*x])^n/(x*(1+c*x)),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^(n+1)/(b*d*(n+1)) +
+  1/d*Int[(a+b*ArcCoth[c*x])^n/(x*(1+c*x)),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  x^m*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcTanh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
+  x^m*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcCoth[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcTanh[c*x]),x^m/(d+e*x^2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCoth[c*x]),x^m/(d+e*x^2),x],x] /;
+FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(2*e*(p+1)) + 
+  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(2*e*(p+1)) +
+  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
+
+
+Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) +
+  (1+c^2*x^2)*(a+b*ArcTanh[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) +
+  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcTanh[c*x])^(n+2)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
+  x*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) +
+  (1+c^2*x^2)*(a+b*ArcCoth[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) +
+  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcCoth[c*x])^(n+2)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && n!=-2
+
+
+Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) - 
+  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*c^2*d*(p+1)) + 
+  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-5/2
+
+
+Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) - 
+  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*c^2*d*(p+1)) + 
+  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-5/2
+
+
+Int[x_^2*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  -(a+b*ArcTanh[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) + 
+  x*(a+b*ArcTanh[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
+  b*n/(2*c)*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[x_^2*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
+  -(a+b*ArcCoth[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) + 
+  x*(a+b*ArcCoth[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
+  b*n/(2*c)*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2)^2,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) + 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(c^2*d*m) - 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) + 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(c^2*d*m) - 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n-1)/(c*d*m^2) + 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(c^2*d*m) + 
+  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-2),x] - 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n-1)/(c*d*m^2) + 
+  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(c^2*d*m) + 
+  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-2),x] - 
+  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1),x] /;
+FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
+
+
+Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])/(m+2) - 
+  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
+  d/(m+2)*Int[x^m*(a+b*ArcTanh[c*x])/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && NeQ[m+2]
+
+
+Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])/(m+2) - 
+  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
+  d/(m+2)*Int[x^m*(a+b*ArcCoth[c*x])/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && NeQ[m+2]
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] - 
+  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] - 
+  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(c^2*d*m) + 
+  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcTanh[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
+  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  -x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(c^2*d*m) + 
+  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcCoth[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
+  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -2/Sqrt[d]*(a+b*ArcTanh[c*x])*ArcTanh[Sqrt[1-c*x]/Sqrt[1+c*x]] + 
+  b/Sqrt[d]*PolyLog[2,-Sqrt[1-c*x]/Sqrt[1+c*x]] - 
+  b/Sqrt[d]*PolyLog[2,Sqrt[1-c*x]/Sqrt[1+c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -2/Sqrt[d]*(a+b*ArcCoth[c*x])*ArcTanh[Sqrt[1-c*x]/Sqrt[1+c*x]] + 
+  b/Sqrt[d]*PolyLog[2,-Sqrt[1-c*x]/Sqrt[1+c*x]] - 
+  b/Sqrt[d]*PolyLog[2,Sqrt[1-c*x]/Sqrt[1+c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  1/Sqrt[d]*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcTanh[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -c*x*Sqrt[1-1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTanh[c*x])^n/(x*Sqrt[1-c^2*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCoth[c*x])^n/(x*Sqrt[1-c^2*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(d*x) + 
+  b*c*n*Int[(a+b*ArcTanh[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
+  -Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(d*x) + 
+  b*c*n*Int[(a+b*ArcCoth[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
+
+
+Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
+  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
+
+
+Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
+  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(d*(m+1)) - 
+  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
+  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/Sqrt[d+e*x^2],x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] -
+  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
+
+
+Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] -
+  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] + 
+  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
+  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] + 
+  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m/Cosh[x]^(m+2*(p+1)),x],x,ArcTanh[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d])
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  d^(p+1/2)*Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p] || PositiveQ[d]]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  -(-d)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m/Sinh[x]^(m+2*(p+1)),x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && IntegerQ[p]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  -(-d)^(p+1/2)*x*Sqrt[(c^2*x^2-1)/(c^2*x^2)]/(c^m*Sqrt[d+e*x^2])*Subst[Int[(a+b*x)^n*Cosh[x]^m/Sinh[x]^(m+2*(p+1)),x],x,ArcCoth[c*x]] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p]]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*e*(p+1)) - 
+  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*e*(p+1)) - 
+  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcTanh[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Int[ExpandIntegrand[(a+b*ArcCoth[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
+FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcTanh[c*x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x]
+
+
+Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcCoth[c*x],x] /;
+FreeQ[{a,b,c,d,e,m,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[ArcTanh[u_]*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[1-u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
+
+
+Int[ArcCoth[u_]*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
+
+
+Int[ArcTanh[u_]*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[1+u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[1-u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
+
+
+Int[ArcCoth[u_]*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] -
+  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
+  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1+c*x))^2]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
+  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1+c*x))^2]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcTanh[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
+  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1-c*x))^2]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcCoth[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
+  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1-c*x))^2]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcTanh[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
+  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  -(a+b*ArcCoth[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
+  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
+  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
+  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
+
+
+Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCoth[c_.*x_])*(a_.+b_.*ArcTanh[c_.*x_])),x_Symbol] :=
+  (-Log[a+b*ArcCoth[c*x]]+Log[a+b*ArcTanh[c*x]])/(b^2*c*d*(ArcCoth[c*x]-ArcTanh[c*x])) /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
+
+
+Int[(a_.+b_.*ArcCoth[c_.*x_])^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcCoth[c*x])^(m+1)*(a+b*ArcTanh[c*x])^n/(b*c*d*(m+1)) -
+  n/(m+1)*Int[(a+b*ArcCoth[c*x])^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n] && 0<n<=m
+
+
+Int[(a_.+b_.*ArcTanh[c_.*x_])^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
+  (a+b*ArcTanh[c*x])^(m+1)*(a+b*ArcCoth[c*x])^n/(b*c*d*(m+1)) -
+  n/(m+1)*Int[(a+b*ArcTanh[c*x])^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2),x] /;
+FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n] && 0<n<m
+
+
+Int[ArcTanh[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  1/2*Int[Log[1+a*x]/(c+d*x^n),x] -
+  1/2*Int[Log[1-a*x]/(c+d*x^n),x] /;
+FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[a^2*c+d]]
+
+
+Int[ArcCoth[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  1/2*Int[Log[1+1/(a*x)]/(c+d*x^n),x] -
+  1/2*Int[Log[1-1/(a*x)]/(c+d*x^n),x] /;
+FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[a^2*c+d]]
+
+
+Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  x*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x]) - 
+  2*e*g*Int[x^2*(a+b*ArcTanh[c*x])/(f+g*x^2),x] - 
+  b*c*Int[x*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x]
+
+
+Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  x*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x]) - 
+  2*e*g*Int[x^2*(a+b*ArcCoth[c*x])/(f+g*x^2),x] - 
+  b*c*Int[x*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x])/(m+1) - 
+  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcTanh[c*x])/(f+g*x^2),x] - 
+  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x])/(m+1) - 
+  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcCoth[c*x])/(f+g*x^2),x] - 
+  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
+  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
+  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(a+b*ArcTanh[c*x]),x]},  
+  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
+
+
+Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(a+b*ArcCoth[c*x]),x]},  
+  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
+FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
+
+
+Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_])^2,x_Symbol] :=
+  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x])^2/(2*g) - 
+  e*x^2*(a+b*ArcTanh[c*x])^2/2 + 
+  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x]),x] + 
+  b*c*e*Int[x^2*(a+b*ArcTanh[c*x])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*f+g]
+
+
+Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_])^2,x_Symbol] :=
+  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x])^2/(2*g) - 
+  e*x^2*(a+b*ArcCoth[c*x])^2/2 + 
+  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x]),x] + 
+  b*c*e*Int[x^2*(a+b*ArcCoth[c*x])/(1-c^2*x^2),x] /;
+FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*f+g]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.2.2 Exponentials of inverse hyperbolic tangent*)
+
+
+Int[E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[((1+a*x)^((n+1)/2)/((1-a*x)^((n-1)/2)*Sqrt[1-a^2*x^2])),x] /;
+FreeQ[a,x] && OddQ[n]
+
+
+Int[x_^m_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[x^m*((1+a*x)^((n+1)/2)/((1-a*x)^((n-1)/2)*Sqrt[1-a^2*x^2])),x] /;
+FreeQ[{a,m},x] && OddQ[n]
+
+
+Int[E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
+FreeQ[{a,n},x] && Not[OddQ[n]]
+
+
+Int[x_^m_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[x^m*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
+FreeQ[{a,m,n},x] && Not[OddQ[n]]
+
+
+Int[(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^n*Int[(c+d*x)^(p-n)*(1-a^2*x^2)^(n/2),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[2*p]
+
+
+Int[(e_.+f_.*x_)^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^n*Int[(e+f*x)^m*(c+d*x)^(p-n)*(1-a^2*x^2)^(n/2),x] /;
+FreeQ[{a,c,d,e,f,m,p},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1]) && IntegerQ[2*p]
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1+d*x/c)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[u*(c+d*x)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  d^p*Int[u*(1+c*x/d)^p*E^(n*ArcTanh[a*x])/x^p,x] /;
+FreeQ[{a,c,d,n},x] && EqQ[c^2-a^2*d^2] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  (-1)^(n/2)*c^p*Int[u*(1+d/(c*x))^p*(1+1/(a*x))^(n/2)/(1-1/(a*x))^(n/2),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[n/2] && PositiveQ[c]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  Int[u*(c+d/x)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[n/2] && Not[PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  x^p*(c+d/x)^p/(1+c*x/d)^p*Int[u*(1+c*x/d)^p*E^(n*ArcTanh[a*x])/x^p,x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]]
+
+
+Int[E^(n_*ArcTanh[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  (n-a*x)*E^(n*ArcTanh[a*x])/(a*c*(n^2-1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  (n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*c*(n^2-4*(p+1)^2)) - 
+  2*(p+1)*(2*p+3)/(c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && NeQ[n^2-4*(p+1)^2] && IntegerQ[2*p]
+
+
+Int[E^(n_.*ArcTanh[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
+  E^(n*ArcTanh[a*x])/(a*c*n) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[(1-a^2*x^2)^(p-n/2)*(1+a*x)^n,x] /;
+FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && IntegerQ[p] && PositiveIntegerQ[(n+1)/2] && Not[IntegerQ[p-n/2]]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[(1-a^2*x^2)^(p+n/2)/(1-a*x)^n,x] /;
+FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && IntegerQ[p] && NegativeIntegerQ[(n-1)/2] && Not[IntegerQ[p-n/2]]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^(n/2)*Int[(c+d*x^2)^(p-n/2)*(1+a*x)^n,x] /;
+FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[n/2]
+
+
+Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  1/c^(n/2)*Int[(c+d*x^2)^(p+n/2)/(1-a*x)^n,x] /;
+FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[n/2]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[x_*E^(n_*ArcTanh[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  (1-a*n*x)*E^(n*ArcTanh[a*x])/(d*(n^2-1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
+
+
+Int[x_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  (c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(2*d*(p+1)) - a*c*n/(2*d*(p+1))*Int[(c+d*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && IntegerQ[2*p]
+
+
+(* Int[x_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  -(2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(d*(n^2-4*(p+1)^2)) - 
+  n*(2*p+3)/(a*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<=-1 && NeQ[n^2-4*(p+1)^2] && Not[IntegerQ[n]] *)
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  (1-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*d*n*(n^2-1)) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && EqQ[n^2+2*(p+1)] && Not[IntegerQ[n]]
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  -(n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*d*(n^2-4*(p+1)^2)) + 
+  (n^2+2*(p+1))/(d*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && NeQ[n^2-4*(p+1)^2] && 
+  IntegerQ[2*p]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[x^m*(1-a^2*x^2)^(p-n/2)*(1+a*x)^n,x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c]) && PositiveIntegerQ[(n+1)/2] && Not[IntegerQ[p-n/2]]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[x^m*(1-a^2*x^2)^(p+n/2)/(1-a*x)^n,x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c]) && NegativeIntegerQ[(n-1)/2] && Not[IntegerQ[p-n/2]]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[x^m*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^(n/2)*Int[x^m*(c+d*x^2)^(p-n/2)*(1+a*x)^n,x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[n/2]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  1/c^(n/2)*Int[x^m*(c+d*x^2)^(p+n/2)/(1-a*x)^n,x] /;
+FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[n/2]
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[x^m*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[n/2]]
+
+
+Int[u_*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[u_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/((1-a*x)^FracPart[p]*(1+a*x)^FracPart[p])*
+    Int[u*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && IntegerQ[n/2]
+
+
+Int[u_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[u*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[n/2]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  d^p*Int[u/x^(2*p)*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[c+a^2*d] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  c^p*Int[u*(1-1/(a*x))^p*(1+1/(a*x))^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && IntegerQ[n/2] && PositiveQ[c]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
+  x^(2*p)*(c+d/x^2)^p/((1-a*x)^p*(1+a*x)^p)*Int[u/x^(2*p)*(1-a*x)^p*(1+a*x)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && IntegerQ[n/2] && Not[PositiveQ[c]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
+  x^(2*p)*(c+d/x^2)^p/(1+c*x^2/d)^p*Int[u/x^(2*p)*(1+c*x^2/d)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && Not[IntegerQ[n/2]]
+
+
+Int[E^(n_.*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  Int[(1+a*c+b*c*x)^(n/2)/(1-a*c-b*c*x)^(n/2),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[x_^m_*E^(n_*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  4/(n*b^(m+1)*c^(m+1))*
+    Subst[Int[x^(2/n)*(-1-a*c+(1-a*c)*x^(2/n))^m/(1+x^(2/n))^(m+2),x],x,(1+c*(a+b*x))^(n/2)/(1-c*(a+b*x))^(n/2)] /;
+FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[n] && -1<n<1
+
+
+Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  Int[(d+e*x)^m*(1+a*c+b*c*x)^(n/2)/(1-a*c-b*c*x)^(n/2),x] /;
+FreeQ[{a,b,c,d,e,m,n},x]
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTanh[a_+b_.*x_]),x_Symbol] :=
+  (c/(1-a^2))^p*Int[u*(1-a-b*x)^(p-n/2)*(1+a+b*x)^(p+n/2),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && (IntegerQ[p] || PositiveQ[c/(1-a^2)])
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTanh[a_+b_.*x_]),x_Symbol] :=
+  (c+d*x+e*x^2)^p/(1-a^2-2*a*b*x-b^2*x^2)^p*Int[u*(1-a^2-2*a*b*x-b^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && Not[IntegerQ[p] || PositiveQ[c/(1-a^2)]]
+
+
+Int[u_.*E^(n_.*ArcTanh[c_./(a_.+b_.*x_)]),x_Symbol] :=
+  Int[u*E^(n*ArcCoth[a/c+b*x/c]),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[u_.*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
+  (-1)^(n/2)*Int[u*E^(n*ArcTanh[a*x]),x] /;
+FreeQ[a,x] && IntegerQ[n/2]
+
+
+Int[E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1+x/a)^((n+1)/2)/(x^2*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
+FreeQ[a,x] && OddQ[n]
+
+
+Int[x_^m_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1+x/a)^((n+1)/2)/(x^(m+2)*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
+FreeQ[a,x] && OddQ[n] && IntegerQ[m]
+
+
+Int[E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1+x/a)^(n/2)/(x^2*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,n},x] && Not[IntegerQ[n]]
+
+
+Int[x_^m_.*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
+  -Subst[Int[(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
+
+
+Int[x_^m_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -x^m*(1/x)^m*Subst[Int[(1+x/a)^((n+1)/2)/(x^(m+2)*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
+FreeQ[{a,m},x] && OddQ[n] && Not[IntegerQ[m]]
+
+
+Int[x_^m_*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
+  -x^m*(1/x)^m*Subst[Int[(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
+
+
+Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (1+a*x)*(c+d*x)^p*E^(n*ArcCoth[a*x])/(a*(p+1)) /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a*c+d] && EqQ[p-n/2] && Not[IntegerQ[n/2]]
+
+
+(* Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(-a)^n*c^n*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(p+2),x],x,1/x] /;
+FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[p] *)
+
+
+(* Int[x_^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(-a)^n*c^n*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+p+2),x],x,1/x] /;
+FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[m] && IntegerQ[p] *)
+
+
+(* Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(-a)^n*c^n*Sqrt[c+d*x]/(Sqrt[x]*Sqrt[d+c/x])*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(p+2),x],x,1/x] /;
+FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[p-1/2] *)
+
+
+(* Int[x_^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(-a)^n*c^n*Sqrt[c+d*x]/(Sqrt[x]*Sqrt[d+c/x])*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+p+2),x],x,1/x] /;
+FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[m] && IntegerQ[p-1/2] *)
+
+
+Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  d^p*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[n/2]] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (c+d*x)^p/(x^p*(1+c/(d*x))^p)*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[n/2]] && Not[IntegerQ[p]]
+
+
+Int[(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^n*Subst[Int[(c+d*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^2,x],x,1/x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c+a*d] && IntegerQ[(n-1)/2] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1]) && IntegerQ[2*p]
+
+
+Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^n*Subst[Int[(c+d*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,p},x] && EqQ[c+a*d] && IntegerQ[(n-1)/2] && IntegerQ[m] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1] || -5<m<-1) && 
+  IntegerQ[2*p]
+
+
+Int[(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^2*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c])
+
+
+Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[m]
+
+
+Int[x_^m_*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*x^m*(1/x)^m*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegerQ[m]]
+
+
+Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (c+d/x)^p/(1+d/(c*x))^p*Int[u*(1+d/(c*x))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[E^(n_.*ArcCoth[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
+  E^(n*ArcCoth[a*x])/(a*c*n) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]]
+
+
+Int[E^(n_*ArcCoth[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  (n-a*x)*E^(n*ArcCoth[a*x])/(a*c*(n^2-1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
+
+
+Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a*c*(n^2-4*(p+1)^2)) - 
+  2*(p+1)*(2*p+3)/(c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<-1 && p!=-3/2 && NeQ[n^2-4*(p+1)^2] && 
+  (IntegerQ[p] || Not[IntegerQ[n]])
+
+
+Int[x_*E^(n_*ArcCoth[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
+  -(1-a*n*x)*E^(n*ArcCoth[a*x])/(a^2*c*(n^2-1)*Sqrt[c+d*x^2]) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
+
+
+Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^2*c*(n^2-4*(p+1)^2)) - 
+  n*(2*p+3)/(a*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<=-1 && p!=-3/2 && NeQ[n^2-4*(p+1)^2] && 
+  (IntegerQ[p] || Not[IntegerQ[n]])
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^3*c*n^2*(n^2-1)) /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && EqQ[n^2+2*(p+1)] && NeQ[n^2-1]
+
+
+Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^3*c*(n^2-4*(p+1)^2)) - 
+  (n^2+2*(p+1))/(a^2*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<=-1 && NeQ[n^2+2*(p+1)] && 
+  NeQ[n^2-4*(p+1)^2] && (IntegerQ[p] || Not[IntegerQ[n]])
+
+
+Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -(-c)^p/a^(m+1)*Subst[Int[E^(n*x)*Coth[x]^(m+2*(p+1))/Cosh[x]^(2*(p+1)),x],x,ArcCoth[a*x]] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && IntegerQ[m] && RationalQ[p] && 3<=m<=-2(p+1) && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  d^p*Int[u*x^(2*p)*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && IntegerQ[p]
+
+
+Int[u_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  (c+d*x^2)^p/(x^(2*p)*(1-1/(a^2*x^2))^p)*Int[u*x^(2*p)*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && Not[IntegerQ[p]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  c^p/a^(2*p)*Int[u/x^(2*p)*(-1+a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegersQ[2*p,p+n/2]
+
+
+Int[(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^2,x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]]
+
+
+Int[x_^m_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]] && 
+  IntegerQ[m]
+
+
+Int[x_^m_*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  -c^p*x^m*(1/x)^m*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,d,m,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]] && 
+  Not[IntegerQ[m]]
+
+
+Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
+  c^IntPart[p]*(c+d/x^2)^FracPart[p]/(1-1/(a^2*x^2))^FracPart[p]*Int[u*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
+
+
+Int[u_.*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (-1)^(n/2)*Int[u*E^(n*ArcTanh[c*(a+b*x)]),x] /;
+FreeQ[{a,b,c},x] && IntegerQ[n/2]
+
+
+Int[E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (c*(a+b*x))^(n/2)*(1+1/(c*(a+b*x)))^(n/2)/(1+a*c+b*c*x)^(n/2)*Int[(1+a*c+b*c*x)^(n/2)/(-1+a*c+b*c*x)^(n/2),x] /;
+FreeQ[{a,b,c,n},x] && Not[IntegerQ[n/2]]
+
+
+Int[x_^m_*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  -4/(n*b^(m+1)*c^(m+1))*
+    Subst[Int[x^(2/n)*(1+a*c+(1-a*c)*x^(2/n))^m/(-1+x^(2/n))^(m+2),x],x,(1+1/(c*(a+b*x)))^(n/2)/(1-1/(c*(a+b*x)))^(n/2)] /;
+FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[n] && -1<n<1
+
+
+Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
+  (c*(a+b*x))^(n/2)*(1+1/(c*(a+b*x)))^(n/2)/(1+a*c+b*c*x)^(n/2)*Int[(d+e*x)^m*(1+a*c+b*c*x)^(n/2)/(-1+a*c+b*c*x)^(n/2),x] /;
+FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[n/2]]
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCoth[a_+b_.*x_]),x_Symbol] :=
+  (c/(1-a^2))^p*((a+b*x)/(1+a+b*x))^(n/2)*((1+a+b*x)/(a+b*x))^(n/2)*((1-a-b*x)^(n/2)/(-1+a+b*x)^(n/2))*
+    Int[u*(1-a-b*x)^(p-n/2)*(1+a+b*x)^(p+n/2),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && (IntegerQ[p] || PositiveQ[c/(1-a^2)])
+
+
+Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCoth[a_+b_.*x_]),x_Symbol] :=
+  (c+d*x+e*x^2)^p/(1-a^2-2*a*b*x-b^2*x^2)^p*Int[u*(1-a^2-2*a*b*x-b^2*x^2)^p*E^(n*ArcCoth[a*x]),x] /;
+FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && 
+  Not[IntegerQ[p] || PositiveQ[c/(1-a^2)]]
+
+
+Int[u_.*E^(n_.*ArcCoth[c_./(a_.+b_.*x_)]),x_Symbol] :=
+  Int[u*E^(n*ArcTanh[a/c+b*x/c]),x] /;
+FreeQ[{a,b,c,n},x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.2.3 Miscellaneous inverse hyperbolic tangent*)
+(**)
+
+
+Int[(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
+
+
+Int[(a_.+b_.*ArcTanh[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcTanh[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(a_.+b_.*ArcCoth[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(a+b*ArcCoth[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
+
+
+Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(e+f*x)^m*(a+b*ArcTanh[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_,x_Symbol] :=
+  Defer[Int][(e+f*x)^m*(a+b*ArcCoth[c+d*x])^n,x] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
+  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
+
+
+Int[ArcTanh[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  1/2*Int[Log[1+a+b*x]/(c+d*x^n),x] -
+  1/2*Int[Log[1-a-b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[n]
+
+
+Int[ArcCoth[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
+  1/2*Int[Log[(1+a+b*x)/(a+b*x)]/(c+d*x^n),x] -
+  1/2*Int[Log[(-1+a+b*x)/(a+b*x)]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[n]
+
+
+Int[ArcTanh[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
+  Defer[Int][ArcTanh[a+b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
+
+
+Int[ArcCoth[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
+  Defer[Int][ArcCoth[a+b*x]/(c+d*x^n),x] /;
+FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
+
+
+Int[ArcTanh[a_+b_.*x_^n_],x_Symbol] :=
+  x*ArcTanh[a+b*x^n] -
+  b*n*Int[x^n/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCoth[a_+b_.*x_^n_],x_Symbol] :=
+  x*ArcCoth[a+b*x^n] -
+  b*n*Int[x^n/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcTanh[a_.+b_.*x_^n_.]/x_,x_Symbol] :=
+  1/2*Int[Log[1+a+b*x^n]/x,x] -
+  1/2*Int[Log[1-a-b*x^n]/x,x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCoth[a_.+b_.*x_^n_.]/x_,x_Symbol] :=
+  1/2*Int[Log[1+1/(a+b*x^n)]/x,x] -
+  1/2*Int[Log[1-1/(a+b*x^n)]/x,x] /;
+FreeQ[{a,b,n},x]
+
+
+Int[x_^m_.*ArcTanh[a_+b_.*x_^n_],x_Symbol] :=
+  x^(m+1)*ArcTanh[a+b*x^n]/(m+1) - 
+  b*n/(m+1)*Int[x^(m+n)/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
+
+
+Int[x_^m_.*ArcCoth[a_+b_.*x_^n_],x_Symbol] :=
+  x^(m+1)*ArcCoth[a+b*x^n]/(m+1) - 
+  b*n/(m+1)*Int[x^(m+n)/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
+FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
+
+
+Int[ArcTanh[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  1/2*Int[Log[1+a+b*f^(c+d*x)],x] - 
+  1/2*Int[Log[1-a-b*f^(c+d*x)],x] /;
+FreeQ[{a,b,c,d,f},x] 
+
+
+Int[ArcCoth[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  1/2*Int[Log[1+1/(a+b*f^(c+d*x))],x] - 
+  1/2*Int[Log[1-1/(a+b*f^(c+d*x))],x] /;
+FreeQ[{a,b,c,d,f},x] 
+
+
+Int[x_^m_.*ArcTanh[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  1/2*Int[x^m*Log[1+a+b*f^(c+d*x)],x] - 
+  1/2*Int[x^m*Log[1-a-b*f^(c+d*x)],x] /;
+FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
+
+
+Int[x_^m_.*ArcCoth[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
+  1/2*Int[x^m*Log[1+1/(a+b*f^(c+d*x))],x] - 
+  1/2*Int[x^m*Log[1-1/(a+b*f^(c+d*x))],x] /;
+FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
+
+
+Int[u_.*ArcTanh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCoth[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCoth[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcTanh[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[1/(Sqrt[a_.+b_.*x_^2]*ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
+  1/c*Log[ArcTanh[c*x/Sqrt[a+b*x^2]]] /;
+FreeQ[{a,b,c},x] && EqQ[b-c^2]
+
+
+Int[1/(Sqrt[a_.+b_.*x_^2]*ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
+  -1/c*Log[ArcCoth[c*x/Sqrt[a+b*x^2]]] /;
+FreeQ[{a,b,c},x] && EqQ[b-c^2]
+
+
+Int[ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
+  ArcTanh[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
+FreeQ[{a,b,c,m},x] && EqQ[b-c^2] && NeQ[m+1]
+
+
+Int[ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
+  -ArcCoth[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
+FreeQ[{a,b,c,m},x] && EqQ[b-c^2] && NeQ[m+1]
+
+
+Int[ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcTanh[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b-c^2] && EqQ[b*d-a*e]
+
+
+Int[ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
+  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcCoth[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
+FreeQ[{a,b,c,d,e,m},x] && EqQ[b-c^2] && EqQ[b*d-a*e]
+
+
+Int[(c_.+d_.*x_^2)^n_*ArcTanh[a_.*x_],x_Symbol] :=
+  With[{u=IntHide[(c+d*x^2)^n,x]},  
+  Dist[ArcTanh[a*x],u,x] - 
+  a*Int[Dist[1/(1-a^2*x^2),u,x],x]] /;
+FreeQ[{a,c,d},x] && IntegerQ[2*n] && n<=-1
+
+
+Int[(c_.+d_.*x_^2)^n_*ArcCoth[a_.*x_],x_Symbol] :=
+  With[{u=IntHide[(c+d*x^2)^n,x]},  
+  Dist[ArcCoth[a*x],u,x] - 
+  a*Int[Dist[1/(1-a^2*x^2),u,x],x]] /;
+FreeQ[{a,c,d},x] && IntegerQ[2*n] && n<=-1
+
+
+If[ShowSteps,
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  ShowStep["","Int[f[x,ArcTanh[a+b*x]]/(1-(a+b*x)^2),x]",
+		   "Subst[Int[f[-a/b+Tanh[x]/b,x],x],x,ArcTanh[a+b*x]]/b",Hold[
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sech[x]^(2*(n+1)),x],x], x, tmp]]] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcTanh && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
+SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sech[x]^(2*(n+1)),x],x], x, tmp] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcTanh && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
+QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
+
+
+If[ShowSteps,
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  ShowStep["","Int[f[x,ArcCoth[a+b*x]]/(1-(a+b*x)^2),x]",
+		   "Subst[Int[f[-a/b+Coth[x]/b,x],x],x,ArcCoth[a+b*x]]/b",Hold[
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*(-Csch[x]^2)^(n+1),x],x], x, tmp]]] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcCoth && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
+SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
+
+Int[u_*v_^n_.,x_Symbol] :=
+  With[{tmp=InverseFunctionOfLinear[u,x]},
+  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
+	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*(-Csch[x]^2)^(n+1),x],x], x, tmp] /;
+ Not[FalseQ[tmp]] && Head[tmp]===ArcCoth && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
+QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
+
+
+Int[ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Tanh[a+b*x]] + 
+  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Tanh[a+b*x]] + 
+  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Coth[a+b*x]] + 
+  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Coth[a+b*x]] + 
+  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Tanh[a+b*x]] + 
+  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
+  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Tanh[a+b*x]] + 
+  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
+  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Coth[a+b*x]] + 
+  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
+  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Coth[a+b*x]] + 
+  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
+  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
+  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
+  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
+  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
+  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Coth[a+b*x]]/(f*(m+1)) + 
+  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
+  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
+
+
+Int[ArcTanh[Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[Tan[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCoth[Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[Tan[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcTanh[Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[Cot[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCoth[Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[Cot[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[Tan[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[Tan[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[Cot[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[Cot[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
+FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
+
+
+Int[ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Tan[a+b*x]] + 
+  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Tan[a+b*x]] + 
+  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Cot[a+b*x]] + 
+  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Cot[a+b*x]] + 
+  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Tan[a+b*x]] + 
+  I*b*(1-c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
+  I*b*(1+c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Tan[a+b*x]] + 
+  I*b*(1-c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
+  I*b*(1+c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2-1]
+
+
+Int[ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcTanh[c+d*Cot[a+b*x]] - 
+  I*b*(1-c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
+  I*b*(1+c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2-1]
+
+
+Int[ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  x*ArcCoth[c+d*Cot[a+b*x]] - 
+  I*b*(1-c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
+  I*b*(1+c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Cot[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Cot[a+b*x]]/(f*(m+1)) + 
+  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  I*b*(1-c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
+  I*b*(1+c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Tan[a+b*x]]/(f*(m+1)) + 
+  I*b*(1-c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
+  I*b*(1+c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcTanh[c+d*Cot[a+b*x]]/(f*(m+1)) - 
+  I*b*(1-c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
+  I*b*(1+c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2-1]
+
+
+Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
+  (e+f*x)^(m+1)*ArcCoth[c+d*Cot[a+b*x]]/(f*(m+1)) - 
+  I*b*(1-c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
+  I*b*(1+c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
+FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2-1]
+
+
+Int[ArcTanh[u_],x_Symbol] :=
+  x*ArcTanh[u] - 
+  Int[SimplifyIntegrand[x*D[u,x]/(1-u^2),x],x] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[ArcCoth[u_],x_Symbol] :=
+  x*ArcCoth[u] - 
+  Int[SimplifyIntegrand[x*D[u,x]/(1-u^2),x],x] /;
+InverseFunctionFreeQ[u,x]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcTanh[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcTanh[u])/(d*(m+1)) - 
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1-u^2),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCoth[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCoth[u])/(d*(m+1)) - 
+  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1-u^2),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
+
+
+Int[v_*(a_.+b_.*ArcTanh[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcTanh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1-u^2),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcTanh[u]),x]]
+
+
+Int[v_*(a_.+b_.*ArcCoth[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCoth[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1-u^2),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcCoth[u]),x]]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*7.3.1 Miscellaneous inverse hyperbolic secant*)
+
+
+Int[ArcSech[c_.*x_],x_Symbol] :=
+  x*ArcSech[c*x] + Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[1/(Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[c,x]
+
+
+Int[ArcCsch[c_.*x_],x_Symbol] :=
+  x*ArcCsch[c*x] + 1/c*Int[1/(x*Sqrt[1+1/(c^2*x^2)]),x] /;
+FreeQ[c,x]
+
+
+Int[(a_.+b_.*ArcSech[c_.*x_])^n_,x_Symbol] :=
+  -1/c*Subst[Int[(a+b*x)^n*Sech[x]*Tanh[x],x],x,ArcSech[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcCsch[c_.*x_])^n_,x_Symbol] :=
+  -1/c*Subst[Int[(a+b*x)^n*Csch[x]*Coth[x],x],x,ArcCsch[c*x]] /;
+FreeQ[{a,b,c,n},x]
+
+
+Int[(a_.+b_.*ArcSech[c_.*x_])/x_,x_Symbol] :=
+  -Subst[Int[(a+b*ArcCosh[x/c])/x,x],x,1/x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[(a_.+b_.*ArcCsch[c_.*x_])/x_,x_Symbol] :=
+  -Subst[Int[(a+b*ArcSinh[x/c])/x,x],x,1/x] /;
+FreeQ[{a,b,c},x]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(a+b*ArcSech[c*x])/(m+1) + 
+  b*Sqrt[1+c*x]/(m+1)*Sqrt[1/(1+c*x)]*Int[x^m/(Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
+  x^(m+1)*(a+b*ArcCsch[c*x])/(m+1) + 
+  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1+1/(c^2*x^2)],x] /;
+FreeQ[{a,b,c,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_])^n_,x_Symbol] :=
+  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Sech[x]^(m+1)*Tanh[x],x],x,ArcSech[c*x]] /;
+FreeQ[{a,b,c,n},x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_])^n_,x_Symbol] :=
+  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Csch[x]^(m+1)*Coth[x],x],x,ArcCsch[c*x]] /;
+FreeQ[{a,b,c,n},x] && IntegerQ[m]
+
+
+Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*ArcSech[c*x])^n,x] /;
+FreeQ[{a,b,c,m,n},x]
+
+
+Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(a+b*ArcCsch[c*x])^n,x] /;
+FreeQ[{a,b,c,m,n},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcSech[c*x]),u,x] + b*Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[SimplifyIntegrand[u/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcCsch[c*x]),u,x] - b*c*x/Sqrt[-c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[-1-c^2*x^2]),x],x]] /;
+FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcSech[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][(d+e*x^2)^p*(a+b*ArcCsch[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,n,p},x]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcSech[c*x])/(2*e*(p+1)) + 
+  b*Sqrt[1+c*x]/(2*e*(p+1))*Sqrt[1/(1+c*x)]*Int[(d+e*x^2)^(p+1)/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
+  (d+e*x^2)^(p+1)*(a+b*ArcCsch[c*x])/(2*e*(p+1)) - 
+  b*c*x/(2*e*(p+1)*Sqrt[-c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[-1-c^2*x^2]),x] /;
+FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcSech[c*x]),u,x] + b*Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[SimplifyIntegrand[u/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
+  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
+  Dist[(a+b*ArcCsch[c*x]),u,x] - b*c*x/Sqrt[-c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[-1-c^2*x^2]),x],x]] /;
+FreeQ[{a,b,c,d,e,m,p},x] && (
+  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
+  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
+  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
+FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcSech[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
+  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCsch[c*x])^n,x] /;
+FreeQ[{a,b,c,d,e,m,n,p},x]
+
+
+Int[ArcSech[a_+b_.*x_],x_Symbol] :=
+  (a+b*x)*ArcSech[a+b*x]/b + 
+  Int[Sqrt[(1-a-b*x)/(1+a+b*x)]/(1-a-b*x),x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCsch[a_+b_.*x_],x_Symbol] :=
+  (a+b*x)*ArcCsch[a+b*x]/b + 
+  Int[1/((a+b*x)*Sqrt[1+1/(a+b*x)^2]),x] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcSech[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b*Subst[Int[x^n*Sech[x]*Tanh[x],x],x,ArcSech[a+b*x]] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcCsch[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b*Subst[Int[x^n*Csch[x]*Coth[x],x],x,ArcCsch[a+b*x]] /;
+FreeQ[{a,b,n},x]
+
+
+Int[ArcSech[a_+b_.*x_]/x_,x_Symbol] :=
+  -ArcSech[a+b*x]*Log[1+E^(-2*ArcSech[a+b*x])] + 
+  ArcSech[a+b*x]*Log[1-(1-Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] + 
+  ArcSech[a+b*x]*Log[1-(1+Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] + 
+  1/2*PolyLog[2,-E^(-2*ArcSech[a+b*x])] - 
+  PolyLog[2,(1-Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] - 
+  PolyLog[2,(1+Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] /;
+FreeQ[{a,b},x]
+
+
+Int[ArcCsch[a_+b_.*x_]/x_,x_Symbol] :=
+  -ArcCsch[a+b*x]^2 - 
+  ArcCsch[a+b*x]*Log[1-E^(-2*ArcCsch[a+b*x])] + 
+  ArcCsch[a+b*x]*Log[1+(1-Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
+  ArcCsch[a+b*x]*Log[1+(1+Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
+  1/2*PolyLog[2,E^(-2*ArcCsch[a+b*x])] + 
+  PolyLog[2,-(1-Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
+  PolyLog[2,-(1+Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*ArcSech[a_+b_.*x_],x_Symbol] :=
+  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcSech[a+b*x]/(b^(m+1)*(m+1)) + 
+  1/(b^(m+1)*(m+1))*Subst[Int[((-a*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[-1+x]*Sqrt[1+x]),x],x,1/(a+b*x)] /;
+FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
+
+
+Int[x_^m_.*ArcCsch[a_+b_.*x_],x_Symbol] :=
+  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcCsch[a+b*x]/(b^(m+1)*(m+1)) + 
+  1/(b^(m+1)*(m+1))*Subst[Int[((-a*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1+x^2]),x],x,1/(a+b*x)] /;
+FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
+
+
+Int[x_^m_.*ArcSech[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b^(m+1)*Subst[Int[x^n*(-a+Sech[x])^m*Sech[x]*Tanh[x],x],x,ArcSech[a+b*x]] /;
+FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*ArcCsch[a_+b_.*x_]^n_,x_Symbol] :=
+  -1/b^(m+1)*Subst[Int[x^n*(-a+Csch[x])^m*Csch[x]*Coth[x],x],x,ArcCsch[a+b*x]] /;
+FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
+
+
+Int[u_.*ArcSech[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcCosh[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[u_.*ArcCsch[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
+  Int[u*ArcSinh[a/c+b*x^n/c]^m,x] /;
+FreeQ[{a,b,c,n,m},x]
+
+
+Int[E^ArcSech[a_.*x_], x_Symbol] :=
+  x*E^ArcSech[a*x] + Log[x]/a + 1/a*Int[1/(x*(1-a*x))*Sqrt[(1-a*x)/(1+a*x)],x] /;
+FreeQ[a,x]
+
+
+Int[E^ArcSech[a_.*x_^p_], x_Symbol] :=
+  x*E^ArcSech[a*x^p] + 
+  p/a*Int[1/x^p,x] + 
+  p*Sqrt[1+a*x^p]/a*Sqrt[1/(1+a*x^p)]*Int[1/(x^p*Sqrt[1+a*x^p]*Sqrt[1-a*x^p]),x] /;
+FreeQ[{a,p},x]
+
+
+Int[E^ArcCsch[a_.*x_^p_.], x_Symbol] :=
+  1/a*Int[1/x^p,x] + Int[Sqrt[1+1/(a^2*x^(2*p))],x] /;
+FreeQ[{a,p},x]
+
+
+Int[E^(n_.*ArcSech[u_]), x_Symbol] :=
+  Int[(1/u + Sqrt[(1-u)/(1+u)] + 1/u*Sqrt[(1-u)/(1+u)])^n,x] /;
+IntegerQ[n]
+
+
+Int[E^(n_.*ArcCsch[u_]), x_Symbol] :=
+  Int[(1/u + Sqrt[1+1/u^2])^n,x] /;
+IntegerQ[n]
+
+
+Int[E^ArcSech[a_.*x_^p_.]/x_, x_Symbol] :=
+  -1/(a*p*x^p) + 
+  Sqrt[1+a*x^p]/a*Sqrt[1/(1+a*x^p)]*Int[Sqrt[1+a*x^p]*Sqrt[1-a*x^p]/x^(p+1),x] /;
+FreeQ[{a,p},x]
+
+
+Int[x_^m_.*E^ArcSech[a_.*x_^p_.], x_Symbol] :=
+  x^(m+1)*E^ArcSech[a*x^p]/(m+1) + 
+  p/(a*(m+1))*Int[x^(m-p),x] + 
+  p*Sqrt[1+a*x^p]/(a*(m+1))*Sqrt[1/(1+a*x^p)]*Int[x^(m-p)/(Sqrt[1+a*x^p]*Sqrt[1-a*x^p]),x] /;
+FreeQ[{a,m,p},x] && NeQ[m+1]
+
+
+Int[x_^m_.*E^ArcCsch[a_.*x_^p_.], x_Symbol] :=
+  1/a*Int[x^(m-p),x] + Int[x^m*Sqrt[1+1/(a^2*x^(2*p))],x] /;
+FreeQ[{a,m,p},x]
+
+
+Int[x_^m_.*E^(n_.*ArcSech[u_]), x_Symbol] :=
+  Int[x^m*(1/u + Sqrt[(1-u)/(1+u)] + 1/u*Sqrt[(1-u)/(1+u)])^n,x] /;
+FreeQ[m,x] && IntegerQ[n]
+
+
+Int[x_^m_.*E^(n_.*ArcCsch[u_]), x_Symbol] :=
+  Int[x^m*(1/u + Sqrt[1+1/u^2])^n,x] /;
+FreeQ[m,x] && IntegerQ[n]
+
+
+Int[ArcSech[u_],x_Symbol] :=
+  x*ArcSech[u] +
+  Sqrt[1-u^2]/(u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[ArcCsch[u_],x_Symbol] :=
+  x*ArcCsch[u] -
+  u/Sqrt[-u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
+InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSech[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcSech[u])/(d*(m+1)) + 
+  b*Sqrt[1-u^2]/(d*(m+1)*u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCsch[u_]),x_Symbol] :=
+  (c+d*x)^(m+1)*(a+b*ArcCsch[u])/(d*(m+1)) - 
+  b*u/(d*(m+1)*Sqrt[-u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
+FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
+
+
+Int[v_*(a_.+b_.*ArcSech[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcSech[u]),w,x] + b*Sqrt[1-u^2]/(u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+Int[v_*(a_.+b_.*ArcCsch[u_]),x_Symbol] :=
+  With[{w=IntHide[v,x]},  
+  Dist[(a+b*ArcCsch[u]),w,x] - b*u/Sqrt[-u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
+ InverseFunctionFreeQ[w,x]] /;
+FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
+
+
+
+`)
+
+func resourcesRubi7InverseHyperbolicFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi7InverseHyperbolicFunctionsM, nil
+}
+
+func resourcesRubi7InverseHyperbolicFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi7InverseHyperbolicFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/7 Inverse hyperbolic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi8SpecialFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Section:: *)
+(*Special Function Rules*)
+
+
+(* ::Subsection::Closed:: *)
+(*8.1 Error functions*)
+
+
+Int[Erf[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*Erf[a+b*x]/b + 1/(b*Sqrt[Pi]*E^(a+b*x)^2) /;
+FreeQ[{a,b},x]
+
+
+Int[Erfc[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*Erfc[a+b*x]/b - 1/(b*Sqrt[Pi]*E^(a+b*x)^2) /;
+FreeQ[{a,b},x]
+
+
+Int[Erfi[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*Erfi[a+b*x]/b - E^(a+b*x)^2/(b*Sqrt[Pi]) /;
+FreeQ[{a,b},x]
+
+
+Int[Erf[b_.*x_]/x_,x_Symbol] :=
+  2*b*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-b^2*x^2] /;
+FreeQ[b,x]
+
+
+Int[Erfc[b_.*x_]/x_,x_Symbol] :=
+  Log[x] - Int[Erf[b*x]/x,x] /;
+FreeQ[b,x]
+
+
+Int[Erfi[b_.*x_]/x_,x_Symbol] :=
+  2*b*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},b^2*x^2] /;
+FreeQ[b,x]
+
+
+Int[x_^m_.*Erf[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*Erf[a+b*x]/(m+1) -
+  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)/E^(a+b*x)^2,x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*Erfc[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*Erfc[a+b*x]/(m+1) +
+  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)/E^(a+b*x)^2,x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*Erfi[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*Erfi[a+b*x]/(m+1) -
+  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(a+b*x)^2,x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
+  E^(c+d*x^2)*Erf[a+b*x]/(2*d) - 
+  b/(d*Sqrt[Pi])*Int[E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
+  E^(c+d*x^2)*Erfc[a+b*x]/(2*d) + 
+  b/(d*Sqrt[Pi])*Int[E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
+  E^(c+d*x^2)*Erfi[a+b*x]/(2*d) - 
+  b/(d*Sqrt[Pi])*Int[E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
+  x^(m-1)*E^(c+d*x^2)*Erf[a+b*x]/(2*d) - 
+  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
+  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erf[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
+  x^(m-1)*E^(c+d*x^2)*Erfc[a+b*x]/(2*d) + 
+  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
+  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erfc[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
+  x^(m-1)*E^(c+d*x^2)*Erfi[a+b*x]/(2*d) - 
+  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] - 
+  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erfi[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
+
+
+Int[E^(c_.+d_.*x_^2)*Erf[b_.*x_]/x_,x_Symbol] :=
+  2*b*E^c*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1},{3/2,3/2},d*x^2] /;
+FreeQ[b,x] && EqQ[d-b^2]
+
+
+Int[E^(c_.+d_.*x_^2)*Erfc[b_.*x_]/x_,x_Symbol] :=
+  Int[E^(c+d*x^2)/x,x] - Int[E^(c+d*x^2)*Erf[b*x]/x,x] /;
+FreeQ[b,x] && EqQ[d-b^2]
+
+
+Int[E^(c_.+d_.*x_^2)*Erfi[b_.*x_]/x_,x_Symbol] :=
+  2*b*E^c*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1},{3/2,3/2},d*x^2] /;
+FreeQ[b,x] && EqQ[d+b^2]
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*E^(c+d*x^2)*Erf[a+b*x]/(m+1) - 
+  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
+  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erf[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*E^(c+d*x^2)*Erfc[a+b*x]/(m+1) + 
+  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
+  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erfc[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*E^(c+d*x^2)*Erfi[a+b*x]/(m+1) - 
+  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] - 
+  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erfi[a+b*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[Erf[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*Erf[a+b*x]^2/b -
+  4/Sqrt[Pi]*Int[(a+b*x)*Erf[a+b*x]/E^(a+b*x)^2,x] /;
+FreeQ[{a,b},x]
+
+
+Int[Erfc[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*Erfc[a+b*x]^2/b +
+  4/Sqrt[Pi]*Int[(a+b*x)*Erfc[a+b*x]/E^(a+b*x)^2,x] /;
+FreeQ[{a,b},x]
+
+
+Int[Erfi[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*Erfi[a+b*x]^2/b -
+  4/Sqrt[Pi]*Int[(a+b*x)*E^(a+b*x)^2*Erfi[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*Erf[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*Erf[b*x]^2/(m+1) -
+  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(-b^2*x^2)*Erf[b*x],x] /;
+FreeQ[b,x] && IntegerQ[m] && m!=-1 && (m>0 || OddQ[m])
+
+
+Int[x_^m_.*Erfc[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*Erfc[b*x]^2/(m+1) +
+  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(-b^2*x^2)*Erfc[b*x],x] /;
+FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 || OddQ[m])
+
+
+Int[x_^m_.*Erfi[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*Erfi[b*x]^2/(m+1) -
+  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(b^2*x^2)*Erfi[b*x],x] /;
+FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 || OddQ[m])
+
+
+Int[x_^m_.*Erf[a_+b_.*x_]^2,x_Symbol] :=
+  1/b*Subst[Int[(-a/b+x/b)^m*Erf[x]^2,x],x,a+b*x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Erfc[a_+b_.*x_]^2,x_Symbol] :=
+  1/b*Subst[Int[(-a/b+x/b)^m*Erfc[x]^2,x],x,a+b*x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Erfi[a_+b_.*x_]^2,x_Symbol] :=
+  1/b*Subst[Int[(-a/b+x/b)^m*Erfi[x]^2,x],x,a+b*x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.2 Fresnel integral functions*)
+
+
+Int[FresnelS[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*FresnelS[a+b*x]/b + Cos[Pi/2*(a+b*x)^2]/(b*Pi) /;
+FreeQ[{a,b},x]
+
+
+Int[FresnelC[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*FresnelC[a+b*x]/b - Sin[Pi/2*(a+b*x)^2]/(b*Pi) /;
+FreeQ[{a,b},x]
+
+
+Int[FresnelS[b_.*x_]/x_,x_Symbol] :=
+  1/2*I*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-1/2*I*b^2*Pi*x^2] - 
+  1/2*I*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},1/2*I*b^2*Pi*x^2] /;
+FreeQ[b,x]
+
+
+Int[FresnelC[b_.*x_]/x_,x_Symbol] :=
+  1/2*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-1/2*I*b^2*Pi*x^2] + 
+  1/2*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},1/2*I*b^2*Pi*x^2] /;
+FreeQ[b,x]
+
+
+Int[x_^m_.*FresnelS[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*FresnelS[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Sin[Pi/2*(a+b*x)^2],x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*FresnelC[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*FresnelC[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Cos[Pi/2*(a+b*x)^2],x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[FresnelS[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*FresnelS[a+b*x]^2/b -
+  2*Int[(a+b*x)*Sin[Pi/2*(a+b*x)^2]*FresnelS[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[FresnelC[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*FresnelC[a+b*x]^2/b -
+  2*Int[(a+b*x)*Cos[Pi/2*(a+b*x)^2]*FresnelC[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_*FresnelS[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*FresnelS[b*x]^2/(m+1) -
+  2*b/(m+1)*Int[x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
+FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 && EvenQ[m] || Mod[m,4]==3)
+
+
+Int[x_^m_*FresnelC[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*FresnelC[b*x]^2/(m+1) -
+  2*b/(m+1)*Int[x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
+FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 && EvenQ[m] || Mod[m,4]==3)
+
+
+(* Int[x_^m_.*FresnelS[a_+b_.*x_]^2,x_Symbol] :=
+  1/b*Subst[Int[(-a/b+x/b)^m*FresnelS[x]^2,x],x,a+b*x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m>0 *)
+
+
+(* Int[x_^m_.*FresnelC[a_+b_.*x_]^2,x_Symbol] :=
+  1/b*Subst[Int[(-a/b+x/b)^m*FresnelC[x]^2,x],x,a+b*x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m>0 *)
+
+
+Int[x_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  -Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) +
+  1/(2*Pi*b)*Int[Sin[Pi*b^2*x^2],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
+
+
+Int[x_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) -
+  1/(2*Pi*b)*Int[Sin[Pi*b^2*x^2],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
+
+
+Int[x_^m_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  -x^(m-1)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) +
+  1/(2*Pi*b)*Int[x^(m-1)*Sin[Pi*b^2*x^2],x] +
+  (m-1)/(Pi*b^2)*Int[x^(m-2)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==2]
+
+
+Int[x_^m_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  x^(m-1)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) -
+  1/(2*Pi*b)*Int[x^(m-1)*Sin[Pi*b^2*x^2],x] -
+  (m-1)/(Pi*b^2)*Int[x^(m-2)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==2]
+
+
+Int[x_^m_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(m+1) - b*x^(m+2)/(2*(m+1)*(m+2)) +
+  b/(2*(m+1))*Int[x^(m+1)*Cos[Pi*b^2*x^2],x] -
+  Pi*b^2/(m+1)*Int[x^(m+2)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-2 && Mod[m,4]==0
+
+
+Int[x_^m_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(m+1) - b*x^(m+2)/(2*(m+1)*(m+2)) -
+  b/(2*(m+1))*Int[x^(m+1)*Cos[Pi*b^2*x^2],x] +
+  Pi*b^2/(m+1)*Int[x^(m+2)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-2 && Mod[m,4]==0
+
+
+Int[x_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) - x/(2*Pi*b) +
+  1/(2*Pi*b)*Int[Cos[Pi*b^2*x^2],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
+
+
+Int[x_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  -Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) + x/(2*Pi*b) +
+  1/(2*Pi*b)*Int[Cos[Pi*b^2*x^2],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
+
+
+Int[x_^m_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  x^(m-1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) - x^m/(2*b*m*Pi) +
+  1/(2*Pi*b)*Int[x^(m-1)*Cos[Pi*b^2*x^2],x] -
+  (m-1)/(Pi*b^2)*Int[x^(m-2)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==0]
+
+
+Int[x_^m_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  -x^(m-1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) + x^m/(2*b*m*Pi) +
+  1/(2*Pi*b)*Int[x^(m-1)*Cos[Pi*b^2*x^2],x] +
+  (m-1)/(Pi*b^2)*Int[x^(m-2)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==0]
+
+
+Int[x_^m_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
+  x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(m+1) -
+  b/(2*(m+1))*Int[x^(m+1)*Sin[Pi*b^2*x^2],x] +
+  Pi*b^2/(m+1)*Int[x^(m+2)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-1 && Mod[m,4]==2
+
+
+Int[x_^m_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
+  x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(m+1) -
+  b/(2*(m+1))*Int[x^(m+1)*Sin[Pi*b^2*x^2],x] -
+  Pi*b^2/(m+1)*Int[x^(m+2)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
+FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-1 && Mod[m,4]==2
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.3 Exponential integral functions*)
+
+
+Int[ExpIntegralE[n_,a_.+b_.*x_],x_Symbol] :=
+  -ExpIntegralE[n+1,a+b*x]/b /;
+FreeQ[{a,b,n},x]
+
+
+Int[x_^m_.*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
+  -x^m*ExpIntegralE[n+1,b*x]/b + 
+  m/b*Int[x^(m-1)*ExpIntegralE[n+1,b*x],x] /;
+FreeQ[b,x] && EqQ[m+n] && PositiveIntegerQ[m]
+
+
+Int[ExpIntegralE[1,b_.*x_]/x_,x_Symbol] :=
+  b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] - EulerGamma*Log[x] - 1/2*Log[b*x]^2 /;
+FreeQ[b,x]
+
+
+Int[x_^m_*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
+  x^(m+1)*ExpIntegralE[n,b*x]/(m+1) +
+  b/(m+1)*Int[x^(m+1)*ExpIntegralE[n-1,b*x],x] /;
+FreeQ[b,x] && EqQ[m+n] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
+  x^m*Gamma[m+1]*Log[x]/(b*(b*x)^m) - x^(m+1)*HypergeometricPFQ[{m+1,m+1},{m+2,m+2},-b*x]/(m+1)^2 /;
+FreeQ[{b,m,n},x] && EqQ[m+n] && Not[IntegerQ[m]]
+
+
+Int[x_^m_.*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
+  x^(m+1)*ExpIntegralE[n,b*x]/(m+n) - x^(m+1)*ExpIntegralE[-m,b*x]/(m+n) /;
+FreeQ[{b,m,n},x] && NeQ[m+n]
+
+
+Int[x_^m_.*ExpIntegralE[n_,a_+b_.*x_],x_Symbol] :=
+  -x^m*ExpIntegralE[n+1,a+b*x]/b +
+  m/b*Int[x^(m-1)*ExpIntegralE[n+1,a+b*x],x] /;
+FreeQ[{a,b,m,n},x] && (PositiveIntegerQ[m] || NegativeIntegerQ[n] || RationalQ[m,n] && m>0 && n<-1)
+
+
+Int[x_^m_.*ExpIntegralE[n_,a_+b_.*x_],x_Symbol] :=
+  x^(m+1)*ExpIntegralE[n,a+b*x]/(m+1) +
+  b/(m+1)*Int[x^(m+1)*ExpIntegralE[n-1,a+b*x],x] /;
+FreeQ[{a,b,m},x] && (PositiveIntegerQ[n] || RationalQ[m,n] && m<-1 && n>0) && NeQ[m+1]
+
+
+Int[ExpIntegralEi[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*ExpIntegralEi[a+b*x]/b - E^(a+b*x)/b /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*ExpIntegralEi[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*ExpIntegralEi[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*E^(a+b*x)/(a+b*x),x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[ExpIntegralEi[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*ExpIntegralEi[a+b*x]^2/b -
+  2*Int[E^(a+b*x)*ExpIntegralEi[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*ExpIntegralEi[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*ExpIntegralEi[b*x]^2/(m+1) -
+  2/(m+1)*Int[x^m*E^(b*x)*ExpIntegralEi[b*x],x] /;
+FreeQ[b,x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*ExpIntegralEi[a_+b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*ExpIntegralEi[a+b*x]^2/(m+1) +
+  a*x^m*ExpIntegralEi[a+b*x]^2/(b*(m+1)) -
+  2/(m+1)*Int[x^m*E^(a+b*x)*ExpIntegralEi[a+b*x],x] -
+  a*m/(b*(m+1))*Int[x^(m-1)*ExpIntegralEi[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+(* Int[x_^m_.*ExpIntegralEi[a_+b_.*x_]^2,x_Symbol] :=
+  b*x^(m+2)*ExpIntegralEi[a+b*x]^2/(a*(m+1)) +
+  x^(m+1)*ExpIntegralEi[a+b*x]^2/(m+1) -
+  2*b/(a*(m+1))*Int[x^(m+1)*E^(a+b*x)*ExpIntegralEi[a+b*x],x] -
+  b*(m+2)/(a*(m+1))*Int[x^(m+1)*ExpIntegralEi[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
+
+
+Int[E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
+  E^(a+b*x)*ExpIntegralEi[c+d*x]/b -
+  d/b*Int[E^(a+c+(b+d)*x)/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_.*E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
+  x^m*E^(a+b*x)*ExpIntegralEi[c+d*x]/b -
+  d/b*Int[x^m*E^(a+c+(b+d)*x)/(c+d*x),x] -
+  m/b*Int[x^(m-1)*E^(a+b*x)*ExpIntegralEi[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_*E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*E^(a+b*x)*ExpIntegralEi[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*E^(a+c+(b+d)*x)/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*E^(a+b*x)*ExpIntegralEi[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[LogIntegral[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*LogIntegral[a+b*x]/b - ExpIntegralEi[2*Log[a+b*x]]/b /;
+FreeQ[{a,b},x]
+
+
+Int[LogIntegral[b_.*x_]/x_,x_Symbol] :=
+  -b*x + Log[b*x]*LogIntegral[b*x] /;
+FreeQ[b,x]
+
+
+Int[x_^m_.*LogIntegral[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*LogIntegral[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)/Log[a+b*x],x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.4 Trig integral functions*)
+
+
+Int[SinIntegral[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*SinIntegral[a+b*x]/b + Cos[a+b*x]/b/;
+FreeQ[{a,b},x]
+
+
+Int[CosIntegral[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*CosIntegral[a+b*x]/b - Sin[a+b*x]/b /;
+FreeQ[{a,b},x]
+
+
+Int[SinIntegral[b_.*x_]/x_,x_Symbol] :=
+  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-I*b*x] + 
+  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},I*b*x] /;
+FreeQ[b,x]
+
+
+Int[CosIntegral[b_.*x_]/x_,x_Symbol] :=
+  -1/2*I*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-I*b*x] + 
+  1/2*I*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},I*b*x] + 
+  EulerGamma*Log[x] + 
+  1/2*Log[b*x]^2 /;
+FreeQ[b,x]
+
+
+Int[x_^m_.*SinIntegral[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*SinIntegral[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]/(a+b*x),x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*CosIntegral[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*CosIntegral[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]/(a+b*x),x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[SinIntegral[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*SinIntegral[a+b*x]^2/b -
+  2*Int[Sin[a+b*x]*SinIntegral[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[CosIntegral[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*CosIntegral[a+b*x]^2/b -
+  2*Int[Cos[a+b*x]*CosIntegral[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*SinIntegral[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*SinIntegral[b*x]^2/(m+1) -
+  2/(m+1)*Int[x^m*Sin[b*x]*SinIntegral[b*x],x] /;
+FreeQ[b,x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*CosIntegral[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*CosIntegral[b*x]^2/(m+1) -
+  2/(m+1)*Int[x^m*Cos[b*x]*CosIntegral[b*x],x] /;
+FreeQ[b,x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*SinIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*SinIntegral[a+b*x]^2/(m+1) +
+  a*x^m*SinIntegral[a+b*x]^2/(b*(m+1)) -
+  2/(m+1)*Int[x^m*Sin[a+b*x]*SinIntegral[a+b*x],x] -
+  a*m/(b*(m+1))*Int[x^(m-1)*SinIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*CosIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*CosIntegral[a+b*x]^2/(m+1) +
+  a*x^m*CosIntegral[a+b*x]^2/(b*(m+1)) -
+  2/(m+1)*Int[x^m*Cos[a+b*x]*CosIntegral[a+b*x],x] -
+  a*m/(b*(m+1))*Int[x^(m-1)*CosIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+(* Int[x_^m_.*SinIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  b*x^(m+2)*SinIntegral[a+b*x]^2/(a*(m+1)) +
+  x^(m+1)*SinIntegral[a+b*x]^2/(m+1) -
+  2*b/(a*(m+1))*Int[x^(m+1)*Sin[a+b*x]*SinIntegral[a+b*x],x] -
+  b*(m+2)/(a*(m+1))*Int[x^(m+1)*SinIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
+
+
+(* Int[x_^m_.*CosIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  b*x^(m+2)*CosIntegral[a+b*x]^2/(a*(m+1)) +
+  x^(m+1)*CosIntegral[a+b*x]^2/(m+1) -
+  2*b/(a*(m+1))*Int[x^(m+1)*Cos[a+b*x]*CosIntegral[a+b*x],x] -
+  b*(m+2)/(a*(m+1))*Int[x^(m+1)*CosIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
+
+
+Int[Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  -Cos[a+b*x]*SinIntegral[c+d*x]/b +
+  d/b*Int[Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  Sin[a+b*x]*CosIntegral[c+d*x]/b -
+  d/b*Int[Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  -x^m*Cos[a+b*x]*SinIntegral[c+d*x]/b +
+  d/b*Int[x^m*Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] +
+  m/b*Int[x^(m-1)*Cos[a+b*x]*SinIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Sin[a+b*x]*CosIntegral[c+d*x]/b -
+  d/b*Int[x^m*Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Sin[a+b*x]*CosIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_*Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Sin[a+b*x]*SinIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]*SinIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Cos[a+b*x]*CosIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] +
+  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]*CosIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  Sin[a+b*x]*SinIntegral[c+d*x]/b -
+  d/b*Int[Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  -Cos[a+b*x]*CosIntegral[c+d*x]/b +
+  d/b*Int[Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Sin[a+b*x]*SinIntegral[c+d*x]/b -
+  d/b*Int[x^m*Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Sin[a+b*x]*SinIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  -x^m*Cos[a+b*x]*CosIntegral[c+d*x]/b +
+  d/b*Int[x^m*Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] +
+  m/b*Int[x^(m-1)*Cos[a+b*x]*CosIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Cos[a+b*x]*SinIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] +
+  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]*SinIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_*Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Sin[a+b*x]*CosIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]*CosIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.5 Hyperbolic integral functions*)
+
+
+Int[SinhIntegral[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*SinhIntegral[a+b*x]/b - Cosh[a+b*x]/b/;
+FreeQ[{a,b},x]
+
+
+Int[CoshIntegral[a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*CoshIntegral[a+b*x]/b - Sinh[a+b*x]/b /;
+FreeQ[{a,b},x]
+
+
+Int[SinhIntegral[b_.*x_]/x_,x_Symbol] :=
+  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] + 
+  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},b*x] /;
+FreeQ[b,x]
+
+
+Int[CoshIntegral[b_.*x_]/x_,x_Symbol] :=
+  -1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] + 
+  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},b*x] + 
+  EulerGamma*Log[x] + 
+  1/2*Log[b*x]^2 /;
+FreeQ[b,x]
+
+
+Int[x_^m_.*SinhIntegral[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*SinhIntegral[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]/(a+b*x),x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[x_^m_.*CoshIntegral[a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*CoshIntegral[a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]/(a+b*x),x] /;
+FreeQ[{a,b,m},x] && NeQ[m+1]
+
+
+Int[SinhIntegral[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*SinhIntegral[a+b*x]^2/b -
+  2*Int[Sinh[a+b*x]*SinhIntegral[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[CoshIntegral[a_.+b_.*x_]^2,x_Symbol] :=
+  (a+b*x)*CoshIntegral[a+b*x]^2/b -
+  2*Int[Cosh[a+b*x]*CoshIntegral[a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*SinhIntegral[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*SinhIntegral[b*x]^2/(m+1) -
+  2/(m+1)*Int[x^m*Sinh[b*x]*SinhIntegral[b*x],x] /;
+FreeQ[b,x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*CoshIntegral[b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*CoshIntegral[b*x]^2/(m+1) -
+  2/(m+1)*Int[x^m*Cosh[b*x]*CoshIntegral[b*x],x] /;
+FreeQ[b,x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*SinhIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*SinhIntegral[a+b*x]^2/(m+1) +
+  a*x^m*SinhIntegral[a+b*x]^2/(b*(m+1)) -
+  2/(m+1)*Int[x^m*Sinh[a+b*x]*SinhIntegral[a+b*x],x] -
+  a*m/(b*(m+1))*Int[x^(m-1)*SinhIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*CoshIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  x^(m+1)*CoshIntegral[a+b*x]^2/(m+1) +
+  a*x^m*CoshIntegral[a+b*x]^2/(b*(m+1)) -
+  2/(m+1)*Int[x^m*Cosh[a+b*x]*CoshIntegral[a+b*x],x] -
+  a*m/(b*(m+1))*Int[x^(m-1)*CoshIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m]
+
+
+(* Int[x_^m_.*SinhIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  b*x^(m+2)*SinhIntegral[a+b*x]^2/(a*(m+1)) +
+  x^(m+1)*SinhIntegral[a+b*x]^2/(m+1) -
+  2*b/(a*(m+1))*Int[x^(m+1)*Sinh[a+b*x]*SinhIntegral[a+b*x],x] -
+  b*(m+2)/(a*(m+1))*Int[x^(m+1)*SinhIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
+
+
+(* Int[x_^m_.*CoshIntegral[a_+b_.*x_]^2,x_Symbol] :=
+  b*x^(m+2)*CoshIntegral[a+b*x]^2/(a*(m+1)) +
+  x^(m+1)*CoshIntegral[a+b*x]^2/(m+1) -
+  2*b/(a*(m+1))*Int[x^(m+1)*Cosh[a+b*x]*CoshIntegral[a+b*x],x] -
+  b*(m+2)/(a*(m+1))*Int[x^(m+1)*CoshIntegral[a+b*x]^2,x] /;
+FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
+
+
+Int[Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  Cosh[a+b*x]*SinhIntegral[c+d*x]/b -
+  d/b*Int[Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  Sinh[a+b*x]*CoshIntegral[c+d*x]/b -
+  d/b*Int[Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Cosh[a+b*x]*SinhIntegral[c+d*x]/b -
+  d/b*Int[x^m*Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Cosh[a+b*x]*SinhIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>0
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Sinh[a+b*x]*CoshIntegral[c+d*x]/b -
+  d/b*Int[x^m*Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Sinh[a+b*x]*CoshIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>0
+
+
+Int[x_^m_*Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Sinh[a+b*x]*SinhIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*SinhIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Cosh[a+b*x]*CoshIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*CoshIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  Sinh[a+b*x]*SinhIntegral[c+d*x]/b -
+  d/b*Int[Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  Cosh[a+b*x]*CoshIntegral[c+d*x]/b -
+  d/b*Int[Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] /;
+FreeQ[{a,b,c,d},x]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Sinh[a+b*x]*SinhIntegral[c+d*x]/b -
+  d/b*Int[x^m*Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Sinh[a+b*x]*SinhIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^m*Cosh[a+b*x]*CoshIntegral[c+d*x]/b -
+  d/b*Int[x^m*Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
+  m/b*Int[x^(m-1)*Cosh[a+b*x]*CoshIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Cosh[a+b*x]*SinhIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*SinhIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+Int[x_^m_*Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
+  x^(m+1)*Sinh[a+b*x]*CoshIntegral[c+d*x]/(m+1) -
+  d/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
+  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*CoshIntegral[c+d*x],x] /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.6 Gamma functions*)
+
+
+Int[Gamma[n_,a_.+b_.*x_],x_Symbol] :=
+  (a+b*x)*Gamma[n,a+b*x]/b -
+  Gamma[n+1,a+b*x]/b /;
+FreeQ[{a,b},x]
+
+
+Int[Gamma[n_,b_*x_]/x_,x_Symbol] :=
+  Gamma[n]*Log[x] - (b*x)^n/n^2*HypergeometricPFQ[{n,n},{1+n,1+n},-b*x] /;
+FreeQ[{b,n},x] && Not[IntegerQ[n] && n<=0]
+
+
+Int[x_^m_.*Gamma[n_,b_*x_],x_Symbol] :=
+  x^(m+1)*Gamma[n,b*x]/(m+1) - 
+  x^m*Gamma[m+n+1,b*x]/(b*(m+1)*(b*x)^m) /;
+FreeQ[{b,m,n},x] && NeQ[m+1]
+
+
+Int[x_^m_.*Gamma[n_,a_+b_.*x_],x_Symbol] :=
+  Block[{$UseGamma=True},
+    x^(m+1)*Gamma[n,a+b*x]/(m+1) + 
+    b/(m+1)*Int[x^(m+1)*(a+b*x)^(n-1)/E^(a+b*x),x]] /;
+FreeQ[{a,b,m,n},x] && (PositiveIntegerQ[m] || PositiveIntegerQ[n] || IntegersQ[m,n]) && NeQ[m+1]
+
+
+(* Int[x_^m_.*Gamma[n_,a_+b_.*x_],x_Symbol] :=
+  x^m*(a+b*x)*Gamma[n,a+b*x]/(b*(m+1)) -
+  x^m*Gamma[n+1,a+b*x]/(b*(m+1)) -
+  a*m/(b*(m+1))*Int[x^(m-1)*Gamma[n,a+b*x],x] +
+  m/(b*(m+1))*Int[x^(m-1)*Gamma[n+1,a+b*x],x] /;
+FreeQ[{a,b,n},x] && RationalQ[m] && m>0 *)
+
+
+Int[LogGamma[a_.+b_.*x_],x_Symbol] :=
+  PolyGamma[-2,a+b*x]/b /;
+FreeQ[{a,b},x]
+
+
+Int[x_^m_.*LogGamma[a_.+b_.*x_],x_Symbol] :=
+  x^m*PolyGamma[-2,a+b*x]/b -
+  m/b*Int[x^(m-1)*PolyGamma[-2,a+b*x],x] /;
+FreeQ[{a,b},x] && RationalQ[m] && m>0
+
+
+Int[PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
+  PolyGamma[n-1,a+b*x]/b /;
+FreeQ[{a,b,n},x]
+
+
+Int[x_^m_.*PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
+  x^m*PolyGamma[n-1,a+b*x]/b -
+  m/b*Int[x^(m-1)*PolyGamma[n-1,a+b*x],x] /;
+FreeQ[{a,b,n},x] && RationalQ[m] && m>0
+
+
+Int[x_^m_.*PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*PolyGamma[n,a+b*x]/(m+1) -
+  b/(m+1)*Int[x^(m+1)*PolyGamma[n+1,a+b*x],x] /;
+FreeQ[{a,b,n},x] && RationalQ[m] && m<-1
+
+
+Int[Gamma[a_.+b_.*x_]^n_.*PolyGamma[0,a_.+b_.*x_],x_Symbol] :=
+  Gamma[a+b*x]^n/(b*n) /;
+FreeQ[{a,b,n},x]
+
+
+Int[((a_.+b_.*x_)!)^n_.*PolyGamma[0,c_.+b_.*x_],x_Symbol] :=
+  ((a+b*x)!)^n/(b*n) /;
+FreeQ[{a,b,c,n},x] && EqQ[a-c+1]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.7 Zeta function*)
+
+
+Int[Zeta[2,a_.+b_.*x_],x_Symbol] :=
+  Int[PolyGamma[1,a+b*x],x] /;
+FreeQ[{a,b},x]
+
+
+Int[Zeta[s_,a_.+b_.*x_],x_Symbol] :=
+  -Zeta[s-1,a+b*x]/(b*(s-1)) /;
+FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2]
+
+
+Int[x_^m_.*Zeta[2,a_.+b_.*x_],x_Symbol] :=
+  Int[x^m*PolyGamma[1,a+b*x],x] /;
+FreeQ[{a,b},x] && RationalQ[m]
+
+
+Int[x_^m_.*Zeta[s_,a_.+b_.*x_],x_Symbol] :=
+  -x^m*Zeta[s-1,a+b*x]/(b*(s-1)) +
+  m/(b*(s-1))*Int[x^(m-1)*Zeta[s-1,a+b*x],x] /;
+FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2] && RationalQ[m] && m>0
+
+
+Int[x_^m_.*Zeta[s_,a_.+b_.*x_],x_Symbol] :=
+  x^(m+1)*Zeta[s,a+b*x]/(m+1) +
+  b*s/(m+1)*Int[x^(m+1)*Zeta[s+1,a+b*x],x] /;
+FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2] && RationalQ[m] && m<-1
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.8 Polylogarithm function*)
+
+
+Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
+  x*PolyLog[n,a*(b*x^p)^q] -
+  p*q*Int[PolyLog[n-1,a*(b*x^p)^q],x] /;
+FreeQ[{a,b,p,q},x] && RationalQ[n] && n>0
+
+
+Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
+  x*PolyLog[n+1,a*(b*x^p)^q]/(p*q) -
+  1/(p*q)*Int[PolyLog[n+1,a*(b*x^p)^q],x] /;
+FreeQ[{a,b,p,q},x] && RationalQ[n] && n<-1
+
+
+Int[PolyLog[n_,c_.*(a_.+b_.*x_)^p_.]/(d_.+e_.*x_),x_Symbol] :=
+  PolyLog[n+1,c*(a+b*x)^p]/(e*p) /;
+FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-a*e]
+
+
+Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.]/x_,x_Symbol] :=
+  PolyLog[n+1,a*(b*x^p)^q]/(p*q) /;
+FreeQ[{a,b,n,p,q},x]
+
+
+Int[x_^m_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
+  x^(m+1)*PolyLog[n,a*(b*x^p)^q]/(m+1) -
+  p*q/(m+1)*Int[x^m*PolyLog[n-1,a*(b*x^p)^q],x] /;
+FreeQ[{a,b,m,p,q},x] && NeQ[m+1] && RationalQ[n] && n>0
+
+
+Int[x_^m_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
+  x^(m+1)*PolyLog[n+1,a*(b*x^p)^q]/(p*q) -
+  (m+1)/(p*q)*Int[x^m*PolyLog[n+1,a*(b*x^p)^q],x] /;
+FreeQ[{a,b,m,p,q},x] && NeQ[m+1] && RationalQ[n] && n<-1
+
+
+Int[Log[c_.*x_^m_.]^r_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.]/x_,x_Symbol] :=
+  Log[c*x^m]^r*PolyLog[n+1,a*(b*x^p)^q]/(p*q) - 
+  m*r/(p*q)*Int[Log[c*x^m]^(r-1)*PolyLog[n+1,a*(b*x^p)^q]/x,x] /;
+FreeQ[{a,b,c,m,n,q,r},x] && RationalQ[r] && r>0
+
+
+Int[PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
+  x*PolyLog[n,c*(a+b*x)^p] -
+  p*Int[PolyLog[n-1,c*(a+b*x)^p],x] +
+  a*p*Int[PolyLog[n-1,c*(a+b*x)^p]/(a+b*x),x] /;
+FreeQ[{a,b,c,p},x] && RationalQ[n] && n>0
+
+
+Int[PolyLog[2,c_.*(a_.+b_.*x_)]/(d_.+e_.*x_),x_Symbol] :=
+  Log[d+e*x]*PolyLog[2,c*(a+b*x)]/e + b/e*Int[Log[d+e*x]*Log[1-a*c-b*c*x]/(a+b*x),x] /;
+FreeQ[{a,b,c,d,e},x]
+
+
+Int[(d_.+e_.*x_)^m_.*PolyLog[2,c_.*(a_.+b_.*x_)],x_Symbol] :=
+  (d+e*x)^(m+1)*PolyLog[2,c*(a+b*x)]/(e*(m+1)) + b/(e*(m+1))*Int[(d+e*x)^(m+1)*Log[1-a*c-b*c*x]/(a+b*x),x] /;
+FreeQ[{a,b,c,d,e,m},x] && NeQ[m,-1]
+
+
+(* Int[x_^m_.*PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
+  x^(m+1)*PolyLog[n,c*(a+b*x)^p]/(m+1) -
+  b*p/(m+1)*Int[x^(m+1)*PolyLog[n-1,c*(a+b*x)^p]/(a+b*x),x] /;
+FreeQ[{a,b,c,m,p},x] && RationalQ[n] && n>0 && PositiveIntegerQ[m] *)
+
+
+Int[x_^m_.*PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
+  -(a^(m+1)-b^(m+1)*x^(m+1))*PolyLog[n,c*(a+b*x)^p]/((m+1)*b^(m+1)) +
+  p/((m+1)*b^m)*Int[ExpandIntegrand[PolyLog[n-1,c*(a+b*x)^p],(a^(m+1)-b^(m+1)*x^(m+1))/(a+b*x),x],x] /;
+FreeQ[{a,b,c,p},x] && GtQ[n,0] && IntegerQ[m] && Not[EqQ[m,-1]]
+
+
+Int[PolyLog[n_,d_.*(F_^(c_.*(a_.+b_.*x_)))^p_.],x_Symbol] :=
+  PolyLog[n+1,d*(F^(c*(a+b*x)))^p]/(b*c*p*Log[F]) /;
+FreeQ[{F,a,b,c,d,n,p},x]
+
+
+Int[(e_.+f_.*x_)^m_.*PolyLog[n_,d_.*(F_^(c_.*(a_.+b_.*x_)))^p_.],x_Symbol] :=
+  (e+f*x)^m*PolyLog[n+1,d*(F^(c*(a+b*x)))^p]/(b*c*p*Log[F]) - 
+  f*m/(b*c*p*Log[F])*Int[(e+f*x)^(m-1)*PolyLog[n+1,d*(F^(c*(a+b*x)))^p],x] /;
+FreeQ[{F,a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>0
+
+
+Int[u_*PolyLog[n_,v_],x_Symbol] :=
+  With[{w=DerivativeDivides[v,u*v,x]},
+  w*PolyLog[n+1,v] /;
+ Not[FalseQ[w]]] /;
+FreeQ[n,x]
+
+
+Int[u_*Log[w_]*PolyLog[n_,v_],x_Symbol] :=
+  With[{z=DerivativeDivides[v,u*v,x]},
+  z*Log[w]*PolyLog[n+1,v] - 
+  Int[SimplifyIntegrand[z*D[w,x]*PolyLog[n+1,v]/w,x],x] /;
+ Not[FalseQ[z]]] /;
+FreeQ[n,x] && InverseFunctionFreeQ[w,x]
+
+
+
+
+
+(* ::Subsection::Closed:: *)
+(*8.9 Product logarithm function*)
+
+
+Int[(c_.*ProductLog[a_.+b_.*x_])^p_,x_Symbol] :=
+  (a+b*x)*(c*ProductLog[a+b*x])^p/(b*(p+1)) +
+  p/(c*(p+1))*Int[(c*ProductLog[a+b*x])^(p+1)/(1+ProductLog[a+b*x]),x] /;
+FreeQ[{a,b,c},x] && RationalQ[p] && p<-1
+
+
+Int[(c_.*ProductLog[a_.+b_.*x_])^p_.,x_Symbol] :=
+  (a+b*x)*(c*ProductLog[a+b*x])^p/b -
+  p*Int[(c*ProductLog[a+b*x])^p/(1+ProductLog[a+b*x]),x] /;
+FreeQ[{a,b,c},x] && Not[RationalQ[p] && p<-1]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_+b_.*x_])^p_.,x_Symbol] :=
+  1/b*Subst[Int[ExpandIntegrand[(c*ProductLog[x])^p,(-a/b+x/b)^m,x],x],x,a+b*x] /;
+FreeQ[{a,b,c,p},x] && PositiveIntegerQ[m]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
+  x*(c*ProductLog[a*x^n])^p -
+  n*p*Int[(c*ProductLog[a*x^n])^p/(1+ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,n,p},x] && (EqQ[n*(p-1)+1] || IntegerQ[p-1/2] && EqQ[n*(p-1/2)+1])
+
+
+Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
+  x*(c*ProductLog[a*x^n])^p/(n*p+1) +
+  n*p/(c*(n*p+1))*Int[(c*ProductLog[a*x^n])^(p+1)/(1+ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,n},x] && (IntegerQ[p] && EqQ[n*(p+1)+1] || IntegerQ[p-1/2] && EqQ[n*(p+1/2)+1])
+
+
+Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/x^2,x],x,1/x] /;
+FreeQ[{a,c,p},x] && NegativeIntegerQ[n]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_.,x_Symbol] :=
+  x^(m+1)*(c*ProductLog[a*x^n])^p/(m+1) -
+  n*p/(m+1)*Int[x^m*(c*ProductLog[a*x^n])^p/(1+ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,m,n,p},x] && NeQ[m+1] &&
+(IntegerQ[p-1/2] && IntegerQ[2*Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>0 ||
+ Not[IntegerQ[p-1/2]] && IntegerQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>=0)
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_.,x_Symbol] :=
+  x^(m+1)*(c*ProductLog[a*x^n])^p/(m+n*p+1) +
+  n*p/(c*(m+n*p+1))*Int[x^m*(c*ProductLog[a*x^n])^(p+1)/(1+ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,m,n,p},x] &&
+(EqQ[m+1] ||
+ IntegerQ[p-1/2] && IntegerQ[Simplify[p+(m+1)/n]-1/2] && Simplify[p+(m+1)/n]<0 ||
+ Not[IntegerQ[p-1/2]] && IntegerQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]<0)
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_])^p_.,x_Symbol] :=
+  Int[x^m*(c*ProductLog[a*x])^p/(1+ProductLog[a*x]),x] +
+  1/c*Int[x^m*(c*ProductLog[a*x])^(p+1)/(1+ProductLog[a*x]),x] /;
+FreeQ[{a,c,m},x]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
+  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/x^(m+2),x],x,1/x] /;
+FreeQ[{a,c,p},x] && IntegersQ[m,n] && n<0 && NeQ[m+1]
+
+
+Int[1/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
+  (a+b*x)/(b*d*ProductLog[a+b*x]) /;
+FreeQ[{a,b,d},x]
+
+
+Int[ProductLog[a_.+b_.*x_]/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
+  d*x - 
+  Int[1/(d+d*ProductLog[a+b*x]),x] /;
+FreeQ[{a,b,d},x]
+
+
+Int[(c_.*ProductLog[a_.+b_.*x_])^p_/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
+  c*(a+b*x)*(c*ProductLog[a+b*x])^(p-1)/(b*d) -
+  c*p*Int[(c*ProductLog[a+b*x])^(p-1)/(d+d*ProductLog[a+b*x]),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[p] && p>0
+
+
+Int[1/(ProductLog[a_.+b_.*x_]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
+  ExpIntegralEi[ProductLog[a+b*x]]/(b*d) /;
+FreeQ[{a,b,d},x]
+
+
+Int[1/(Sqrt[c_.*ProductLog[a_.+b_.*x_]]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
+  Rt[Pi*c,2]*Erfi[Sqrt[c*ProductLog[a+b*x]]/Rt[c,2]]/(b*c*d) /;
+FreeQ[{a,b,c,d},x] && PosQ[c]
+
+
+Int[1/(Sqrt[c_.*ProductLog[a_.+b_.*x_]]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
+  Rt[-Pi*c,2]*Erf[Sqrt[c*ProductLog[a+b*x]]/Rt[-c,2]]/(b*c*d) /;
+FreeQ[{a,b,c,d},x] && NegQ[c]
+
+
+Int[(c_.*ProductLog[a_.+b_.*x_])^p_/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
+  (a+b*x)*(c*ProductLog[a+b*x])^p/(b*d*(p+1)) -
+  1/(c*(p+1))*Int[(c*ProductLog[a+b*x])^(p+1)/(d+d*ProductLog[a+b*x]),x] /;
+FreeQ[{a,b,c,d},x] && RationalQ[p] && p<-1
+
+
+Int[(c_.*ProductLog[a_.+b_.*x_])^p_./(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
+  Gamma[p+1,-ProductLog[a+b*x]]*(c*ProductLog[a+b*x])^p/(b*d*(-ProductLog[a+b*x])^p) /;
+FreeQ[{a,b,c,d,p},x]
+
+
+Int[x_^m_./(d_+d_.*ProductLog[a_+b_.*x_]),x_Symbol] :=
+  1/b*Subst[Int[ExpandIntegrand[1/(d+d*ProductLog[x]),(-a/b+x/b)^m,x],x],x,a+b*x] /;
+FreeQ[{a,b,d},x] && PositiveIntegerQ[m]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_+b_.*x_])^p_./(d_+d_.*ProductLog[a_+b_.*x_]),x_Symbol] :=
+  1/b*Subst[Int[ExpandIntegrand[(c*ProductLog[x])^p/(d+d*ProductLog[x]),(-a/b+x/b)^m,x],x],x,a+b*x] /;
+FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[m]
+
+
+Int[1/(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
+  -Subst[Int[1/(x^2*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
+FreeQ[{a,d},x] && NegativeIntegerQ[n]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  c*x*(c*ProductLog[a*x^n])^(p-1)/d /;
+FreeQ[{a,c,d,n,p},x] && EqQ[n*(p-1)+1]
+
+
+Int[ProductLog[a_.*x_^n_.]^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  a^p*ExpIntegralEi[-p*ProductLog[a*x^n]]/(d*n) /;
+FreeQ[{a,d},x] && IntegerQ[1/n] && EqQ[p+1/n]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  Rt[Pi*c*n,2]/(d*n*a^(1/n)*c^(1/n))*Erfi[Sqrt[c*ProductLog[a*x^n]]/Rt[c*n,2]] /;
+FreeQ[{a,c,d},x] && IntegerQ[1/n] && EqQ[p-1/2+1/n] && PosQ[c*n]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  Rt[-Pi*c*n,2]/(d*n*a^(1/n)*c^(1/n))*Erf[Sqrt[c*ProductLog[a*x^n]]/Rt[-c*n,2]] /;
+FreeQ[{a,c,d},x] && IntegerQ[1/n] && EqQ[p-1/2+1/n] && NegQ[c*n]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  c*x*(c*ProductLog[a*x^n])^(p-1)/d -
+  c*(n*(p-1)+1)*Int[(c*ProductLog[a*x^n])^(p-1)/(d+d*ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,d},x] && RationalQ[n,p] && n>0 && n*(p-1)+1>0
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  x*(c*ProductLog[a*x^n])^p/(d*(n*p+1)) -
+  1/(c*(n*p+1))*Int[(c*ProductLog[a*x^n])^(p+1)/(d+d*ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,d},x] && RationalQ[n,p] && n>0 && n*p+1<0
+
+
+Int[(c_.*ProductLog[a_.*x_^n_])^p_./(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
+  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/(x^2*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
+FreeQ[{a,c,d,p},x] && NegativeIntegerQ[n]
+
+
+Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
+  x^(m+1)/(d*(m+1)*ProductLog[a*x]) -
+  m/(m+1)*Int[x^m/(ProductLog[a*x]*(d+d*ProductLog[a*x])),x] /;
+FreeQ[{a,d},x] && RationalQ[m] && m>0
+
+
+Int[1/(x_*(d_+d_.*ProductLog[a_.*x_])),x_Symbol] :=
+  Log[ProductLog[a*x]]/d /;
+FreeQ[{a,d},x]
+
+
+Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
+  x^(m+1)/(d*(m+1)) -
+  Int[x^m*ProductLog[a*x]/(d+d*ProductLog[a*x]),x] /;
+FreeQ[{a,d},x] && RationalQ[m] && m<-1
+
+
+Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
+  x^m*Gamma[m+1,-(m+1)*ProductLog[a*x]]/
+	(a*d*(m+1)*E^(m*ProductLog[a*x])*(-(m+1)*ProductLog[a*x])^m) /;
+FreeQ[{a,d,m},x] && Not[IntegerQ[m]]
+
+
+Int[1/(x_*(d_+d_.*ProductLog[a_.*x_^n_.])),x_Symbol] :=
+  Log[ProductLog[a*x^n]]/(d*n) /;
+FreeQ[{a,d,n},x]
+
+
+Int[x_^m_./(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
+  -Subst[Int[1/(x^(m+2)*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
+FreeQ[{a,d},x] && IntegersQ[m,n] && n<0 && NeQ[m+1]
+
+
+Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(x_*(d_+d_.*ProductLog[a_.*x_^n_.])),x_Symbol] :=
+  (c*ProductLog[a*x^n])^p/(d*n*p) /;
+FreeQ[{a,c,d,n,p},x]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  c*x^(m+1)*(c*ProductLog[a*x^n])^(p-1)/(d*(m+1)) /;
+FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && EqQ[m+n*(p-1)+1]
+
+
+Int[x_^m_.*ProductLog[a_.*x_^n_.]^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  a^p*ExpIntegralEi[-p*ProductLog[a*x^n]]/(d*n) /;
+FreeQ[{a,d,m,n},x] && IntegerQ[p] && EqQ[m+n*p+1]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  a^(p-1/2)*c^(p-1/2)*Rt[Pi*c/(p-1/2),2]*Erf[Sqrt[c*ProductLog[a*x^n]]/Rt[c/(p-1/2),2]]/(d*n) /;
+FreeQ[{a,c,d,m,n},x] && NeQ[m+1] && IntegerQ[p-1/2] && EqQ[m+n*(p-1/2)+1] && PosQ[c/(p-1/2)]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  a^(p-1/2)*c^(p-1/2)*Rt[-Pi*c/(p-1/2),2]*Erfi[Sqrt[c*ProductLog[a*x^n]]/Rt[-c/(p-1/2),2]]/(d*n) /;
+FreeQ[{a,c,d,m,n},x] && NeQ[m+1] && IntegerQ[p-1/2] && EqQ[m+n*(p-1/2)+1] && NegQ[c/(p-1/2)]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  c*x^(m+1)*(c*ProductLog[a*x^n])^(p-1)/(d*(m+1)) -
+  c*(m+n*(p-1)+1)/(m+1)*Int[x^m*(c*ProductLog[a*x^n])^(p-1)/(d+d*ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && RationalQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>1
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  x^(m+1)*(c*ProductLog[a*x^n])^p/(d*(m+n*p+1)) -
+  (m+1)/(c*(m+n*p+1))*Int[x^m*(c*ProductLog[a*x^n])^(p+1)/(d+d*ProductLog[a*x^n]),x] /;
+FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && RationalQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]<0
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_])^p_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
+  x^m*Gamma[m+p+1,-(m+1)*ProductLog[a*x]]*(c*ProductLog[a*x])^p/
+	(a*d*(m+1)*E^(m*ProductLog[a*x])*(-(m+1)*ProductLog[a*x])^(m+p)) /;
+FreeQ[{a,c,d,m,p},x] && NeQ[m+1]
+
+
+Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
+  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/(x^(m+2)*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
+FreeQ[{a,c,d,p},x] && NeQ[m+1] && IntegersQ[m,n] && n<0
+
+
+Int[u_,x_Symbol] :=
+  Subst[Int[SimplifyIntegrand[(x+1)*E^x*SubstFor[ProductLog[x],u,x],x],x],x,ProductLog[x]] /;
+FunctionOfQ[ProductLog[x],u,x]
+
+
+
+`)
+
+func resourcesRubi8SpecialFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi8SpecialFunctionsM, nil
+}
+
+func resourcesRubi8SpecialFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi8SpecialFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/8 Special functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi91IntegrandSimplificationRulesM = []byte(`(* ::Package:: *)
+
+(************************************************************************)
+(* This file was generated automatically by the Mathematica front end.  *)
+(* It contains Initialization cells from a Notebook file, which         *)
+(* typically will have the same name as this file except ending in      *)
+(* ".nb" instead of ".m".                                               *)
+(*                                                                      *)
+(* This file is intended to be loaded into the Mathematica kernel using *)
+(* the package loading commands Get or Needs.  Doing so is equivalent   *)
+(* to using the Evaluate Initialization Cells menu command in the front *)
+(* end.                                                                 *)
+(*                                                                      *)
+(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
+(* automatically each time the parent Notebook file is saved in the     *)
+(* Mathematica front end.  Any changes you make to this file will be    *)
+(* overwritten.                                                         *)
+(************************************************************************)
+
+
+
+(* ::Code:: *)
+(* Int[u_.*(v_+w_)^p_.,x_Symbol] :=
+  Int[u*w^p,x] /;
+FreeQ[p,x] && EqQ[v] *)
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[u*(b*x^n)^p,x] /;
+FreeQ[{a,b,n,p},x] && EqQ[a]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^n_.)^p_.,x_Symbol] :=
+  Int[u*a^p,x] /;
+FreeQ[{a,b,n,p},x] && EqQ[b]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  Int[u*(b*x^n+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[a]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  Int[u*(a+c*x^(2*n))^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[b]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
+  Int[u*(a+b*x^n)^p,x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[c]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_+b_.*v_+w_.)^p_.,x_Symbol] :=
+  Int[u*((a+b)*v+w)^p,x] /;
+FreeQ[{a,b},x] && Not[FreeQ[v,x]]
+
+
+(* ::Code:: *)
+Int[u_.*Pm_^p_,x_Symbol] :=
+  Int[u*Pm^Simplify[p],x] /;
+PolyQ[Pm,x] && Not[RationalQ[p]] && FreeQ[p,x] && RationalQ[Simplify[p]]
+
+
+(* ::Code:: *)
+Int[a_,x_Symbol] :=
+   a*x /;
+FreeQ[a,x]
+
+
+(* ::Code:: *)
+Int[a_*(b_+c_.*x_),x_Symbol] :=
+  a*(b+c*x)^2/(2*c) /;
+FreeQ[{a,b,c},x]
+
+
+(* ::Code:: *)
+Int[-u_,x_Symbol] :=
+  Identity[-1]*Int[u,x]
+
+
+(* ::Code:: *)
+Int[Complex[0,a_]*u_,x_Symbol] :=
+  Complex[Identity[0],a]*Int[u,x] /;
+FreeQ[a,x] && EqQ[a^2,1]
+
+
+(* ::Code:: *)
+Int[a_*u_,x_Symbol] :=
+  a*Int[u,x] /;
+FreeQ[a,x] && Not[MatchQ[u, b_*v_ /; FreeQ[b,x]]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  ShowStep["","Int[a*u + b*v + \[CenterEllipsis],x]","a*Integrate[u,x] + b*Integrate[v,x] + \[CenterEllipsis]",Hold[
+  IntSum[u,x]]] /;
+SimplifyFlag && SumQ[u],
+
+Int[u_,x_Symbol] :=
+  IntSum[u,x] /;
+SumQ[u]]
+
+
+(* ::Code:: *)
+Int[(c_.*x_)^m_.*u_,x_Symbol] :=
+  Int[ExpandIntegrand[(c*x)^m*u,x],x] /;
+FreeQ[{c,m},x] && SumQ[u] && Not[LinearQ[u,x]] && Not[MatchQ[u,a_+b_.*v_ /; FreeQ[{a,b},x] && InverseFunctionQ[v]]]
+
+
+(* ::Code:: *)
+Int[u_.*v_^m_.*(b_*v_)^n_,x_Symbol] :=
+  1/b^m*Int[u*(b*v)^(m+n),x] /;
+FreeQ[{b,n},x] && IntegerQ[m]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  a^(m+1/2)*b^(n-1/2)*Sqrt[b*v]/Sqrt[a*v]*Int[u*v^(m+n),x] /;
+FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && PositiveIntegerQ[n+1/2] && IntegerQ[m+n]
+
+
+(* ::Code:: *)
+(* Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  b^(n-1/2)*Sqrt[b*v]/(a^(n-1/2)*Sqrt[a*v])*Int[u*(a*v)^(m+n),x] /;
+FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && PositiveIntegerQ[n+1/2] && Not[IntegerQ[m+n]] *)
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  a^(m-1/2)*b^(n+1/2)*Sqrt[a*v]/Sqrt[b*v]*Int[u*v^(m+n),x] /;
+FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && NegativeIntegerQ[n-1/2] && IntegerQ[m+n]
+
+
+(* ::Code:: *)
+(* Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  b^(n+1/2)*Sqrt[a*v]/(a^(n+1/2)*Sqrt[b*v])*Int[u*(a*v)^(m+n),x] /;
+FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && NegativeIntegerQ[n-1/2] && Not[IntegerQ[m+n]] *)
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  a^(m+n)*(b*v)^n/(a*v)^n*Int[u*v^(m+n),x] /;
+FreeQ[{a,b,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[m+n]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
+  b^IntPart[n]*(b*v)^FracPart[n]/(a^IntPart[n]*(a*v)^FracPart[n])*Int[u*(a*v)^(m+n),x] /;
+FreeQ[{a,b,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[m+n]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*v_)^m_.*(c_+d_.*v_)^n_.,x_Symbol] :=
+  (b/d)^m*Int[u*(c+d*v)^(m+n),x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[b*c-a*d] && IntegerQ[m] && (Not[IntegerQ[n]] || SimplerQ[c+d*x,a+b*x])
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^n_,x_Symbol] :=
+  (b/d)^m*Int[u*(c+d*v)^(m+n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[b*c-a*d] && PositiveQ[b/d] && Not[IntegerQ[m] || IntegerQ[n]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^n_,x_Symbol] :=
+  (a+b*v)^m/(c+d*v)^m*Int[u*(c+d*v)^(m+n),x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[b*c-a*d] && Not[IntegerQ[m] || IntegerQ[n] || PositiveQ[b/d]]
+
+
+(* ::Code:: *)
+(* Int[u_.*(a_+b_.*v_)^m_.*(c_+d_.*v_)^m_.,x_Symbol] :=
+  Int[u*(a*c+b*d*v^2)^m,x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d] && (IntegerQ[m] || PositiveQ[a] && PositiveQ[c]) && 
+  (Not[AlgebraicFunctionQ[u,x]] || Not[MatchQ[v,e_.*x^n_. /; FreeQ[{e,n},x]]]) *)
+
+
+(* ::Code:: *)
+(* Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^m_,x_Symbol] :=
+  (a+b*v)^FracPart[m]*(c+d*v)^FracPart[m]/(a*c+b*d*v^2)^FracPart[m]*Int[u*(a*c+b*d*v^2)^m,x] /;
+FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d] && Not[IntegerQ[m]] && 
+  (Not[AlgebraicFunctionQ[u,x]] || Not[MatchQ[v,e_.*x^n_. /; FreeQ[{e,n},x]]]) *)
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_)^m_*(b_.*v_+c_.*v_^2),x_Symbol] :=
+  1/a*Int[u*(a*v)^(m+1)*(b+c*v),x] /;
+FreeQ[{a,b,c},x] && RationalQ[m] && m<=-1
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*v_)^m_*(A_.+B_.*v_+C_.*v_^2),x_Symbol] :=
+  1/b^2*Int[u*(a+b*v)^(m+1)*Simp[b*B-a*C+b*C*v,x],x] /;
+FreeQ[{a,b,A,B,C},x] && EqQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<=-1
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_^n_.)^m_.*(c_+d_.*x_^q_.)^p_.,x_Symbol] :=
+  (d/a)^p*Int[u*(a+b*x^n)^(m+p)/x^(n*p),x] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[n+q] && IntegerQ[p] && EqQ[a*c-b*d] && Not[IntegerQ[m] && NegQ[n]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_^n_.)^m_.*(c_+d_.*x_^j_)^p_.,x_Symbol] :=
+  (-b^2/d)^m*Int[u*(a-b*x^n)^(-m),x] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[j-2*n] && EqQ[m+p] && EqQ[b^2*c+a^2*d] && PositiveQ[a] && NegativeQ[d]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
+  Int[u*Cancel[(b/2+c*x)^(2*p)/c^p],x] /;
+FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/c^p*Int[u*(b/2+c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
+
+
+(* ::Code:: *)
+Int[Qr_/Pq_,x_Symbol] :=
+  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
+  Coeff[Qr,x,r]*Log[RemoveContent[Pq,x]]/(q*Coeff[Pq,x,q]) /;
+ EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
+PolyQ[Pq,x] && PolyQ[Qr,x]
+
+
+(* ::Code:: *)
+Int[Qr_*Pq_^p_.,x_Symbol] :=
+  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
+  Coeff[Qr,x,r]*Pq^(p+1)/(q*(p+1)*Coeff[Pq,x,q]) /;
+ EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
+FreeQ[p,x] && PolyQ[Pq,x] && PolyQ[Qr,x] && NeQ[p,-1]
+
+
+(* ::Code:: *)
+Int[x_^m_.*(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
+  (a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) /;
+FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2,0] && EqQ[m-2*n+1,0] && NeQ[p,-1]
+
+
+(* ::Code:: *)
+Int[Qr_*(a_.+b_.*Pq_^n_.)^p_.,x_Symbol] :=
+  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
+  Coeff[Qr,x,r]/(q*Coeff[Pq,x,q])*Subst[Int[(a+b*x^n)^p,x],x,Pq] /;
+ EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
+FreeQ[{a,b,n,p},x] && PolyQ[Pq,x] && PolyQ[Qr,x]
+
+
+(* ::Code:: *)
+Int[Qr_*(a_.+b_.*Pq_^n_.+c_.*Pq_^n2_.)^p_.,x_Symbol] :=
+  Module[{q=Expon[Pq,x],r=Expon[Qr,x]},
+  Coeff[Qr,x,r]/(q*Coeff[Pq,x,q])*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,Pq] /;
+ EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && PolyQ[Pq,x] && PolyQ[Qr,x]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*x_^p_.+b_.*x_^q_.)^m_.,x_Symbol] :=
+  Int[u*x^(m*p)*(a+b*x^(q-p))^m,x] /;
+FreeQ[{a,b,p,q},x] && IntegerQ[m] && PosQ[q-p]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*x_^p_.+b_.*x_^q_.+c_.*x_^r_.)^m_.,x_Symbol] :=
+  Int[u*x^(m*p)*(a+b*x^(q-p)+c*x^(r-p))^m,x] /;
+FreeQ[{a,b,c,p,q,r},x] && IntegerQ[m] && PosQ[q-p] && PosQ[r-p]
+
+
+(* ::Code:: *)
+Int[u_.*Pq_^m_*Qr_^p_,x_Symbol] :=
+  Module[{gcd=PolyGCD[Pq,Qr,x]},
+  Int[u*gcd^(m+p)*PolynomialQuotient[Pq,gcd,x]^m*PolynomialQuotient[Qr,gcd,x]^p,x] /;
+ NeQ[gcd-1]] /;
+PositiveIntegerQ[m] && NegativeIntegerQ[p] && PolyQ[Pq,x] && PolyQ[Qr,x]
+
+
+(* ::Code:: *)
+Int[u_.*Pq_*Qr_^p_,x_Symbol] :=
+  Module[{gcd=PolyGCD[Pq,Qr,x]},
+  Int[u*gcd^(p+1)*PolynomialQuotient[Pq,gcd,x]*PolynomialQuotient[Qr,gcd,x]^p,x] /;
+ NeQ[gcd-1]] /;
+NegativeIntegerQ[p] && PolyQ[Pq,x] && PolyQ[Qr,x]
+
+
+
+`)
+
+func resourcesRubi91IntegrandSimplificationRulesMBytes() ([]byte, error) {
+	return _resourcesRubi91IntegrandSimplificationRulesM, nil
+}
+
+func resourcesRubi91IntegrandSimplificationRulesM() (*asset, error) {
+	bytes, err := resourcesRubi91IntegrandSimplificationRulesMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/9.1 Integrand simplification rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi92DerivativeIntegrationRulesM = []byte(`(* ::Package:: *)
+
+(************************************************************************)
+(* This file was generated automatically by the Mathematica front end.  *)
+(* It contains Initialization cells from a Notebook file, which         *)
+(* typically will have the same name as this file except ending in      *)
+(* ".nb" instead of ".m".                                               *)
+(*                                                                      *)
+(* This file is intended to be loaded into the Mathematica kernel using *)
+(* the package loading commands Get or Needs.  Doing so is equivalent   *)
+(* to using the Evaluate Initialization Cells menu command in the front *)
+(* end.                                                                 *)
+(*                                                                      *)
+(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
+(* automatically each time the parent Notebook file is saved in the     *)
+(* Mathematica front end.  Any changes you make to this file will be    *)
+(* overwritten.                                                         *)
+(************************************************************************)
+
+
+
+(* ::Code:: *)
+Int[Derivative[n_][f_][x_],x_Symbol] :=
+  Derivative[n-1][f][x] /;
+FreeQ[{f,n},x]
+
+
+(* ::Code:: *)
+Int[(c_.*F_^(a_.+b_.*x_))^p_.*Derivative[n_][f_][x_],x_Symbol] :=
+  (c*F^(a+b*x))^p*Derivative[n-1][f][x] - b*p*Log[F]*Int[(c*F^(a+b*x))^p*Derivative[n-1][f][x],x] /;
+FreeQ[{a,b,c,f,F,p},x] && PositiveIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[(c_.*F_^(a_.+b_.*x_))^p_.*Derivative[n_][f_][x_],x_Symbol] :=
+  (c*F^(a+b*x))^p*Derivative[n][f][x]/(b*p*Log[F]) - 1/(b*p*Log[F])*Int[(c*F^(a+b*x))^p*Derivative[n+1][f][x],x] /;
+FreeQ[{a,b,c,f,F,p},x] && NegativeIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[Sin[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
+  Sin[a+b*x]*Derivative[n-1][f][x] - b*Int[Cos[a+b*x]*Derivative[n-1][f][x],x] /;
+FreeQ[{a,b,f},x] && PositiveIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[Cos[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
+  Cos[a+b*x]*Derivative[n-1][f][x] + b*Int[Sin[a+b*x]*Derivative[n-1][f][x],x] /;
+FreeQ[{a,b,f},x] && PositiveIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[Sin[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
+  -Cos[a+b*x]*Derivative[n][f][x]/b + 1/b*Int[Cos[a+b*x]*Derivative[n+1][f][x],x] /;
+FreeQ[{a,b,f},x] && NegativeIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[Cos[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
+  Sin[a+b*x]*Derivative[n][f][x]/b - 1/b*Int[Sin[a+b*x]*Derivative[n+1][f][x],x] /;
+FreeQ[{a,b,f},x] && NegativeIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[u_*Derivative[n_][f_][x_],x_Symbol] :=
+  Subst[Int[SimplifyIntegrand[SubstFor[Derivative[n-1][f][x],u,x],x],x],x,Derivative[n-1][f][x]] /;
+FreeQ[{f,n},x] && FunctionOfQ[Derivative[n-1][f][x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*Derivative[1][f_][x_]*g_[x_]+a_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  a*Subst[Int[SimplifyIntegrand[SubstFor[f[x]*g[x],u,x],x],x],x,f[x]*g[x]] /;
+FreeQ[{a,f,g},x] && FunctionOfQ[f[x]*g[x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*Derivative[m_][f_][x_]*g_[x_]+a_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*g[x],u,x],x],x],x,Derivative[m-1][f][x]*g[x]] /;
+FreeQ[{a,f,g,m},x] && EqQ[m1-m+1] && FunctionOfQ[Derivative[m-1][f][x]*g[x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+a_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
+  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*Derivative[n-1][g][x],u,x],x],x],x,Derivative[m-1][f][x]*Derivative[n-1][g][x]] /;
+FreeQ[{a,f,g,m,n},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && FunctionOfQ[Derivative[m-1][f][x]*Derivative[n-1][g][x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*f_[x_]^p_.*(a_.*Derivative[1][f_][x_]*g_[x_]+b_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  b*Subst[Int[SimplifyIntegrand[SubstFor[f[x]^(p+1)*g[x],u,x],x],x],x,f[x]^(p+1)*g[x]] /;
+FreeQ[{a,b,f,g,p},x] && EqQ[a-b*(p+1)] && FunctionOfQ[f[x]^(p+1)*g[x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*Derivative[m1_][f_][x_]^p_.*
+    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  b*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*g[x],u,x],x],x],x,
+    Derivative[m-1][f][x]^(p+1)*g[x]] /;
+FreeQ[{a,b,f,g,m,p},x] && EqQ[m1-m+1] && EqQ[a-b*(p+1)] && FunctionOfQ[Derivative[m-1][f][x]^(p+1)*g[x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*g_[x_]^q_.*
+    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*g[x]^(q+1),u,x],x],x],x,
+    Derivative[m-1][f][x]*g[x]^(q+1)] /;
+FreeQ[{a,b,f,g,m,q},x] && EqQ[m1-m+1] && EqQ[a*(q+1)-b] && FunctionOfQ[Derivative[m-1][f][x]*g[x]^(q+1),u,x]
+
+
+(* ::Code:: *)
+Int[u_*Derivative[m1_][f_][x_]^p_.*
+    (a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+b_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
+  b*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x],u,x],x],x],x,
+    Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]] /;
+FreeQ[{a,b,f,g,m,n,p},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && EqQ[a-b*(p+1)] && 
+  FunctionOfQ[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x],u,x]
+
+
+(* ::Code:: *)
+Int[u_*f_[x_]^p_.*g_[x_]^q_.*(a_.*Derivative[1][f_][x_]*g_[x_]+b_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[f[x]^(p+1)*g[x]^(q+1),u,x],x],x],x,f[x]^(p+1)*g[x]^(q+1)] /;
+FreeQ[{a,b,f,g,p,q},x] && EqQ[a*(q+1)-b*(p+1)] && FunctionOfQ[f[x]^(p+1)*g[x]^(q+1),u,x]
+
+
+(* ::Code:: *)
+Int[u_*Derivative[m1_][f_][x_]^p_.*g_[x_]^q_.*
+    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
+  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*g[x]^(q+1),u,x],x],x],x,
+    Derivative[m-1][f][x]^(p+1)*g[x]^(q+1)] /;
+FreeQ[{a,b,f,g,m,p,q},x] && EqQ[m1-m+1] && EqQ[a*(q+1)-b*(p+1)] && FunctionOfQ[Derivative[m-1][f][x]^(p+1)*g[x]^(q+1),u,x]
+
+
+(* ::Code:: *)
+Int[u_*Derivative[m1_][f_][x_]^p_.*Derivative[n1_][g_][x_]^q_.*
+    (a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+b_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
+  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1),u,x],x],x],x,
+    Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1)] /;
+FreeQ[{a,b,f,g,m,n,p,q},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && EqQ[a*(q+1)-b*(p+1)] && 
+  FunctionOfQ[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1),u,x]
+
+
+(* ::Code:: *)
+Int[f_'[x_]*g_[x_] + f_[x_]*g_'[x_],x_Symbol] :=
+  f[x]*g[x] /;
+FreeQ[{f,g},x]
+
+
+(* ::Code:: *)
+Int[(f_'[x_]*g_[x_] - f_[x_]*g_'[x_])/g_[x_]^2,x_Symbol] :=
+  f[x]/g[x] /;
+FreeQ[{f,g},x]
+
+
+(* ::Code:: *)
+Int[(f_'[x_]*g_[x_] - f_[x_]*g_'[x_])/(f_[x_]*g_[x_]),x_Symbol] :=
+  Log[f[x]/g[x]] /;
+FreeQ[{f,g},x]
+
+
+
+`)
+
+func resourcesRubi92DerivativeIntegrationRulesMBytes() ([]byte, error) {
+	return _resourcesRubi92DerivativeIntegrationRulesM, nil
+}
+
+func resourcesRubi92DerivativeIntegrationRulesM() (*asset, error) {
+	bytes, err := resourcesRubi92DerivativeIntegrationRulesMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/9.2 Derivative integration rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi93PiecewiseLinearFunctionsM = []byte(`(* ::Package:: *)
+
+(************************************************************************)
+(* This file was generated automatically by the Mathematica front end.  *)
+(* It contains Initialization cells from a Notebook file, which         *)
+(* typically will have the same name as this file except ending in      *)
+(* ".nb" instead of ".m".                                               *)
+(*                                                                      *)
+(* This file is intended to be loaded into the Mathematica kernel using *)
+(* the package loading commands Get or Needs.  Doing so is equivalent   *)
+(* to using the Evaluate Initialization Cells menu command in the front *)
+(* end.                                                                 *)
+(*                                                                      *)
+(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
+(* automatically each time the parent Notebook file is saved in the     *)
+(* Mathematica front end.  Any changes you make to this file will be    *)
+(* overwritten.                                                         *)
+(************************************************************************)
+
+
+
+(* ::Code:: *)
+Int[u_^m_.,x_Symbol] :=
+  Module[{c=Simplify[D[u,x]]},
+  1/c*Subst[Int[x^m,x],x,u]] /;
+FreeQ[m,x] && PiecewiseLinearQ[u,x]
+
+
+(* ::Code:: *)
+Int[v_/u_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  b*x/a - (b*u-a*v)/a*Int[1/u,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[v_^n_/u_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  v^n/(a*n) - (b*u-a*v)/a*Int[v^(n-1)/u,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && RationalQ[n] && n>0 && n!=1
+
+
+(* ::Code:: *)
+Int[1/(u_*v_),x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  b/(b*u-a*v)*Int[1/v,x] - a/(b*u-a*v)*Int[1/u,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[1/(u_*Sqrt[v_]),x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  2*ArcTan[Sqrt[v]/Rt[(b*u-a*v)/a,2]]/(a*Rt[(b*u-a*v)/a,2]) /;
+ NeQ[b*u-a*v] && PosQ[(b*u-a*v)/a]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[1/(u_*Sqrt[v_]),x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  -2*ArcTanh[Sqrt[v]/Rt[-(b*u-a*v)/a,2]]/(a*Rt[-(b*u-a*v)/a,2]) /;
+ NeQ[b*u-a*v] && NegQ[(b*u-a*v)/a]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[v_^n_/u_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  v^(n+1)/((n+1)*(b*u-a*v)) - 
+  a*(n+1)/((n+1)*(b*u-a*v))*Int[v^(n+1)/u,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && RationalQ[n] && n<-1
+
+
+(* ::Code:: *)
+Int[v_^n_/u_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  v^(n+1)/((n+1)*(b*u-a*v))*Hypergeometric2F1[1,n+1,n+2,-a*v/(b*u-a*v)] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && Not[IntegerQ[n]]
+
+
+(* ::Code:: *)
+Int[1/(Sqrt[u_]*Sqrt[v_]),x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  2/Rt[a*b,2]*ArcTanh[Rt[a*b,2]*Sqrt[u]/(a*Sqrt[v])] /;
+ NeQ[b*u-a*v] && PosQ[a*b]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[1/(Sqrt[u_]*Sqrt[v_]),x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  2/Rt[-a*b,2]*ArcTan[Rt[-a*b,2]*Sqrt[u]/(a*Sqrt[v])] /;
+ NeQ[b*u-a*v] && NegQ[a*b]] /;
+PiecewiseLinearQ[u,v,x]
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) /;
+ NeQ[b*u-a*v]] /;
+FreeQ[{m,n},x] && PiecewiseLinearQ[u,v,x] && EqQ[m+n+2] && NeQ[m+1]
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_.,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  u^(m+1)*v^n/(a*(m+1)) - 
+  b*n/(a*(m+1))*Int[u^(m+1)*v^(n-1),x] /;
+ NeQ[b*u-a*v]] /;
+FreeQ[{m,n},x] && PiecewiseLinearQ[u,v,x] (* && NeQ[m+n+2] *) && NeQ[m+1] && (
+  RationalQ[m,n] && m<-1 && n>0 && Not[IntegerQ[m+n] && m+n+2<0 && (FractionQ[m] || 2*n+m+1>=0)] || 
+  PositiveIntegerQ[n,m] && n<=m ||
+(*NegativeIntegerQ[n,m] && n<=m || *)
+  PositiveIntegerQ[n] && Not[IntegerQ[m]] ||
+  NegativeIntegerQ[m] && Not[IntegerQ[n]])
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_.,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  u^(m+1)*v^n/(a*(m+n+1)) - 
+  n*(b*u-a*v)/(a*(m+n+1))*Int[u^m*v^(n-1),x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && NeQ[m+n+2] && RationalQ[n] && n>0 && NeQ[m+n+1] && 
+  Not[PositiveIntegerQ[m] && (Not[IntegerQ[n]] || 0<m<n)] && 
+  Not[IntegerQ[m+n] && m+n+2<0]
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  u^(m+1)*v^n/(a*(m+n+1)) - 
+  n*(b*u-a*v)/(a*(m+n+1))*Int[u^m*v^Simplify[n-1],x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && NeQ[m+n+1] && Not[RationalQ[n]] && SumSimplerQ[n,-1]
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) + 
+  b*(m+n+2)/((m+1)*(b*u-a*v))*Int[u^(m+1)*v^n,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && NeQ[m+n+2] && RationalQ[m] && m<-1
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) + 
+  b*(m+n+2)/((m+1)*(b*u-a*v))*Int[u^Simplify[m+1]*v^n,x] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && Not[RationalQ[m]] && SumSimplerQ[m,1]
+
+
+(* ::Code:: *)
+Int[u_^m_*v_^n_,x_Symbol] :=
+  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
+  u^m*v^(n+1)/(b*(n+1)*(b*u/(b*u-a*v))^m)*Hypergeometric2F1[-m,n+1,n+2,-a*v/(b*u-a*v)] /;
+ NeQ[b*u-a*v]] /;
+PiecewiseLinearQ[u,v,x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
+
+
+(* ::Code:: *)
+Int[u_^n_.*Log[a_.+b_.*x_],x_Symbol] :=
+  Module[{c=Simplify[D[u,x]]},
+  u^n*(a+b*x)*Log[a+b*x]/b - 
+  Int[u^n,x] - 
+  c*n/b*Int[u^(n-1)*(a+b*x)*Log[a+b*x],x]] /;
+FreeQ[{a,b},x] && PiecewiseLinearQ[u,x] && Not[LinearQ[u,x]] && RationalQ[n] && n>0
+
+
+(* ::Code:: *)
+(* Int[u_^n_.*Log[a_.+b_.*x_]/(a_.+b_.*x_),x_Symbol] :=
+  Module[{c=Simplify[D[u,x]]},
+  u^n*Log[a+b*x]^2/(2*b) - 
+  c*n/(2*b)*Int[u^(n-1)*Log[a+b*x]^2,x]] /;
+FreeQ[{a,b},x] && PiecewiseLinearQ[u,x] && RationalQ[n] && n>0 *)
+
+
+(* ::Code:: *)
+Int[u_^n_.*(a_.+b_.*x_)^m_.*Log[a_.+b_.*x_],x_Symbol] :=
+  Module[{c=Simplify[D[u,x]]},
+  u^n*(a+b*x)^(m+1)*Log[a+b*x]/(b*(m+1)) - 
+  1/(m+1)*Int[u^n*(a+b*x)^m,x] - 
+  c*n/(b*(m+1))*Int[u^(n-1)*(a+b*x)^(m+1)*Log[a+b*x],x]] /;
+FreeQ[{a,b,m},x] && PiecewiseLinearQ[u,x] && Not[LinearQ[u,x]] && RationalQ[n] && n>0 && NeQ[m+1]
+
+
+
+`)
+
+func resourcesRubi93PiecewiseLinearFunctionsMBytes() ([]byte, error) {
+	return _resourcesRubi93PiecewiseLinearFunctionsM, nil
+}
+
+func resourcesRubi93PiecewiseLinearFunctionsM() (*asset, error) {
+	bytes, err := resourcesRubi93PiecewiseLinearFunctionsMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/9.3 Piecewise linear functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubi94MiscellaneousIntegrationRulesM = []byte(`(* ::Package:: *)
+
+(************************************************************************)
+(* This file was generated automatically by the Mathematica front end.  *)
+(* It contains Initialization cells from a Notebook file, which         *)
+(* typically will have the same name as this file except ending in      *)
+(* ".nb" instead of ".m".                                               *)
+(*                                                                      *)
+(* This file is intended to be loaded into the Mathematica kernel using *)
+(* the package loading commands Get or Needs.  Doing so is equivalent   *)
+(* to using the Evaluate Initialization Cells menu command in the front *)
+(* end.                                                                 *)
+(*                                                                      *)
+(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
+(* automatically each time the parent Notebook file is saved in the     *)
+(* Mathematica front end.  Any changes you make to this file will be    *)
+(* overwritten.                                                         *)
+(************************************************************************)
+
+
+
+(* ::Code:: *)
+(* Int[u_.*(c_.*x_^n_)^p_,x_Symbol] :=
+  c^FracPart[p]*(c*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[u*x^(n*p),x] /;
+FreeQ[{c,n,p},x] && Not[IntegerQ[p]] *)
+
+
+(* ::Code:: *)
+Int[u_*(c_.*(a_.+b_.* x_)^n_)^p_,x_Symbol] :=
+  c^IntPart[p]*(c*(a+b*x)^n)^FracPart[p]/(a+b*x)^(n*FracPart[p])*Int[u*(a+b*x)^(n*p),x] /;
+FreeQ[{a,b,c,n,p},x] && Not[IntegerQ[p]] && Not[MatchQ[u, x^n1_.*v_. /; EqQ[Simplify[n-n1-1]]]]
+
+
+(* ::Code:: *)
+Int[u_.*(c_.*(d_*(a_.+b_.* x_))^p_)^q_,x_Symbol] :=
+  (c*(d*(a+b*x))^p)^q/(a+b*x)^(p*q)*Int[u*(a+b*x)^(p*q),x] /;
+FreeQ[{a,b,c,d,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[q]]
+
+
+(* ::Code:: *)
+Int[u_.*(c_.*(d_.*(a_.+b_.* x_)^n_)^p_)^q_,x_Symbol] :=
+  (c*(d*(a+b*x)^n)^p)^q/(a+b*x)^(n*p*q)*Int[u*(a+b*x)^(n*p*q),x] /;
+FreeQ[{a,b,c,d,n,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[q]]
+
+
+(* ::Code:: *)
+Int[(a_.+b_.*F_[c_.*Sqrt[d_.+e_.*x_]/Sqrt[f_.+g_.*x_]])^n_./(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  g/C*Subst[Int[(a+b*F[c*x])^n/x,x],x,Sqrt[d+e*x]/Sqrt[f+g*x]] /;
+FreeQ[{a,b,c,d,e,f,g,A,B,C,F},x] && EqQ[e+g] && EqQ[d+f-2] && EqQ[A*e^2+C*d*f] && EqQ[2*C*(d-1)-B*e]
+
+
+(* ::Code:: *)
+Int[(a_.+b_.*F_[c_.*Sqrt[1+e_.*x_]/Sqrt[1+g_.*x_]])^n_./(A_.+C_.*x_^2),x_Symbol] :=
+  g/C*Subst[Int[(a+b*F[c*x])^n/x,x],x,Sqrt[1+e*x]/Sqrt[1+g*x]] /;
+FreeQ[{a,b,c,e,g,A,C,F},x] && EqQ[e+g] && EqQ[A*e^2+C]
+
+
+(* ::Code:: *)
+Int[(a_.+b_.*F_^(c_.*Sqrt[d_.+e_.*x_]/Sqrt[f_.+g_.*x_]))^n_./(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
+  g/C*Subst[Int[(a+b*F^(c*x))^n/x,x],x,Sqrt[d+e*x]/Sqrt[f+g*x]] /;
+FreeQ[{a,b,c,d,e,f,g,A,B,C,F},x] && EqQ[e+g] && EqQ[d+f-2] && EqQ[A*e^2+C*d*f] && EqQ[2*C*(d-1)-B*e]
+
+
+(* ::Code:: *)
+Int[(a_.+b_.*F_^(c_.*Sqrt[1+e_.*x_]/Sqrt[1+g_.*x_]))^n_./(A_.+C_.*x_^2),x_Symbol] :=
+  g/C*Subst[Int[(a+b*F^(c*x))^n/x,x],x,Sqrt[1+e*x]/Sqrt[1+g*x]] /;
+FreeQ[{a,b,c,e,g,A,C,F},x] && EqQ[e+g] && EqQ[A*e^2+C]
+
+
+(* ::Code:: *)
+Int[u_/y_,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+    q*Log[RemoveContent[y,x]] /;
+ Not[FalseQ[q]]]
+
+
+(* ::Code:: *)
+Int[u_/(y_*w_),x_Symbol] :=
+  With[{q=DerivativeDivides[y*w,u,x]},
+    q*Log[RemoveContent[y*w,x]] /;
+ Not[FalseQ[q]]]
+
+
+(* ::Code:: *)
+Int[u_*y_^m_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+   q*y^(m+1)/(m+1) /;
+ Not[FalseQ[q]]] /;
+FreeQ[m,x] && NeQ[m+1]
+
+
+(* ::Code:: *)
+Int[u_*y_^m_.*z_^n_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y*z,u*z^(n-m),x]},
+   q*y^(m+1)*z^(m+1)/(m+1) /;
+ Not[FalseQ[q]]] /;
+FreeQ[{m,n},x] && NeQ[m+1]
+
+
+(* ::Code:: *)
+Int[u_,x_Symbol] :=
+  With[{v=SimplifyIntegrand[u,x]},
+  Int[v,x] /;
+ SimplerIntegrandQ[v,u,x]]
+
+
+(* ::Code:: *)
+Int[u_.*(e_.*Sqrt[a_.+b_.*x_^n_.]+f_.*Sqrt[c_.+d_.*x_^n_.])^m_,x_Symbol] :=
+  (a*e^2-c*f^2)^m*Int[ExpandIntegrand[u*(e*Sqrt[a+b*x^n]-f*Sqrt[c+d*x^n])^(-m),x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NegativeIntegerQ[m] && EqQ[b*e^2-d*f^2]
+
+
+(* ::Code:: *)
+Int[u_.*(e_.*Sqrt[a_.+b_.*x_^n_.]+f_.*Sqrt[c_.+d_.*x_^n_.])^m_,x_Symbol] :=
+  (b*e^2-d*f^2)^m*Int[ExpandIntegrand[u*x^(m*n)*(e*Sqrt[a+b*x^n]-f*Sqrt[c+d*x^n])^(-m),x],x] /;
+FreeQ[{a,b,c,d,e,f,n},x] && NegativeIntegerQ[m] && EqQ[a*e^2-c*f^2]
+
+
+(* ::Code:: *)
+Int[u_^m_.*(a_.*u_^n_+v_)^p_.*w_,x_Symbol] :=
+  Int[u^(m+n*p)*(a+u^(-n)*v)^p*w,x] /;
+FreeQ[{a,m,n},x] && IntegerQ[p] && Not[PositiveQ[n]] && Not[FreeQ[v,x]]
+
+
+(* ::Code:: *)
+Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+   q*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,c,d,m,n},x] && EqQ[y-v]
+
+
+(* ::Code:: *)
+Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.*(e_.+f_.*w_)^p_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+   q*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[y-v] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.*(e_.+f_.*w_)^p_.*(g_.+h_.*z_)^q_.,x_Symbol] :=
+  With[{r=DerivativeDivides[y,u,x]},
+   r*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x,y] /;
+ Not[FalseQ[r]]] /;
+FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x] && EqQ[y-v] && EqQ[y-w] && EqQ[y-z]
+
+
+(* ::Code:: *)
+Int[u_.*(a_+b_.*y_^n_),x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+   a*Int[u,x] + b*q*Subst[Int[x^n,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,n},x]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*y_^n_)^p_,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+   q*Subst[Int[(a+b*x^n)^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,n,p},x]
+
+
+(* ::Code:: *)
+Int[u_.*v_^m_.*(a_.+b_.*y_^n_)^p_.,x_Symbol] :=
+  Module[{q,r},
+    q*r*Subst[Int[x^m*(a+b*x^n)^p,x],x,y] /;
+  Not[FalseQ[r=Divides[y^m,v^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
+FreeQ[{a,b,m,n,p},x]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*y_^n_+c_.*v_^n2_.)^p_,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+  q*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[y-v]
+
+
+(* ::Code:: *)
+Int[u_.*(A_+B_.*y_^n_)(a_.+b_.*v_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+  q*Subst[Int[(A+B*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,c,A,B,n,p},x] && EqQ[n2-2*n] && EqQ[y-v] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_.*(A_+B_.*y_^n_)(a_.+c_.*w_^n2_.)^p_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+  q*Subst[Int[(A+B*x^n)*(a+c*x^(2*n))^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,c,A,B,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_.*v_^m_.*(a_.+b_.*y_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
+  Module[{q,r},
+    q*r*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
+  Not[FalseQ[r=Divides[y^m,v^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
+FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_.*z_^m_.*(A_+B_.*y_^n_)*(a_.+b_.*v_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
+  Module[{q,r},
+    q*r*Subst[Int[x^m*(A+B*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
+  Not[FalseQ[r=Divides[y^m,z^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
+FreeQ[{a,b,c,A,B,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-v] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_.*z_^m_.*(A_+B_.*y_^n_)*(a_.+c_.*w_^n2_.)^p_.,x_Symbol] :=
+  Module[{q,r},
+    q*r*Subst[Int[x^m*(A+B*x^n)*(a+c*x^(2*n))^p,x],x,y] /;
+  Not[FalseQ[r=Divides[y^m,z^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
+FreeQ[{a,c,A,B,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*y_^n_)^m_.*(c_.+d_.*v_^n_)^p_.,x_Symbol] :=
+  With[{q=DerivativeDivides[y,u,x]},
+  q*Subst[Int[(a+b*x^n)^m*(c+d*x^n)^p,x],x,y] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{a,b,c,d,m,n,p},x] && EqQ[y-v]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*y_^n_)^m_.*(c_.+d_.*v_^n_)^p_.*(e_.+f_.*w_^n_)^q_.,x_Symbol] :=
+  With[{r=DerivativeDivides[y,u,x]},
+  r*Subst[Int[(a+b*x^n)^m*(c+d*x^n)^p*(e+f*x^n)^q,x],x,y] /;
+ Not[FalseQ[r]]] /;
+FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[y-v] && EqQ[y-w]
+
+
+(* ::Code:: *)
+Int[u_*F_^v_,x_Symbol] :=
+  With[{q=DerivativeDivides[v,u,x]},
+   q*F^v/Log[F] /;
+ Not[FalseQ[q]]] /;
+FreeQ[F,x]
+
+
+(* ::Code:: *)
+Int[u_*w_^m_.*F_^v_,x_Symbol] :=
+  With[{q=DerivativeDivides[v,u,x]},
+   q*Subst[Int[x^m*F^x,x],x,v] /;
+ Not[FalseQ[q]]] /;
+FreeQ[{F,m},x] && EqQ[w-v]
+
+
+(* ::Code:: *)
+Int[u_*(a_+b_.*v_^p_.*w_^p_.)^m_.,x_Symbol] :=
+  With[{c=Simplify[u/(w*D[v,x]+v*D[w,x])]},
+  c*Subst[Int[(a+b*x^p)^m,x],x,v*w] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p},x] && IntegerQ[p]
+
+
+(* ::Code:: *)
+Int[u_*(a_+b_.*v_^p_.*w_^q_.)^m_.*v_^r_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]+q*v*D[w,x])]},
+  c*p/(r+1)*Subst[Int[(a+b*x^(p/(r+1)))^m,x],x,v^(r+1)*w] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q,r},x] && EqQ[p-q*(r+1)] && NeQ[r+1] && IntegerQ[p/(r+1)]
+
+
+(* ::Code:: *)
+Int[u_*(a_+b_.*v_^p_.*w_^q_.)^m_.*v_^r_.*w_^s_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]+q*v*D[w,x])]},
+  c*p/(r+1)*Subst[Int[(a+b*x^(p/(r+1)))^m,x],x,v^(r+1)*w^(s+1)] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q,r,s},x] && EqQ[p*(s+1)-q*(r+1)] && NeQ[r+1] && IntegerQ[p/(r+1)]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
+  c*p*Subst[Int[(b+a*x^p)^m,x],x,v*w^(m*q+1)] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q},x] && EqQ[p+q*(m*p+1)] && IntegerQ[p] && IntegerQ[m]
+
+
+(* ::Code:: *)
+(* Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
+  -c*q*Subst[Int[(a+b*x^q)^m,x],x,v^(m*p+1)*w] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q},x] && EqQ[p+q*(m*p+1)] && IntegerQ[q] && IntegerQ[m] *)
+
+
+(* ::Code:: *)
+Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*v_^r_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
+  -c*q*Subst[Int[(a+b*x^q)^m,x],x,v^(m*p+r+1)*w] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q,r},x] && EqQ[p+q*(m*p+r+1)] && IntegerQ[q] && IntegerQ[m]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*w_^s_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
+  -c*q/(s+1)*Subst[Int[(a+b*x^(q/(s+1)))^m,x],x,v^(m*p+1)*w^(s+1)] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q,s},x] && EqQ[p*(s+1)+q*(m*p+1)] && NeQ[s+1] && IntegerQ[q/(s+1)] && IntegerQ[m]
+
+
+(* ::Code:: *)
+Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*v_^r_.*w_^s_.,x_Symbol] :=
+  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
+  -c*q/(s+1)*Subst[Int[(a+b*x^(q/(s+1)))^m,x],x,v^(m*p+r+1)*w^(s+1)] /;
+ FreeQ[c,x]] /;
+FreeQ[{a,b,m,p,q,r,s},x] && EqQ[p*(s+1)+q*(m*p+r+1)] && NeQ[s+1] && IntegerQ[q/(s+1)] && IntegerQ[m]
+
+
+(* ::Code:: *)
+Int[u_*x_^m_.,x_Symbol] :=
+  1/(m+1)*Subst[Int[SubstFor[x^(m+1),u,x],x],x,x^(m+1)] /;
+FreeQ[m,x] && NeQ[m+1] && FunctionOfQ[x^(m+1),u,x]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
+  ShowStep["","Int[F[(a+b*x)^(1/n),x],x]",
+			"n/b*Subst[Int[x^(n-1)*F[x,-a/b+x^n/b],x],x,(a+b*x)^(1/n)]",Hold[
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
+ Not[FalseQ[lst]] && SubstForFractionalPowerQ[u,lst[[3]],x]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
+ Not[FalseQ[lst]] && SubstForFractionalPowerQ[u,lst[[3]],x]]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfQuotientOfLinears[u,x]},
+  ShowStep["","Int[F[((a+b*x)/(c+d*x))^(1/n),x],x]",
+"n*(b*c-a*d)*Subst[Int[x^(n-1)*F[x,(-a+c*x^n)/(b-d*x^n)]/(b-d*x^n)^2,x],x,((a+b*x)/(c+d*x))^(1/n)]",Hold[
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
+ Not[FalseQ[lst]]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfQuotientOfLinears[u,x]},
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
+ Not[FalseQ[lst]]]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_^m_.*w_^n_.*z_^q_.)^p_,x_Symbol] :=
+  a^IntPart[p]*(a*v^m*w^n*z^q)^FracPart[p]/(v^(m*FracPart[p])*w^(n*FracPart[p])*z^(q*FracPart[p]))*Int[u*v^(m*p)*w^(n*p)*z^(p*q),x] /;
+FreeQ[{a,m,n,p,q},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[FreeQ[w,x]] && Not[FreeQ[z,x]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_^m_.*w_^n_.)^p_,x_Symbol] :=
+  a^IntPart[p]*(a*v^m*w^n)^FracPart[p]/(v^(m*FracPart[p])*w^(n*FracPart[p]))*Int[u*v^(m*p)*w^(n*p),x] /;
+FreeQ[{a,m,n,p},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[FreeQ[w,x]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*v_^m_.)^p_,x_Symbol] :=
+  a^IntPart[p]*(a*v^m)^FracPart[p]/v^(m*FracPart[p])*Int[u*v^(m*p),x] /;
+FreeQ[{a,m,p},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[EqQ[a,1] && EqQ[m,1]] && Not[EqQ[v,x] && EqQ[m,1]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^n_)^p_,x_Symbol] :=
+  FullSimplify[Sqrt[a+b*x^n]/(x^(n/2)*Sqrt[b+a/x^n])]*Int[u*x^(n*p)*(b+a*x^(-n))^p,x] /;
+FreeQ[{a,b,p},x] && IntegerQ[p+1/2] && NegativeIntegerQ[n] && Not[RationalFunctionQ[u,x]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*v_^n_)^p_,x_Symbol] :=
+  (a+b*v^n)^FracPart[p]/(v^(n*FracPart[p])*(b+a*v^(-n))^FracPart[p])*Int[u*v^(n*p)*(b+a*v^(-n))^p,x] /;
+FreeQ[{a,b,p},x] && Not[IntegerQ[p]] && NegativeIntegerQ[n] && BinomialQ[v,x] && Not[LinearQ[v,x]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^m_.*v_^n_)^p_,x_Symbol] :=
+  (a+b*x^m*v^n)^FracPart[p]/(v^(n*FracPart[p])*(b*x^m+a*v^(-n))^FracPart[p])*Int[u*v^(n*p)*(b*x^m+a*v^(-n))^p,x] /;
+FreeQ[{a,b,m,p},x] && Not[IntegerQ[p]] && NegativeIntegerQ[n] && BinomialQ[v,x]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.*x_^r_.+b_.*x_^s_.)^m_,x_Symbol] :=
+  With[{v=(a*x^r+b*x^s)^FracPart[m]/(x^(r*FracPart[m])*(a+b*x^(s-r))^FracPart[m])},
+  v*Int[u*x^(m*r)*(a+b*x^(s-r))^m,x] /;
+ Not[EqQ[Simplify[v],1]]] /;
+FreeQ[{a,b,m,r,s},x] && Not[IntegerQ[m]] && PosQ[s-r]
+
+
+(* ::Code:: *)
+Int[u_/(a_+b_.*x_^n_),x_Symbol] :=
+  With[{v=RationalFunctionExpand[u/(a+b*x^n),x]},
+  Int[v,x] /;
+ SumQ[v]] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[u_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
+  1/(4^p*c^p)*Int[u*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p] && Not[AlgebraicFunctionQ[u,x]]
+
+
+(* ::Code:: *)
+Int[u_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
+  (a+b*x^n+c*x^(2*n))^p/(b+2*c*x^n)^(2*p)*Int[u*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]] && Not[AlgebraicFunctionQ[u,x]]
+
+
+(* ::Code:: *)
+Int[u_/(a_.+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
+  With[{v=RationalFunctionExpand[u/(a+b*x^n+c*x^(2*n)),x]},
+  Int[v,x] /;
+ SumQ[v]] /;
+FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PositiveIntegerQ[n]
+
+
+(* ::Code:: *)
+Int[u_./(a_.*x_^m_.+b_.*Sqrt[c_.*x_^n_]),x_Symbol] :=
+  Int[u*(a*x^m-b*Sqrt[c*x^n])/(a^2*x^(2*m)-b^2*c*x^n),x] /;
+FreeQ[{a,b,c,m,n},x]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfLinear[u,x]},
+  ShowStep["","Int[F[a+b*x],x]","Subst[Int[F[x],x],x,a+b*x]/b",Hold[
+  Dist[1/lst[[3]],Subst[Int[lst[[1]],x],x,lst[[2]]+lst[[3]]*x],x]]] /;
+ Not[FalseQ[lst]]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfLinear[u,x]},
+  Dist[1/lst[[3]],Subst[Int[lst[[1]],x],x,lst[[2]]+lst[[3]]*x],x] /;
+ Not[FalseQ[lst]]]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_/x_,x_Symbol] :=
+  With[{lst=PowerVariableExpn[u,0,x]},
+  ShowStep["","Int[F[(c*x)^n]/x,x]","Subst[Int[F[x]/x,x],x,(c*x)^n]/n",Hold[
+  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]]]] /;
+ Not[FalseQ[lst]] && NeQ[lst[[2]]]] /;
+SimplifyFlag && NonsumQ[u] && Not[RationalFunctionQ[u,x]],
+
+Int[u_/x_,x_Symbol] :=
+  With[{lst=PowerVariableExpn[u,0,x]},
+  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]] /;
+ Not[FalseQ[lst]] && NeQ[lst[[2]]]] /;
+NonsumQ[u] && Not[RationalFunctionQ[u,x]]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_*x_^m_.,x_Symbol] :=
+  With[{lst=PowerVariableExpn[u,m+1,x]},
+  ShowStep["If g=GCD[m+1,n]>1,","Int[x^m*F[x^n],x]",
+		"1/g*Subst[Int[x^((m+1)/g-1)*F[x^(n/g)],x],x,x^g]",Hold[
+  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]]]] /;
+ Not[FalseQ[lst]] && NeQ[lst[[2]]-m-1]] /;
+SimplifyFlag && IntegerQ[m] && m!=-1 && NonsumQ[u] && (m>0 || Not[AlgebraicFunctionQ[u,x]]),
+
+Int[u_*x_^m_.,x_Symbol] :=
+  With[{lst=PowerVariableExpn[u,m+1,x]},
+  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]] /;
+ Not[FalseQ[lst]] && NeQ[lst[[2]]-m-1]] /;
+IntegerQ[m] && m!=-1 && NonsumQ[u] && (m>0 || Not[AlgebraicFunctionQ[u,x]])]
+
+
+(* ::Code:: *)
+Int[x_^m_*u_,x_Symbol] :=
+  With[{k=Denominator[m]},
+  k*Subst[Int[x^(k*(m+1)-1)*ReplaceAll[u,x->x^k],x],x,x^(1/k)]] /;
+FractionQ[m]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
+			"2*Subst[Int[F[(c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2),(-b+2*Sqrt[a]*x)/(c-x^2)]*
+				(c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2)^2,x],x,(-Sqrt[a]+Sqrt[a+b*x+c*x^2])/x]",
+			Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
+ Not[FalseQ[lst]] && lst[[3]]===1] /;
+SimplifyFlag && EulerIntegrandQ[u,x],
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
+ Not[FalseQ[lst]]] /;
+EulerIntegrandQ[u,x]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
+			"2*Subst[Int[F[(a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x),(-a+x^2)/(b+2*Sqrt[c]*x)]*
+				(a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x)^2,x],x,Sqrt[c]*x+Sqrt[a+b*x+c*x^2]]",
+			Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
+ Not[FalseQ[lst]] && lst[[3]]===2] /;
+SimplifyFlag && EulerIntegrandQ[u,x],
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
+ Not[FalseQ[lst]]] /;
+EulerIntegrandQ[u,x]]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
+		   "-2*Sqrt[b^2-4*a*c]*Subst[Int[F[-Sqrt[b^2-4*a*c]*x/(c-x^2),
+			  (b*c+c*Sqrt[b^2-4*a*c]+(-b+Sqrt[b^2-4*a*c])*x^2)/(-2*c*(c-x^2))]*x/(c-x^2)^2,x],
+			   x,2*c*Sqrt[a+b*x+c*x^2]/(b-Sqrt[b^2-4*a*c]+2*c*x)]",
+		   Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
+ Not[FalseQ[lst]] && lst[[3]]===3] /;
+SimplifyFlag && EulerIntegrandQ[u,x],
+
+Int[u_,x_Symbol] :=
+  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
+  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
+ Not[FalseQ[lst]]] /;
+EulerIntegrandQ[u,x]]
+
+
+(* ::Code:: *)
+Int[1/(a_+b_.*v_^2),x_Symbol] :=
+(*1/(2*a)*Int[Together[1/(1-Rt[-b/a,2]*v)],x] + 1/(2*a)*Int[Together[1/(1+Rt[-b/a,2]*v)],x] /; *)
+  1/(2*a)*Int[Together[1/(1-v/Rt[-a/b,2])],x] + 1/(2*a)*Int[Together[1/(1+v/Rt[-a/b,2])],x] /;
+FreeQ[{a,b},x]
+
+
+(* ::Code:: *)
+Int[1/(a_+b_.*v_^n_),x_Symbol] :=
+  Dist[2/(a*n),Sum[Int[Together[1/(1-v^2/((-1)^(4*k/n)*Rt[-a/b,n/2]))],x],{k,1,n/2}],x] /;
+FreeQ[{a,b},x] && IGtQ[n/2,1]
+
+
+(* ::Code:: *)
+Int[1/(a_+b_.*v_^n_),x_Symbol] :=
+  Dist[1/(a*n),Sum[Int[Together[1/(1-v/((-1)^(2*k/n)*Rt[-a/b,n]))],x],{k,1,n}],x] /;
+FreeQ[{a,b},x] && IGtQ[(n-1)/2,0]
+
+
+(* ::Code:: *)
+Int[v_/(a_+b_.*u_^n_.),x_Symbol] :=
+  Int[ReplaceAll[ExpandIntegrand[PolynomialInSubst[v,u,x]/(a+b*x^n),x],x->u],x] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[n] && PolynomialInQ[v,u,x]
+
+
+(* ::Code:: *)
+Int[u_,x_Symbol] :=
+  With[{v=NormalizeIntegrand[u,x]},
+  Int[v,x] /;
+ v=!=u]
+
+
+(* ::Code:: *)
+Int[u_,x_Symbol] :=
+  With[{v=ExpandIntegrand[u,x]},
+  Int[v,x] /;
+ SumQ[v]]
+
+
+(* ::Code:: *)
+Int[u_.*(a_.+b_.*x_^m_.)^p_.*(c_.+d_.*x_^n_.)^q_., x_Symbol] :=
+  (a+b*x^m)^p*(c+d*x^n)^q/x^(m*p)*Int[u*x^(m*p),x] /;
+FreeQ[{a,b,c,d,m,n,p,q},x] && EqQ[a+d] && EqQ[b+c] && EqQ[m+n] && EqQ[p+q]
+
+
+(* ::Code:: *)
+Int[u_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_, x_Symbol] :=
+  Sqrt[a+b*x^n+c*x^(2*n)]/((4*c)^(p-1/2)*(b+2*c*x^n))*Int[u*(b+2*c*x^n)^(2*p),x] /;
+FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p-1/2]
+
+
+(* ::Code:: *)
+If[ShowSteps,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
+  ShowStep["","Int[F[(a+b*x)^(1/n),x],x]",
+			"n/b*Subst[Int[x^(n-1)*F[x,-a/b+x^n/b],x],x,(a+b*x)^(1/n)]",Hold[
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
+ Not[FalseQ[lst]]] /;
+SimplifyFlag,
+
+Int[u_,x_Symbol] :=
+  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
+  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
+ Not[FalseQ[lst]]]]
+
+
+(* ::Code:: *)
+Int[u_,x_] := Defer[Int][u,x]
+
+
+
 `)
 
-func resourcesRubi111LinearBinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi111LinearBinomialProductsM, nil
-}
+func resourcesRubi94MiscellaneousIntegrationRulesMBytes() ([]byte, error) {
+	return _resourcesRubi94MiscellaneousIntegrationRulesM, nil
+}
+
+func resourcesRubi94MiscellaneousIntegrationRulesM() (*asset, error) {
+	bytes, err := resourcesRubi94MiscellaneousIntegrationRulesMBytes()
+	if err != nil {
+		return nil, err
+	}
+
+	info := bindataFileInfo{name: "resources/rubi/9.4 Miscellaneous integration rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
+	a := &asset{bytes: bytes, info: info}
+	return a, nil
+}
+
+var _resourcesRubiIntegrationUtilityFunctionsM = []byte(`(* ::Package:: *)
+
+(* ::Title:: *)
+(*Integration Utility Functions*)
+
+
+(* $TimeLimit is the time constraint in seconds on some potentially expensive routines. *) 
+If[Not[NumberQ[$TimeLimit]], $TimeLimit=5.0];
+
+
+(* ::Section::Closed:: *)
+(*IntHide[u,x]*)
+
+
+IntHide[u_,x_Symbol] :=
+  Block[{ShowSteps=False,$StepCounter=Null}, Int[u,x]]
+
+
+(* ::Section::Closed:: *)
+(*Mapping functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*MapAnd[u,x]*)
+
+
+(* MapAnd[f,l] applies f to the elements of list l until False is returned; else returns True *)
+MapAnd[f_,lst_] :=
+  Catch[Scan[Function[If[f[#],Null,Throw[False]]],lst];True]
+
+MapAnd[f_,lst_,x_] :=
+  Catch[Scan[Function[If[f[#,x],Null,Throw[False]]],lst];True]
+
+
+(* ::Subsection::Closed:: *)
+(*Map2[func,lst1,lst2]*)
+
+
+Map2[func_,lst1_,lst2_] :=
+  Module[{i},
+    ReapList[Do[Sow[func[lst1[[i]],lst2[[i]]]],{i,Length[lst1]}]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ReapList[u]*)
+
+
+ReapList[u_] :=
+  With[{lst=Reap[u][[2]]},
+  If[lst==={}, lst, lst[[1]]]]
+
+SetAttributes[ReapList,HoldFirst]
+
+
+(* ::Section::Closed:: *)
+(*Numerical type predicates*)
+
+
+(* ::Subsection::Closed:: *)
+(*FalseQ[u]*)
+
+
+FalseQ[u_] := u===False
+
+
+(* ::Subsection::Closed:: *)
+(*IntegersQ[u]*)
+
+
+(* IntegersQ[m,n,...] returns True if m, n, ... are all explicit integers; else it returns False. *)
+IntegersQ[u__] := Catch[Scan[Function[If[IntegerQ[#],Null,Throw[False]]],{u}]; True];
+
+
+(* ::Subsection::Closed:: *)
+(*PositiveIntegerQ[u]*)
+
+
+(* PositiveIntegerQ[m,n,...] returns True if m, n, ... are all explicit positive integers; else it returns False. *)
+PositiveIntegerQ[u__] := Catch[Scan[Function[If[IntegerQ[#] && #>0,Null,Throw[False]]],{u}]; True];
+
+
+(* ::Subsection::Closed:: *)
+(*NegativeIntegerQ[u]*)
+
+
+(* NegativeIntegerQ[m,n,...] returns True if m, n, ... are all explicit negative integers; else it returns False. *)
+NegativeIntegerQ[u__] := Catch[Scan[Function[If[IntegerQ[#] && #<0,Null,Throw[False]]],{u}]; True];
+
+
+(* ::Subsection::Closed:: *)
+(*FractionQ[u]*)
+
+
+(* FractionQ[m,n,...] returns True if m, n, ... are all explicit fractions; else it returns False. *)
+FractionQ[u__] := Catch[Scan[Function[If[Head[#]===Rational,Null,Throw[False]]],{u}]; True]
+
+
+(* ::Subsection::Closed:: *)
+(*RationalQ[u]*)
+
+
+(* RationalQ[m,n,...] returns True if m, n, ... are all explicit integers or fractions; else it returns False. *)
+RationalQ[u__] := Catch[Scan[Function[If[IntegerQ[#] || Head[#]===Rational,Null,Throw[False]]],{u}]; True]
+
+
+(* ::Subsection::Closed:: *)
+(*ComplexNumberQ[u]*)
+
+
+(* ComplexNumberQ[u] returns True if u is an explicit complex number; else it returns False. *)
+ComplexNumberQ[u_] := Head[u]===Complex
+
+
+(* ::Subsection::Closed:: *)
+(*RealNumericQ[u]*)
+
+
+(* RealNumericQ[u] returns True if u is a real numeric quantity, else returns False. *)
+RealNumericQ[u_] := NumericQ[u] && (EqQ[Im[u],0] || EqQ[Im[N[u]],0])
+
+
+(* ::Subsection::Closed:: *)
+(*PositiveQ[u]*)
+
+
+(* PositiveQ[u] returns True if u is a positive numeric quantity, else returns False. *)
+PositiveQ[u_] :=
+  With[{v=Simplify[u]},
+  RealNumericQ[v] && Re[N[v]]>0]
+
+
+(* ::Subsection::Closed:: *)
+(*NegativeQ[u]*)
+
+
+(* NegativeQ[u] returns True if u is a negative numeric quantity, else returns False. *)
+NegativeQ[u_] :=
+  With[{v=Simplify[u]},
+  RealNumericQ[v] && Re[N[v]]<0]
+
+
+(* ::Subsection::Closed:: *)
+(*FractionOrNegativeQ[u]*)
+
+
+(* FractionOrNegativeQ[u] returns True if u is a fraction or negative number; else returns False *)
+FractionOrNegativeQ[u__] := Catch[Scan[Function[If[FractionQ[#] || IntegerQ[#] && #<0,Null,Throw[False]]],{u}]; True]
+
+
+(* ::Subsection::Closed:: *)
+(*SqrtNumberQ[u]*)
+
+
+(* SqrtNumberQ[u] returns True if u^2 is a rational number; else it returns False. *)
+SqrtNumberQ[m_^n_] :=
+  IntegerQ[n] && SqrtNumberQ[m] || IntegerQ[n-1/2] && RationalQ[m]
+
+
+SqrtNumberQ[u_*v_] :=
+  SqrtNumberQ[u] && SqrtNumberQ[v]
+
+
+SqrtNumberQ[u_] :=
+  RationalQ[u] || u===I
+
+
+(* ::Subsection::Closed:: *)
+(*SqrtNumberSumQ[u]*)
+
+
+SqrtNumberSumQ[u_] :=
+  SumQ[u] && SqrtNumberQ[First[u]] && SqrtNumberQ[Rest[u]] || 
+  ProductQ[u] && SqrtNumberQ[First[u]] && SqrtNumberSumQ[Rest[u]]
+
+
+(* ::Subsection::Closed:: *)
+(*IndependentQ[u,x]*)
+
+
+IndependentQ[u_,x_] :=
+  FreeQ[u,x]
+
+
+(* ::Subsection::Closed:: *)
+(*NotIntegrableQ[u,x]*)
+
+
+(* NotIntegrableQ[u,x] returns True if u is definitely not integrable wrt x; else it returns 
+	False if u is, or might be, integrable wrt x. *)
+NotIntegrableQ[u_,x_Symbol] :=
+  MatchQ[u,x^m_*Log[a_+b_.*x]^n_ /; FreeQ[{a,b},x] && IntegersQ[m,n] && m<0 && n<0] ||
+  MatchQ[u,f_[x^m_.*Log[a_.+b_.*x]] /; FreeQ[{a,b},x] && IntegerQ[m] && (TrigQ[f] || HyperbolicQ[f])]
+
+
+(* ::Section::Closed:: *)
+(*Expression type predicates*)
+
+
+(* ::Subsection::Closed:: *)
+(*PowerQ[u]*)
+
+
+(* If u is a power, SumQ[u] returns True; else it returns False. *)
+PowerQ[u_] := Head[u]===Power
+
+
+(* ::Subsection::Closed:: *)
+(*ProductQ[u]*)
+
+
+(* If u is a product, SumQ[u] returns True; else it returns False. *)
+ProductQ[u_] := Head[u]===Times
+
+
+(* ::Subsection::Closed:: *)
+(*SumQ[u]*)
+
+
+(* If u is a sum, SumQ[u] returns True; else it returns False. *)
+SumQ[u_] := Head[u]===Plus
+
+
+(* ::Subsection::Closed:: *)
+(*NonsumQ[u]*)
+
+
+(* If u is not a sum, NonsumQ[u] returns True; else it returns False. *)
+NonsumQ[u_] := Head[u]=!=Plus
+
+
+(* ::Subsection::Closed:: *)
+(*IntegerPowerQ[u]*)
+
+
+IntegerPowerQ[u_] :=
+  PowerQ[u] && IntegerQ[u[[2]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PositiveIntegerPowerQ[u]*)
+
+
+PositiveIntegerPowerQ[u_] :=
+  PowerQ[u] && IntegerQ[u[[2]]] && u[[2]]>0
+
+
+(* ::Subsection::Closed:: *)
+(*FractionalPowerQ[u]*)
+
+
+FractionalPowerQ[u_] :=
+  PowerQ[u] && FractionQ[u[[2]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FractionalPowerFreeQ[u]*)
+
+
+FractionalPowerFreeQ[u_] :=
+  If[AtomQ[u],
+    True,
+  If[FractionalPowerQ[u] && Not[AtomQ[u[[1]]]],
+    False,
+  Catch[Scan[Function[If[FractionalPowerFreeQ[#],Null,Throw[False]]],u];True]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ComplexFreeQ[u]*)
+
+
+ComplexFreeQ[u_] :=
+  If[AtomQ[u],
+    Not[ComplexNumberQ[u]],
+  Catch[Scan[Function[If[ComplexFreeQ[#],Null,Throw[False]]],u];True]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpQ[u]*)
+
+
+ExpQ[u_] := PowerQ[u] && u[[1]]===E
+
+
+(* ::Subsection::Closed:: *)
+(*LogQ[u]*)
+
+
+(* If u is an expression of the form Log[v], LogQ[u] returns True; else it returns False. *)
+LogQ[u_] := Head[u]===Log
+
+
+(* ::Subsection::Closed:: *)
+(*TrigQ[u]*)
+
+
+(* TrigQ[u] returns True if u or the head of u is a trig function; else returns False *)
+TrigQ[u_] :=
+  MemberQ[{Sin,Cos,Tan,Cot,Sec,Csc},If[AtomQ[u],u,Head[u]]]
+
+
+SinQ[u_] := Head[u]===Sin
+
+CosQ[u_] := Head[u]===Cos
+
+TanQ[u_] := Head[u]===Tan
+
+CotQ[u_] := Head[u]===Cot
+
+SecQ[u_] := Head[u]===Sec
+
+CscQ[u_] := Head[u]===Csc
+
+
+(* ::Subsection::Closed:: *)
+(*HyperbolicQ[u]*)
+
+
+(* HyperbolicQ[u] returns True if u or the head of u is a trig function; else returns False *)
+HyperbolicQ[u_] :=
+  MemberQ[{Sinh,Cosh,Tanh,Coth,Sech,Csch},If[AtomQ[u],u,Head[u]]]
+
+
+SinhQ[u_] := Head[u]===Sinh
+
+CoshQ[u_] := Head[u]===Cosh
+
+TanhQ[u_] := Head[u]===Tanh
+
+CothQ[u_] := Head[u]===Coth
+
+SechQ[u_] := Head[u]===Sech
+
+CschQ[u_] := Head[u]===Csch
+
+
+(* ::Subsection::Closed:: *)
+(*InverseTrigQ[u]*)
+
+
+(* InverseTrigQ[u] returns True if u or the head of u is an inverse trig function; else returns False *)
+InverseTrigQ[u_] :=
+  MemberQ[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc},If[AtomQ[u],u,Head[u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*InverseHyperbolicQ[u]*)
+
+
+(* InverseHyperbolicQ[u] returns True if u or the head of u is an inverse trig function; else returns False *)
+InverseHyperbolicQ[u_] :=
+  MemberQ[{ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},If[AtomQ[u],u,Head[u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SinCosQ[u]*)
+
+
+SinCosQ[f_] :=
+  MemberQ[{Sin,Cos,Sec,Csc},f]
+
+
+(* ::Subsection::Closed:: *)
+(*SinhCoshQ[u]*)
+
+
+SinhCoshQ[f_] :=
+  MemberQ[{Sinh,Cosh,Sech,Csch},f]
+
+
+(* ::Subsection::Closed:: *)
+(*CalculusQ[u]*)
+
+
+CalculusFunctions={D,Integrate,Sum,Product,Int,Dif,Subst};
+
+(* CalculusQ[u] returns True if the head of u is a calculus function; else returns False *)
+CalculusQ[u_] :=
+  MemberQ[CalculusFunctions,Head[u]]
+
+CalculusFreeQ[u_,x_] :=
+  If[AtomQ[u],
+    True,
+  If[CalculusQ[u] && u[[2]]===x || HeldFormQ[u],
+    False,
+  Catch[Scan[Function[If[CalculusFreeQ[#,x],Null,Throw[False]]],u];True]]]
+
+
+HeldFormQ[u_] :=
+  If[AtomQ[Head[u]],
+    MemberQ[{Hold,HoldForm,Defer,Pattern},Head[u]],
+  HeldFormQ[Head[u]]]
+
+
+(* InverseFunctionQ[u] returns True if u is a call on an inverse function; else returns False. *)
+InverseFunctionQ[u_] :=
+  LogQ[u] || InverseTrigQ[u] && Length[u]<=1 || InverseHyperbolicQ[u] || Head[u]===Mods  || Head[u]===PolyLog 
+
+
+(* If u is free of trig, hyperbolic and calculus functions involving x,
+	TrigHyperbolicFreeQ[u,x] returns true; else it returns False. *)
+TrigHyperbolicFreeQ[u_,x_Symbol] :=
+  If[AtomQ[u],
+    True,
+  If[TrigQ[u] || HyperbolicQ[u] || CalculusQ[u],
+    FreeQ[u,x],
+  Catch[Scan[Function[If[TrigHyperbolicFreeQ[#,x],Null,Throw[False]]],u];True]]]
+
+
+(* If u is free of inverse, calculus and hypergeometric functions involving x,
+	InverseFunctionFreeQ[u,x] returns true; else it returns False. *)
+InverseFunctionFreeQ[u_,x_Symbol] :=
+  If[AtomQ[u],
+    True,
+  If[InverseFunctionQ[u] || CalculusQ[u] || Head[u]===Hypergeometric2F1 || Head[u]===AppellF1,
+    FreeQ[u,x],
+  Catch[Scan[Function[If[InverseFunctionFreeQ[#,x],Null,Throw[False]]],u];True]]]
+
+
+(* ElementaryExpressionQ[u] returns True if u is a sum, product, or power and all the operands
+	are elementary expressions; or if u is a call on a trig, hyperbolic, or inverse function
+	and all the arguments are elementary expressions; else it returns False. *)
+(* ElementaryFunctionQ[u_] :=
+  If[AtomQ[u],
+    True,
+  If[SumQ[u] || ProductQ[u] || PowerQ[u] || TrigQ[u] || HyperbolicQ[u] || InverseFunctionQ[u],
+    Catch[Scan[Function[If[ElementaryFunctionQ[#],Null,Throw[False]]],u];True],
+  False]] *)
+
+
+(* ::Section::Closed:: *)
+(*Equality and inequality predicates*)
+
+
+(* ::Subsection::Closed:: *)
+(*Equality predicates*)
+
+
+(* If u-v equals 0, EqQ[u,v] returns True; else it returns False. *)
+EqQ[u_] := Quiet[PossibleZeroQ[u]]
+
+EqQ[u_,v_] := Quiet[PossibleZeroQ[u-v]]
+
+
+(* If u-v equals 0, EqQ[u,v] returns False; else it returns True. *)
+NeQ[u_] := Not[Quiet[PossibleZeroQ[u]]]
+
+NeQ[u_,v_] := Not[Quiet[PossibleZeroQ[u-v]]]
+
+
+(* ::Subsection::Closed:: *)
+(*Integer inequality predicates*)
+
+
+(* num is a rational.  If u is an integer and u>n, IGtQ[u,n] returns True; else it returns False. *)
+IGtQ[u_,n_] := IntegerQ[u] && u>n
+
+
+(* num is a rational.  If u is an integer and u<n, ILtQ[u,n] returns True; else it returns False. *)
+ILtQ[u_,n_] := IntegerQ[u] && u<n
+
+
+(* num is a rational.  If u is an integer and u>=n, IGeQ[u,n] returns True; else it returns False. *)
+IGeQ[u_,n_] := IntegerQ[u] && u>=n
+
+
+(* num is a rational.  If u is an integer and u<=n, ILeQ[u,n] returns True; else it returns False. *)
+ILeQ[u_,n_] := IntegerQ[u] && u<=n
+
+
+(* ::Subsection::Closed:: *)
+(*Numeric inequality predicates*)
+
+
+(* num is a rational.  If u is a rational and u>n, GtQ[u,n] returns True; else it returns False. *)
+GtQ[u_,n_] := RationalQ[u] && u>n
+
+
+(* num is a rational.  If u is a rational and u<n, LtQ[u,n] returns True; else it returns False. *)
+LtQ[u_,n_] := RationalQ[u] && u<n
+
+
+(* num is a rational.  If u is a rational and u>=n, GeQ[u,n] returns True; else it returns False. *)
+GeQ[u_,n_] := RationalQ[u] && u>=n
+
+
+(* num is a rational.  If u is a rational and u<=n, LeQ[u,n] returns True; else it returns False. *)
+LeQ[u_,n_] := RationalQ[u] && u<=n
+
+
+(* ::Section::Closed:: *)
+(*Multinomial predicates*)
+
+
+(* ::Subsection::Closed:: *)
+(*PolyQ[u,x]*)
+
+
+(* PolyQ[u,x,n] returns True iff u is a polynomial of degree n. *)
+PolyQ[u_,x_Symbol,n_Integer] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[PolyQ[#,x,n]],Throw[False]]],u]; True],
+  PolynomialQ[u,x] && Exponent[u,x]==n && Coefficient[u,x,n]=!=0]
+
+
+(* Mathematica's built-in PolynomialQ, Exponent and Coefficient functions can return erroneous results because they do not *)
+(* cancel the gcd in pseudo-rational functions that are actually polynomial. *)
+(* For some unfully expanded polynomials, the built-in Mathematica function Exponent sometimes returns erronously large degrees. *)
+(* For example, Exponent[3*(1+a)*x^4 + 3*x^5 + x^6 - (a+x+x^2)^3, x] incorrectly returns 4 instead of 3. *)
+(* Despite what the online help says, PolynomialQ[u,x] returns an error message if x is not a symbol or *)
+(* a symbol raised to a symbol power. *)
+
+
+(* If u is a polynomial in x,PolyQ[u,x] returns True; else it returns False. *)
+PolyQ[u_,x_Symbol] :=
+  PolynomialQ[u,x] || PolynomialQ[Together[u],x]
+
+PolyQ[u_,x_Symbol^n_] :=
+  If[PositiveIntegerQ[n],
+    PolyQ[u,x] && (PolynomialQ[u,x^n] || PolynomialQ[Together[u],x^n]),
+  If[AtomQ[n],
+    PolynomialQ[u,x^n] && FreeQ[CoefficientList[u,x^n],x],
+  False]] /;
+FreeQ[n,x]
+
+PolyQ[u_,u_] :=
+  False
+
+
+(* ::Subsection::Closed:: *)
+(*ProperPolyQ[u,x]*)
+
+
+(* If u is a polynomial in x and the constant term is nonzero, ProperPolyQ[u,x] returns True; else it returns False. *)
+ProperPolyQ[u_,x_Symbol] :=
+  PolyQ[u,x] && NeQ[Coeff[u,x,0],0]
+
+
+(* ::Subsection::Closed:: *)
+(*BinomialQ[u,x]*)
+
+
+(* If u is equivalent to an expression of the form a+b*x^n where n and b are not 0, *)
+(* BinomialQ[u,x] returns True; else it returns False. *)
+BinomialQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[BinomialQ[#,x]],Throw[False]]],u]; True],
+  ListQ[BinomialParts[u,x]]]
+
+
+(* If u is equivalent to an expression of the form a+b*x^n, BinomialQ[u,x,n] returns True; else it returns False. *)
+BinomialQ[u_,x_Symbol,n_] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[BinomialQ[#,x,n]],Throw[False]]],u]; True],
+  Function[ListQ[#] && #[[3]]===n][BinomialParts[u,x]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TrinomialQ[u,x]*)
+
+
+(* If u is equivalent to an expression of the form a+b*x^n+c*x^(2*n) where n, b and c are not 0, *)
+(* TrinomialQ[u,x] returns True; else it returns False. *)
+TrinomialQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[TrinomialQ[#,x]],Throw[False]]],u]; True],
+  ListQ[TrinomialParts[u,x]] && Not[QuadraticQ[u,x]] && Not[MatchQ[u,w_^2 /; BinomialQ[w,x]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*GeneralizedBinomialQ[u,x]*)
+
+
+(* If u is equivalent to an expression of the form a*x^q+b*x^n where n, q and b are not 0, *)
+(* GeneralizedBinomialQ[u,x] returns True; else it returns False. *)
+GeneralizedBinomialQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[GeneralizedBinomialQ[#,x]],Throw[False]]],u]; True],
+  ListQ[GeneralizedBinomialParts[u,x]]]
+
+
+(* ::Subsection::Closed:: *)
+(*GeneralizedTrinomialQ[u,x]*)
+
+
+(* If u is equivalent to an expression of the form a*x^q+b*x^n+c*x^(2*n-q) where n, q, b and c are not 0, *)
+(* GeneralizedTrinomialQ[u,x] returns True; else it returns False. *)
+GeneralizedTrinomialQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[GeneralizedTrinomialQ[#,x]],Throw[False]]],u]; True],
+  ListQ[GeneralizedTrinomialParts[u,x]]]
+
+
+(* ::Section::Closed:: *)
+(*Expression form predicates*)
+
+
+(* ::Subsection::Closed:: *)
+(*PosQ[u]*)
+
+
+(* If u is not 0 and has a positive form, PosQ[u] returns True, else it returns False. *)
+PosQ[u_] :=
+  PosAux[TogetherSimplify[u]]
+
+PosAux[u_] :=
+  If[RationalQ[u],
+    u>0,
+  If[NumberQ[u],
+    If[EqQ[Re[u],0],
+      Im[u]>0,
+    Re[u]>0],
+  If[PowerQ[u],
+    If[IntegerQ[u[[2]]],
+      EvenQ[u[[2]]] || PosAux[u[[1]]],
+    True],
+  If[ProductQ[u],
+    If[PosAux[First[u]],
+      PosAux[Rest[u]],
+    Not[PosAux[Rest[u]]]],
+  If[NumericQ[u],
+    With[{v=N[u]},
+    If[EqQ[Re[v],0],
+      Im[v]>0,
+    Re[v]>0]],
+  If[SumQ[u],
+    PosAux[First[u]],
+  True]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*NegQ[u]*)
+
+
+NegQ[u_] :=
+  Not[PosQ[u]] && NeQ[u,0]
+
+
+(* ::Subsection::Closed:: *)
+(*NiceSqrtQ[u]*)
+
+
+NiceSqrtQ[u_] :=
+  Not[NegativeQ[u]] && NiceSqrtAuxQ[u]
+
+NiceSqrtAuxQ[u_] :=
+  If[RationalQ[u],
+    u>0,
+  If[PowerQ[u],
+    EvenQ[u[[2]]],
+  If[ProductQ[u],
+    NiceSqrtAuxQ[First[u]] && NiceSqrtAuxQ[Rest[u]],
+  If[SumQ[u],
+    Function[NonsumQ[#] && NiceSqrtAuxQ[#]] [Simplify[u]],
+  False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PerfectSquareQ[u]*)
+
+
+(* If u is a rational number whose squareroot is rational or if u is of the form u1^n1 u2^n2 ... 
+	and n1, n2, ... are even, PerfectSquareQ[u] returns True; else it returns False. *)
+PerfectSquareQ[u_] :=
+  If[RationalQ[u],
+    u>0 && RationalQ[Sqrt[u]],
+  If[PowerQ[u],
+    EvenQ[u[[2]]],
+  If[ProductQ[u],
+    PerfectSquareQ[First[u]] && PerfectSquareQ[Rest[u]],
+  If[SumQ[u],
+    Function[NonsumQ[#] && PerfectSquareQ[#]] [Simplify[u]],
+  False]]]]
+
+
+(* ::Section::Closed:: *)
+(*Simpler functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*SimplerQ[u,v]*)
+
+
+(* If u is simpler than v, SimplerQ[u,v] returns True, else it returns False.  SimplerQ[u,u] returns False. *)
+SimplerQ[u_,v_] :=
+  If[IntegerQ[u],
+    If[IntegerQ[v],
+      If[u==v,
+        False,
+      If[u==-v,
+        v<0,
+      Abs[u]<Abs[v]]],
+    True],
+  If[IntegerQ[v],
+    False,
+  If[FractionQ[u],
+    If[FractionQ[v],
+      If[Denominator[u]==Denominator[v],
+        SimplerQ[Numerator[u],Numerator[v]],
+      Denominator[u]<Denominator[v]],
+    True],
+  If[FractionQ[v],
+    False,
+  If[(Re[u]===0 || Re[u]===0.0) && (Re[v]===0 || Re[v]===0.0),
+    SimplerQ[Im[u],Im[v]],
+  If[ComplexNumberQ[u],
+    If[ComplexNumberQ[v],
+      If[Re[u]==Re[v],
+        SimplerQ[Im[u],Im[v]],
+      SimplerQ[Re[u],Re[v]]],
+    False],
+  If[NumberQ[u],
+    If[NumberQ[v],
+      OrderedQ[{u,v}],
+    True],
+  If[NumberQ[v],
+    False,
+  If[AtomQ[u],
+    If[AtomQ[v],
+      OrderedQ[{u,v}],
+    True],
+  If[AtomQ[v],
+    False,
+  If[Head[u]===Head[v],
+    If[Length[u]==Length[v],
+      Catch[Do[If[u[[ii]]===v[[ii]],Null,Throw[SimplerQ[u[[ii]],v[[ii]]]]],{ii,Length[u]}]; False],
+    Length[u]<Length[v]],
+  If[LeafCount[u]<LeafCount[v],
+    True,
+  If[LeafCount[v]<LeafCount[u],
+    False,
+  Not[OrderedQ[{v,u}]]]]]]]]]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SimplerSqrtQ[u,v]*)
+
+
+(* If Rt[u,2] is simpler than Rt[v,2], SimplerSqrtQ[u,v] returns True, else it returns False.  SimplerSqrtQ[u,u] returns False. *)
+SimplerSqrtQ[u_,v_] :=
+  If[NegativeQ[v] && Not[NegativeQ[u]],
+    True,
+  If[NegativeQ[u] && Not[NegativeQ[v]],
+    False,
+  With[{sqrtu=Rt[u,2],sqrtv=Rt[v,2]},
+  If[IntegerQ[sqrtu],
+    If[IntegerQ[sqrtv],
+      sqrtu<sqrtv,
+    True],
+  If[IntegerQ[sqrtv],
+    False,
+  If[RationalQ[sqrtu],
+    If[RationalQ[sqrtv],
+      sqrtu<sqrtv,
+    True],
+  If[RationalQ[sqrtv],
+    False,
+  If[PosQ[u],
+    If[PosQ[v],
+      LeafCount[sqrtu]<LeafCount[sqrtv],
+    True],
+  If[PosQ[v],
+    False,
+  If[LeafCount[sqrtu]<LeafCount[sqrtv],
+    True,
+  If[LeafCount[sqrtv]<LeafCount[sqrtu],
+    False,
+  Not[OrderedQ[{v,u}]]]]]]]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SumSimplerQ[u,v]*)
+
+
+(* If u+v is simpler than u, SumSimplerQ[u,v] returns True, else it returns False. *)
+(* If for every term w of v there is a term of u equal to n*w where n<-1/2, u+v will be simpler than u. *)
+SumSimplerQ[u_,v_] :=
+  If[RationalQ[u,v],
+    If[v==0,
+      False,
+    If[v>0,
+      u<-1,
+    u>=-v]],
+  SumSimplerAuxQ[Expand[u],Expand[v]]]
+
+
+SumSimplerAuxQ[u_,v_] :=
+  (RationalQ[First[v]] || SumSimplerAuxQ[u,First[v]]) && 
+  (RationalQ[Rest[v]] || SumSimplerAuxQ[u,Rest[v]]) /;
+SumQ[v]
+
+SumSimplerAuxQ[u_,v_] :=
+  SumSimplerAuxQ[First[u],v] || SumSimplerAuxQ[Rest[u],v] /;
+SumQ[u]
+
+SumSimplerAuxQ[u_,v_] :=
+  v=!=0 && 
+  NonnumericFactors[u]===NonnumericFactors[v] && 
+  (NumericFactor[u]/NumericFactor[v]<-1/2 || NumericFactor[u]/NumericFactor[v]==-1/2 && NumericFactor[u]<0)  
+
+
+(* ::Subsection::Closed:: *)
+(*SimplerIntegrandQ[u,v,x]*)
+
+
+(* SimplerIntegrandQ[u,v,x] returns True iff u is simpler to integrate wrt x than v. *)
+SimplerIntegrandQ[u_,v_,x_Symbol] :=
+  Module[{lst=CancelCommonFactors[u,v],u1,v1},
+  u1=lst[[1]];
+  v1=lst[[2]];
+(*If[Head[u1]===Head[v1] && Length[u1]==Length[v1]==1,
+    SimplerIntegrandQ[u1[[1]],v1[[1]],x], *)
+  If[LeafCount[u1]<3/4*LeafCount[v1],
+    True,
+  If[RationalFunctionQ[u1,x],
+    If[RationalFunctionQ[v1,x],
+      Apply[Plus,RationalFunctionExponents[u1,x]]<Apply[Plus,RationalFunctionExponents[v1,x]],
+    True],
+  False]]]
+
+
+(* CancelCommonFactors[u,v] returns {u',v'} are the noncommon factors of u and v respectively. *)
+CancelCommonFactors[u_,v_] :=
+  If[ProductQ[u],
+    If[ProductQ[v],
+      If[MemberQ[v,First[u]],
+        CancelCommonFactors[Rest[u],DeleteCases[v,First[u],1,1]],
+      Function[{First[u]*#[[1]],#[[2]]}][CancelCommonFactors[Rest[u],v]]],
+    If[MemberQ[u,v],
+      {DeleteCases[u,v,1,1],1},
+    {u,v}]],
+  If[ProductQ[v],
+    If[MemberQ[v,u],
+      {1,DeleteCases[v,u,1,1]},
+    {u,v}],
+  {u,v}]]
+
+
+(* ::Section::Closed:: *)
+(*Parts functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*BinomialParts[u,x]*)
+
+
+(* u is a binomial. BinomialDegree[u,x] returns the degree of x in u. *)
+BinomialDegree[u_,x_Symbol] :=
+  BinomialParts[u,x][[3]]
+
+
+(* If u[x] is equivalent to an expression of the form a+b*x^n where n!=0 and b!=0,
+	BinomialParts[u,x] returns the list {a,b,n}; else it returns False. *)
+BinomialParts[u_,x_Symbol] :=
+  If[PolynomialQ[u,x],
+    If[Exponent[u,x]>0,
+      With[{lst=Exponent[u,x,List]},
+        If[Length[lst]==1,
+          {0, Coefficient[u,x,Exponent[u,x]], Exponent[u,x]},
+        If[Length[lst]==2 && lst[[1]]==0,
+          {Coefficient[u,x,0], Coefficient[u,x,Exponent[u,x]], Exponent[u,x]},
+        False]]],
+    False],
+  If[PowerQ[u],
+    If[u[[1]]===x && FreeQ[u[[2]],x],
+      {0,1,u[[2]]},
+    False],
+  If[ProductQ[u],
+    If[FreeQ[First[u],x],
+      With[{lst2=BinomialParts[Rest[u],x]},
+      If[AtomQ[lst2],
+        False,
+      {First[u]*lst2[[1]],First[u]*lst2[[2]],lst2[[3]]}]],
+    If[FreeQ[Rest[u],x],
+      With[{lst1=BinomialParts[First[u],x]},
+      If[AtomQ[lst1],
+        False,
+      {Rest[u]*lst1[[1]],Rest[u]*lst1[[2]],lst1[[3]]}]],
+    With[{lst1=BinomialParts[First[u],x]},
+    If[AtomQ[lst1],
+      False,
+    With[{lst2=BinomialParts[Rest[u],x]},
+    If[AtomQ[lst2],
+      False,
+    With[{a=lst1[[1]],b=lst1[[2]],m=lst1[[3]], c=lst2[[1]],d=lst2[[2]],n=lst2[[3]]},
+    If[EqQ[a,0],
+      If[EqQ[c,0],
+        {0,b*d,m+n},
+      If[EqQ[m+n,0],
+        {b*d,b*c,m},
+      False]],
+    If[EqQ[c,0],
+      If[EqQ[m+n,0],
+        {b*d,a*d,n},
+      False],
+    If[EqQ[m,n] && EqQ[a*d+b*c,0],
+      {a*c,b*d,2*m},
+    False]]]]]]]]]],
+  If[SumQ[u],
+    If[FreeQ[First[u],x],
+     With[{lst2=BinomialParts[Rest[u],x]},
+      If[AtomQ[lst2],
+        False,
+      {First[u]+lst2[[1]],lst2[[2]],lst2[[3]]}]],
+    If[FreeQ[Rest[u],x],
+      With[{lst1=BinomialParts[First[u],x]},
+      If[AtomQ[lst1],
+        False,
+      {Rest[u]+lst1[[1]],lst1[[2]],lst1[[3]]}]],
+    With[{lst1=BinomialParts[First[u],x]},
+    If[AtomQ[lst1],
+      False,
+    With[{lst2=BinomialParts[Rest[u],x]},
+    If[AtomQ[lst2],
+      False,
+    If[EqQ[lst1[[3]],lst2[[3]]],
+      {lst1[[1]]+lst2[[1]],lst1[[2]]+lst2[[2]],lst1[[3]]},
+    False]]]]]]],
+  False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TrinomialParts[u,x]*)
+
+
+(* If u is equivalent to a trinomial of the form a + b*x^n + c*x^(2*n) where n!=0, b!=0 and c!=0, 
+	TrinomialDegree[u,x] returns n. *)
+TrinomialDegree[u_,x_Symbol] :=
+  TrinomialParts[u,x][[4]]
+
+
+(* If u is equivalent to a trinomial of the form a + b*x^n + c*x^(2*n) where n!=0, b!=0 and c!=0,
+	TrinomialParts[u,x] returns the list {a,b,c,n}; else it returns False. *)
+TrinomialParts[u_,x_Symbol] :=
+  If[PolynomialQ[u,x],
+    With[{lst=CoefficientList[u,x]},
+    If[Length[lst]<3 || EvenQ[Length[lst]] || EqQ[lst[[(Length[lst]+1)/2]],0],
+      False,
+    Catch[
+      Scan[Function[If[EqQ[#,0],Null,Throw[False]]],Drop[Drop[Drop[lst,{(Length[lst]+1)/2}],1],-1]];
+      {First[lst],lst[[(Length[lst]+1)/2]],Last[lst],(Length[lst]-1)/2}]]],
+  If[PowerQ[u],
+    If[EqQ[u[[2]],2],
+      With[{lst=BinomialParts[u[[1]],x]},
+      If[AtomQ[lst] || EqQ[lst[[1]],0],
+        False,
+      {lst[[1]]^2,2*lst[[1]]*lst[[2]],lst[[2]]^2,lst[[3]]}]],
+    False],
+  If[ProductQ[u],
+    If[FreeQ[First[u],x],
+      With[{lst2=TrinomialParts[Rest[u],x]},
+      If[AtomQ[lst2],
+        False,
+      {First[u]*lst2[[1]],First[u]*lst2[[2]],First[u]*lst2[[3]],lst2[[4]]}]],
+    If[FreeQ[Rest[u],x],
+      With[{lst1=TrinomialParts[First[u],x]},
+      If[AtomQ[lst1],
+        False,
+      {Rest[u]*lst1[[1]],Rest[u]*lst1[[2]],Rest[u]*lst1[[3]],lst1[[4]]}]],
+    With[{lst1=BinomialParts[First[u],x]},
+    If[AtomQ[lst1],
+      False,
+    With[{lst2=BinomialParts[Rest[u],x]},
+    If[AtomQ[lst2],
+      False,
+    With[{a=lst1[[1]],b=lst1[[2]],m=lst1[[3]], c=lst2[[1]],d=lst2[[2]],n=lst2[[3]]},
+    If[EqQ[m,n] && NeQ[a*d+b*c,0],
+      {a*c,a*d+b*c,b*d,m},
+    False]]]]]]]],
+  If[SumQ[u],
+    If[FreeQ[First[u],x],
+      With[{lst2=TrinomialParts[Rest[u],x]},
+      If[AtomQ[lst2],
+        False,
+      {First[u]+lst2[[1]],lst2[[2]],lst2[[3]],lst2[[4]]}]],
+    If[FreeQ[Rest[u],x],
+      With[{lst1=TrinomialParts[First[u],x]},
+      If[AtomQ[lst1],
+        False,
+      {Rest[u]+lst1[[1]],lst1[[2]],lst1[[3]],lst1[[4]]}]],
+    With[{lst1=TrinomialParts[First[u],x]},
+    If[AtomQ[lst1],
+      With[{lst3=BinomialParts[First[u],x]},
+      If[AtomQ[lst3],
+        False,
+      With[{lst2=TrinomialParts[Rest[u],x]},
+      If[AtomQ[lst2],
+        With[{lst4=BinomialParts[Rest[u],x]},
+        If[AtomQ[lst4],
+          False,
+        If[EqQ[lst3[[3]],2*lst4[[3]]],
+          {lst3[[1]]+lst4[[1]],lst4[[2]],lst3[[2]],lst4[[3]]},
+        If[EqQ[lst4[[3]],2*lst3[[3]]],
+          {lst3[[1]]+lst4[[1]],lst3[[2]],lst4[[2]],lst3[[3]]},
+        False]]]],
+      If[EqQ[lst3[[3]],lst2[[4]]] && NeQ[lst3[[2]]+lst2[[2]],0],
+        {lst3[[1]]+lst2[[1]],lst3[[2]]+lst2[[2]],lst2[[3]],lst2[[4]]},
+      If[EqQ[lst3[[3]],2*lst2[[4]]] && NeQ[lst3[[2]]+lst2[[3]],0],
+        {lst3[[1]]+lst2[[1]],lst2[[2]],lst3[[2]]+lst2[[3]],lst2[[4]]},
+      False]]]]]],
+    With[{lst2=TrinomialParts[Rest[u],x]},
+    If[AtomQ[lst2],
+      With[{lst4=BinomialParts[Rest[u],x]},
+      If[AtomQ[lst4],
+        False,
+      If[EqQ[lst4[[3]],lst1[[4]]] && NeQ[lst1[[2]]+lst4[[2]],0],
+        {lst1[[1]]+lst4[[1]],lst1[[2]]+lst4[[2]],lst1[[3]],lst1[[4]]},
+      If[EqQ[lst4[[3]],2*lst1[[4]]] && NeQ[lst1[[3]]+lst4[[2]],0],
+        {lst1[[1]]+lst4[[1]],lst1[[2]],lst1[[3]]+lst4[[2]],lst1[[4]]},
+      False]]]],
+    If[EqQ[lst1[[4]],lst2[[4]]] && NeQ[lst1[[2]]+lst2[[2]],0] && NeQ[lst1[[3]]+lst2[[3]],0],
+      {lst1[[1]]+lst2[[1]],lst1[[2]]+lst2[[2]],lst1[[3]]+lst2[[3]],lst1[[4]]},
+    False]]]]]]],
+  False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*GeneralizedBinomialParts[u,x]*)
+
+
+(* If u is equivalent to a generalized binomial of the form a*x^q + b*x^n where a, b, n, and q not equal 0,
+	GeneralizedBinomialDegree[u,x] returns n-q. *)
+GeneralizedBinomialDegree[u_,x_Symbol] :=
+  Function[#[[3]]-#[[4]]][GeneralizedBinomialParts[u,x]]
+
+
+(* If u is equivalent to a generalized binomial of the form a*x^q + b*x^n where a, b, n, and q not equal 0,
+	GeneralizedBinomialParts[u,x] returns the list {a,b,n,q}; else it returns False. *)
+GeneralizedBinomialParts[a_.*x_^q_.+b_.*x_^n_.,x_Symbol] :=
+  {a,b,n,q} /;
+FreeQ[{a,b,n,q},x] && PosQ[n-q]
+
+GeneralizedBinomialParts[a_*u_,x_Symbol] :=
+  With[{lst=GeneralizedBinomialParts[u,x]},
+  {a*lst[[1]], a*lst[[2]], lst[[3]], lst[[4]]} /;
+ ListQ[lst]] /;
+FreeQ[a,x]
+
+GeneralizedBinomialParts[x_^m_.*u_,x_Symbol] :=
+  With[{lst=GeneralizedBinomialParts[u,x]},
+  {lst[[1]], lst[[2]], m+lst[[3]], m+lst[[4]]} /;
+ ListQ[lst] && NeQ[m+lst[[3]],0] && NeQ[m+lst[[4]],0]] /;
+FreeQ[m,x]
+
+GeneralizedBinomialParts[x_^m_.*u_,x_Symbol] :=
+  With[{lst=BinomialParts[u,x]},
+  {lst[[1]], lst[[2]], m+lst[[3]], m} /;
+ ListQ[lst] && NeQ[m+lst[[3]],0]] /;
+FreeQ[m,x]
+
+GeneralizedBinomialParts[u_,x_Symbol] :=
+  False
+
+
+(* ::Subsection::Closed:: *)
+(*GeneralizedTrinomialParts[u,x]*)
+
+
+(* If u is equivalent to a generalized trinomial of the form a*x^q + b*x^n + c*x^(2*n-q) where n!=0, q!=0, b!=0 and c!=0, 
+	GeneralizedTrinomialDegree[u,x] returns n-q. *)
+GeneralizedTrinomialDegree[u_,x_Symbol] :=
+  Function[#[[4]]-#[[5]]][GeneralizedTrinomialParts[u,x]]
+
+
+(* If u is equivalent to a generalized trinomial of the form a*x^q + b*x^n + c*x^(2*n-q) where n!=0, q!=0, b!=0 and c!=0,
+	GeneralizedTrinomialParts[u,x] returns the list {a,b,c,n,q}; else it returns False. *)
+GeneralizedTrinomialParts[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.,x_Symbol] :=
+  {a,b,c,n,q} /;
+FreeQ[{a,b,c,n,q},x] && EqQ[r,2*n-q]
+
+GeneralizedTrinomialParts[a_*u_,x_Symbol] :=
+  With[{lst=GeneralizedTrinomialParts[u,x]},
+  {a*lst[[1]], a*lst[[2]], a*lst[[3]], lst[[4]], lst[[5]]} /;
+ ListQ[lst]] /;
+FreeQ[a,x]
+
+GeneralizedTrinomialParts[u_,x_Symbol] :=
+  With[{lst=Expon[u,x,List]},
+  If[Length[lst]==3 && NeQ[lst[[0]],0] && EqQ[lst[[3]],2*lst[[2]]-lst[[1]]],
+    {Coeff[u,x,lst[[1]]],Coeff[u,x,lst[[2]]],Coeff[u,x,lst[[3]]],lst[[2]],lst[[1]]},
+  False]] /;
+PolyQ[u,x]
+
+GeneralizedTrinomialParts[x_^m_.*u_,x_Symbol] :=
+  With[{lst=GeneralizedTrinomialParts[u,x]},
+  {lst[[1]], lst[[2]], lst[[3]], m+lst[[4]], m+lst[[5]]} /;
+ ListQ[lst] && NeQ[m+lst[[4]],0] && NeQ[m+lst[[5]],0]] /;
+FreeQ[m,x]
+
+GeneralizedTrinomialParts[x_^m_.*u_,x_Symbol] :=
+  With[{lst=TrinomialParts[u,x]},
+  {lst[[1]], lst[[2]], lst[[3]], m+lst[[4]], m} /;
+ ListQ[lst] && NeQ[m+lst[[4]],0]] /;
+FreeQ[m,x]
+
+GeneralizedTrinomialParts[u_,x_Symbol] :=
+  False
+
+
+(* ::Section::Closed:: *)
+(*Selection functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*IntPart[u]*)
+
+
+(* IntPart[u] returns the sum of the integer terms of u. *) 
+IntPart[m_*u_,n_:1] :=
+  IntPart[u,m*n] /;
+RationalQ[m]
+
+IntPart[u_,n_:1] :=
+  If[RationalQ[u],
+    IntegerPart[n*u],
+  If[SumQ[u],
+    Map[Function[IntPart[#,n]],u],
+  0]]
+
+
+(* ::Subsection::Closed:: *)
+(*FracPart[u]*)
+
+
+(* IntPart[u] returns the sum of the non-integer terms of u. *) 
+FracPart[m_*u_,n_:1] :=
+  FracPart[u,m*n] /;
+RationalQ[m]
+
+FracPart[u_,n_:1] :=
+  If[RationalQ[u],
+    FractionalPart[n*u],
+  If[SumQ[u],
+    Map[Function[FracPart[#,n]],u],
+  n*u]]
+
+
+(* ::Subsection::Closed:: *)
+(*NumericFactor[u] *)
+
+
+(* NumericFactor[u] returns the real numeric factor of u. *)
+NumericFactor[u_] :=
+  If[NumberQ[u],
+    If[EqQ[Im[u],0],
+      u,
+    If[EqQ[Re[u],0],
+      Im[u],
+    1]],
+  If[PowerQ[u],
+    If[RationalQ[u[[1]]] && FractionQ[u[[2]]],
+      If[u[[2]]>0,
+        1/Denominator[u[[1]]],
+      1/Denominator[1/u[[1]]]],
+    1],
+  If[ProductQ[u],
+    Map[NumericFactor,u],
+  If[SumQ[u],
+    If[LeafCount[u]<50,             (* Eliminate this kludge! *)
+      Function[If[SumQ[#], 1, NumericFactor[#]]][ContentFactor[u]],
+    With[{m=NumericFactor[First[u]],n=NumericFactor[Rest[u]]},
+    If[m<0 && n<0,
+      -GCD[-m,-n],
+    GCD[m,n]]]],
+  1]]]]
+
+
+(* NonnumericFactors[u] returns the product of the factors of u that are not real numbers. *)
+NonnumericFactors[u_] :=
+  If[NumberQ[u],
+    If[EqQ[Im[u],0],
+      1,    
+    If[EqQ[Re[u],0],
+      I,
+    u]],
+  If[PowerQ[u],
+    If[RationalQ[u[[1]]] && FractionQ[u[[2]]],
+      u/NumericFactor[u],
+    u],
+  If[ProductQ[u],
+    Map[NonnumericFactors,u],
+  If[SumQ[u],
+    If[LeafCount[u]<50,             (* Eliminate this kludge! *)
+      Function[If[SumQ[#], u, NonnumericFactors[#]]][ContentFactor[u]],
+    With[{n=NumericFactor[u]},
+    Map[Function[#/n],u]]],
+  u]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*RemoveContent[u,x]*)
+
+
+(* RemoveContent[u,x] returns u with the content free of x removed. *)
+RemoveContent[u_,x_Symbol] :=
+  With[{v=NonfreeFactors[u,x]},
+  With[{w=Together[v]},
+  If[EqQ[FreeFactors[w,x],1],
+    RemoveContentAux[v,x],
+  RemoveContentAux[NonfreeFactors[w,x],x]]]]
+
+
+RemoveContentAux[a_^m_*u_.+b_*v_.,x_Symbol] :=
+  If[m>1,
+    RemoveContentAux[a^(m-1)*u-v,x],
+  RemoveContentAux[u-a^(1-m)*v,x]] /;
+IntegersQ[a,b] && a+b==0 && RationalQ[m]
+
+
+RemoveContentAux[a_^m_.*u_.+a_^n_.*v_.,x_Symbol] :=
+  RemoveContentAux[u+a^(n-m)*v,x] /;
+FreeQ[a,x] && RationalQ[m,n] && n-m>=0
+
+
+RemoveContentAux[a_^m_.*u_.+a_^n_.*v_.+a_^p_.*w_.,x_Symbol] :=
+  RemoveContentAux[u+a^(n-m)*v+a^(p-m)*w,x] /;
+FreeQ[a,x] && RationalQ[m,n,p] && n-m>=0 && p-m>=0
+
+
+RemoveContentAux[u_,x_Symbol] :=
+  If[SumQ[u] && NegQ[First[u]],
+    -u,
+  u]
+
+
+(* ::Subsection::Closed:: *)
+(*FreeFactors[u,x]*)
+
+
+(* FreeFactors[u,x] returns the product of the factors of u free of x. *)
+FreeFactors[u_,x_] :=
+  If[ProductQ[u],
+    Map[Function[If[FreeQ[#,x],#,1]],u],
+  If[FreeQ[u,x],
+    u,
+  1]]
+
+
+(* ::Subsection::Closed:: *)
+(*NonfreeFactors[u,x]*)
+
+
+(* NonfreeFactors[u,x] returns the product of the factors of u not free of x. *)
+NonfreeFactors[u_,x_] :=
+  If[ProductQ[u],
+    Map[Function[If[FreeQ[#,x],1,#]],u],
+  If[FreeQ[u,x],
+    1,
+  u]]
+
+
+(* ::Subsection::Closed:: *)
+(*FreeTerms[u,x]*)
+
+
+(* FreeTerms[u,x] returns the sum of the terms of u free of x. *)
+FreeTerms[u_,x_] :=
+  If[SumQ[u],
+    Map[Function[If[FreeQ[#,x],#,0]],u],
+  If[FreeQ[u,x],
+    u,
+  0]]
+
+
+(* ::Subsection::Closed:: *)
+(*NonfreeTerms[u,x]*)
+
+
+(* NonfreeTerms[u,x] returns the sum of the terms of u not free of x. *)
+NonfreeTerms[u_,x_] :=
+  If[SumQ[u],
+    Map[Function[If[FreeQ[#,x],0,#]],u],
+  If[FreeQ[u,x],
+    0,
+  u]]
+
+
+(* ::Subsection::Closed:: *)
+(*Polynomial functions*)
+
+
+Expon[expr_,form_] :=
+  Exponent[Together[expr],form]
+
+Expon[expr_,form_,h_] :=
+  Exponent[Together[expr],form,h]
+
+
+Coeff[expr_,form_] :=
+  Coefficient[Together[expr],form]
+
+Coeff[expr_,form_,n_] :=
+  With[{coef1=Coefficient[expr,form,n],coef2=Coefficient[Together[expr],form,n]},
+  If[Simplify[coef1-coef2]===0,
+    coef1,
+  coef2]]
+
+
+(* ::Subsection::Closed:: *)
+(*LeadTerm[u]*)
+
+
+LeadTerm[u_] :=
+  If[SumQ[u],
+    First[u],
+  u]
+
+
+(* ::Subsection::Closed:: *)
+(*RemainingTerms[u]*)
+
+
+RemainingTerms[u_] :=
+  If[SumQ[u],
+    Rest[u],
+  0]
+
+
+(* ::Subsection::Closed:: *)
+(*LeadFactor[u]*)
+
+
+(* LeadFactor[u] returns the leading factor of u. *)
+LeadFactor[u_] :=
+  If[ProductQ[u],
+    LeadFactor[First[u]],
+  If[ComplexNumberQ[u] && Re[u]===0,
+    If[Im[u]===1,
+      u,
+    LeadFactor[Im[u]]],
+  u]]
+
+
+(* ::Subsection::Closed:: *)
+(*RemainingFactors[u]*)
+
+
+(* RemainingFactors[u] returns the remaining factors of u. *)
+RemainingFactors[u_] :=
+  If[ProductQ[u],
+    RemainingFactors[First[u]]*Rest[u],
+  If[ComplexNumberQ[u] && Re[u]===0,
+    If[Im[u]===1,
+      1,
+    I*RemainingFactors[Im[u]]],
+  1]]
+
+
+(* ::Subsection::Closed:: *)
+(*LeadBase[u]*)
+
+
+(* LeadBase[u] returns the base of the leading factor of u. *)
+LeadBase[u_] :=
+  With[{v=LeadFactor[u]},
+  If[PowerQ[v],
+    v[[1]],
+  v]]
+
+
+(* ::Subsection::Closed:: *)
+(*LeadDegree[u]*)
+
+
+(* LeadDegree[u] returns the degree of the leading factor of u. *)
+LeadDegree[u_] :=
+  With[{v=LeadFactor[u]},
+  If[PowerQ[v],
+    v[[2]],
+  1]]
+
+
+(* ::Subsection::Closed:: *)
+(*Numer[u]*)
+
+
+(* Numer[u] returns the numerator of u. *)
+Numer[m_Integer^n_Rational] :=
+  1 /;
+n<0
+
+
+Numer[u_*v_] :=
+  Numer[u]*Numer[v]
+
+
+Numer[u_] := Numerator[u]
+
+
+(* ::Subsection::Closed:: *)
+(*Denom[u]*)
+
+
+(* Denom[u] returns the denominator of u. *)
+Denom[m_Integer^n_Rational] :=
+  m^-n /;
+n<0
+
+
+Denom[u_*v_] :=
+  Denom[u]*Denom[v]
+
+
+Denom[u_] := Denominator[u]
+
+
+(* ::Section::Closed:: *)
+(*Multinomial functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*Multinomial Recognizer functions*)
+
+
+(* ::Item:: *)
+(*LinearQ[u,x] returns True iff u is a polynomial of degree 1*)
+
+
+LinearQ[u_,x_Symbol] :=
+  PolyQ[u,x,1]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*PowerOfLinearQ[u,x] returns True iff u is equivalent to an expression of the form (a+b x)^m.*)
+
+
+PowerOfLinearQ[u_^m_.,x_Symbol] :=
+  FreeQ[m,x] && PolynomialQ[u,x] && If[IntegerQ[m], MatchQ[FactorSquareFree[u], w_^n_. /; FreeQ[n,x] && LinearQ[w,x]], LinearQ[u,x]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*QuadraticQ[u,x] returns True iff u is a polynomial of degree 2 and not a monomial of the form a x^2.*)
+
+
+QuadraticQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[QuadraticQ[#,x]],Throw[False]]],u]; True],
+  PolyQ[u,x,2] && Not[Coefficient[u,x,0]===0 && Coefficient[u,x,1]===0]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*LinearPairQ[u,v,x] returns True iff u and v are linear not equal x but u/v is a constant wrt x.*)
+
+
+LinearPairQ[u_,v_,x_Symbol] :=
+  LinearQ[u,x] && LinearQ[v,x] && NeQ[u,x] && EqQ[Coefficient[u,x,0]*Coefficient[v,x,1]-Coefficient[u,x,1]*Coefficient[v,x,0],0]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*If u is of the form a*x^n where n!=0 and a!=0, MonomialQ[u,x] returns True; else False.*)
+
+
+MonomialQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[MonomialQ[#,x],Null,Throw[False]]],u]; True],
+  MatchQ[u, a_.*x^n_. /; FreeQ[{a,n},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*f u[x] is a sum and each term is free of x or an expression of the form a*x^n, MonomialSumQ[u,x] returns True; else it returns False.*)
+
+
+MonomialSumQ[u_,x_Symbol] :=
+  SumQ[u] && Catch[
+	Scan[Function[If[FreeQ[#,x] || MonomialQ[#,x], Null, Throw[False]]],u];
+    True]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*u is sum whose terms are monomials.  MinimumExponent[u,x] returns the exponent of the term having the smallest exponent.*)
+
+
+MinimumMonomialExponent[u_,x_Symbol] :=
+  Module[{n=MonomialExponent[First[u],x]},
+  Scan[Function[If[PosQ[n-MonomialExponent[#,x]],n=MonomialExponent[#,x]]],u];
+  n]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*u is a monomial. MonomialExponent[u,x] returns the exponent of x in u.*)
+
+
+MonomialExponent[a_.*x_^n_.,x_Symbol] :=
+  n /; 
+FreeQ[{a,n},x]
+
+
+(* ::Subsection::Closed:: *)
+(*Multinomial Match functions*)
+
+
+(* ::Item:: *)
+(*LinearMatchQ[u,x] returns True iff u matches patterns of the form a+b x where a and b are free of x.*)
+
+
+LinearMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[LinearMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.+b_.*x /; FreeQ[{a,b},x]]]
+
+
+(* ::Input:: *)
+(**)
+
+
+(* ::Item:: *)
+(*PowerOfLinearMatchQ[u,x] returns True iff u matches patterns of the form (a+b x)^m where a, b and m are free of x.*)
+
+
+PowerOfLinearMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[PowerOfLinearMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, (a_.+b_.*x)^m_. /; FreeQ[{a,b,m},x]]]
+
+
+(* ::Input:: *)
+(**)
+
+
+(* ::Item:: *)
+(*QuadraticMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^2 or a+c x^2 where a, b and c are free of x.*)
+
+
+QuadraticMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[QuadraticMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.+b_.*x+c_.*x^2 /; FreeQ[{a,b,c},x]] || MatchQ[u, a_.+c_.*x^2 /; FreeQ[{a,c},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*CubicMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^2+d x^3, a+b x+d x^3, a+c x^2+d x^3 or a+d x^3 where a, b, c and d are free of x.*)
+
+
+CubicMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[CubicMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.+b_.*x+c_.*x^2+d_.*x^3 /; FreeQ[{a,b,c,d},x]] || 
+  MatchQ[u, a_.+b_.*x+d_.*x^3 /; FreeQ[{a,b,d},x]] ||
+  MatchQ[u, a_.+c_.*x^2+d_.*x^3 /; FreeQ[{a,c,d},x]] || 
+  MatchQ[u, a_.+d_.*x^3 /; FreeQ[{a,d},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*BinomialMatchQ[u,x] returns True iff u matches patterns of the form a+b x^n where a, b and n are free of x.*)
+
+
+BinomialMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[BinomialMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.+b_.*x^n_. /; FreeQ[{a,b,n},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*GeneralizedBinomialMatchQ[u,x] returns True iff u matches patterns of the form a x^q+b x^n where a, b, n and q are free of x.*)
+
+
+GeneralizedBinomialMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[GeneralizedBinomialMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.*x^q_.+b_.*x^n_. /; FreeQ[{a,b,n,q},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*TrinomialMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^n or a+c x^(2 n) where a, b, c and n are free of x.*)
+
+
+TrinomialMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[TrinomialMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.+b_.*x^n_.+c_.*x^j_. /; FreeQ[{a,b,c,n},x] && EqQ[j-2*n,0]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*GeneralizedTrinomialMatchQ[u,x] returns True iff u matches patterns of the form a x^q+b x^n+c x^(2 n-q) where a, b, c, n and q are free of x.*)
+
+
+GeneralizedTrinomialMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[GeneralizedTrinomialMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, a_.*x^q_.+b_.*x^n_.+c_.*x^r_. /; FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q),0]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*QuotientOfLinearsMatchQ[u,x] returns True iff u matches patterns of the form e (a+b x)/(c+d x) where a, b, c and d are free of x.*)
+
+
+QuotientOfLinearsMatchQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[QuotientOfLinearsMatchQ[#,x]],Throw[False]]],u]; True],
+  MatchQ[u, e_.*(a_.+b_.*x)/(c_.+d_.*x) /; FreeQ[{a,b,c,d,e},x]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Subsection::Closed:: *)
+(*Polynomial Terms functions*)
+
+
+(* If u (x) is an expression of the form a*x^n where n is zero or a positive integer,
+	PolynomialTermQ[u,x] returns True; else it returns False. *)
+PolynomialTermQ[u_,x_Symbol] :=
+  FreeQ[u,x] || MatchQ[u,a_.*x^n_. /; FreeQ[a,x] && IntegerQ[n] && n>0]
+
+
+(* u (x) is a sum.  PolynomialTerms[u,x] returns the sum of the polynomial terms of u (x). *)
+PolynomialTerms[u_,x_Symbol] :=
+  Map[Function[If[PolynomialTermQ[#,x],#,0]],u]
+
+
+(* u (x) is a sum.  NonpolynomialTerms[u,x] returns the sum of the nonpolynomial terms of u (x). *)
+NonpolynomialTerms[u_,x_Symbol] :=
+  Map[Function[If[PolynomialTermQ[#,x],0,#]],u]
+
+
+(* ::Subsection::Closed:: *)
+(*PseudoBinomial Routines*)
+
+
+(* If u is equivalent to a polynomial of the form a+b*(c+d*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
+	PseudoBinomialQ[u,x] returns True; else it returns False. *)
+PseudoBinomialQ[u_,x_Symbol] :=
+  ListQ[PseudoBinomialParts[u,x]]
+
+
+(* If u is equivalent to a polynomial of the form a+b*(e+f*x)^n and v to a polynomial of the form c+d*(e+f*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
+	PseudoBinomialPairQ[u,v,x] returns True; else it returns False. *)
+PseudoBinomialPairQ[u_,v_,x_Symbol] :=
+  With[{lst1=PseudoBinomialParts[u,x]},
+  If[AtomQ[lst1],
+    False,
+  With[{lst2=PseudoBinomialParts[v,x]},
+  If[AtomQ[lst2],
+    False,
+  Drop[lst1,2]===Drop[lst2,2]]]]]
+
+
+(* u is pseudo-binomial in x, NormalizePseudoBinomial[u,x] returns u in the form a+b*(c+d*x)^n. *)
+NormalizePseudoBinomial[u_,x_Symbol] :=
+  With[{lst=PseudoBinomialParts[u,x]},
+  lst[[1]]+lst[[2]]*(lst[[3]]+lst[[4]]*x)^lst[[5]]]
+
+
+(* If u is equivalent to a polynomial of the form a+b*(c+d*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
+	PseudoBinomialParts[u,x] returns the list {a,b,c,d,n}; else it returns False. *)
+PseudoBinomialParts[u_,x_Symbol] :=
+  If[PolynomialQ[u,x] && Expon[u,x]>2,
+    Module[{a,c,d,n},
+    n=Expon[u,x];
+    d=Rt[Coefficient[u,x,n],n];
+    c=Coefficient[u,x,n-1]/(n*d^(n-1));
+    a=Simplify[u-(c+d*x)^n];
+    If[NeQ[a,0] && FreeQ[a,x],
+      {a,1,c,d,n},
+    False]],
+  False]
+
+
+(* ::Subsection::Closed:: *)
+(*Perfect Power Test Function*)
+
+
+(* If u (x) is equivalent to a polynomial raised to an integer power greater than 1,
+	PerfectPowerTest[u,x] returns u (x) as an expanded polynomial raised to the power;
+	else it returns False. *)
+PerfectPowerTest[u_,x_Symbol] :=
+  If[PolynomialQ[u,x],
+    Module[{lst=FactorSquareFreeList[u],gcd=0,v=1},
+    If[lst[[1]]==={1,1},
+      lst=Rest[lst]];
+    Scan[Function[gcd=GCD[gcd,#[[2]]]],lst];
+    If[gcd>1,
+      Scan[Function[v=v*#[[1]]^(#[[2]]/gcd)],lst];
+      Expand[v]^gcd,
+    False]],
+  False]
+
+
+(* ::Subsection::Closed:: *)
+(*Square Free Factor Test Function*)
+
+
+(* If u (x) can be square free factored, SquareFreeFactorTest[u,x] returns u (x) in
+	factored form; else it returns False. *)
+(* SquareFreeFactorTest[u_,x_Symbol] :=
+  If[PolynomialQ[u,x],
+    With[{v=FactorSquareFree[u]},
+    If[PowerQ[v] || ProductQ[v],
+      v,
+    False]],
+  False] *)
+
+
+(* ::Section::Closed:: *)
+(*Rational function functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*RationalFunctionQ*)
+
+
+(* If u is a rational function of x, RationalFunctionQ[u,x] returns True; else it returns False. *)
+RationalFunctionQ[u_,x_Symbol] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    True,
+  If[IntegerPowerQ[u],
+    RationalFunctionQ[u[[1]],x],
+  If[ProductQ[u] || SumQ[u],
+    Catch[Scan[Function[If[Not[RationalFunctionQ[#,x]],Throw[False]]],u];True],
+  False]]]
+
+
+(* ::Subsection::Closed:: *)
+(*RationalFunctionFactors*)
+
+
+(* RationalFunctionFactors[u,x] returns the product of the factors of u that are rational functions of x. *)
+RationalFunctionFactors[u_,x_Symbol] :=
+  If[ProductQ[u],
+    Map[Function[If[RationalFunctionQ[#,x],#,1]],u],
+  If[RationalFunctionQ[u,x],
+    u,
+  1]]
+
+
+(* ::Subsection::Closed:: *)
+(*NonrationalFunctionFactors*)
+
+
+(* NonrationalFunctionFactors[u,x] returns the product of the factors of u that are not rational functions of x. *)
+NonrationalFunctionFactors[u_,x_Symbol] :=
+  If[ProductQ[u],
+    Map[Function[If[RationalFunctionQ[#,x],1,#]],u],
+  If[RationalFunctionQ[u,x],
+    1,
+  u]]
+
+
+(* ::Subsection::Closed:: *)
+(*RationalFunctionExponents*)
+
+
+(* u is a polynomial or rational function of x. *)
+(* RationalFunctionExponents[u,x] returns a list of the exponent of the *)
+(* numerator of u and the exponent of the denominator of u. *)
+RationalFunctionExponents[u_,x_Symbol] :=
+  If[PolynomialQ[u,x],
+    {Exponent[u,x],0},
+  If[IntegerPowerQ[u],
+    If[u[[2]]>0,
+      u[[2]]*RationalFunctionExponents[u[[1]],x],
+    (-u[[2]])*Reverse[RationalFunctionExponents[u[[1]],x]]],
+  If[ProductQ[u],
+    RationalFunctionExponents[First[u],x]+RationalFunctionExponents[Rest[u],x],
+  If[SumQ[u],
+    With[{v=Together[u]},
+    If[SumQ[v],
+      Module[{lst1,lst2},
+      lst1=RationalFunctionExponents[First[u],x];
+      lst2=RationalFunctionExponents[Rest[u],x];
+      {Max[lst1[[1]]+lst2[[2]],lst2[[1]]+lst1[[2]]],lst1[[2]]+lst2[[2]]}],
+    RationalFunctionExponents[v,x]]],
+  {0,0}]]]]    
+
+
+(* ::Subsection::Closed:: *)
+(*RationalFunctionExpand*)
+
+
+(* u is a polynomial or rational function of x. *)
+(* RationalFunctionExpand[u,x] returns the expansion of the factors of u that are rational functions times the other factors. *)
+RationalFunctionExpand[u_*v_^n_,x_Symbol] :=
+  With[{w=RationalFunctionExpand[u,x]},
+  If[SumQ[w],
+    Map[Function[#*v^n],w],
+  w*v^n]] /;
+FractionQ[n] && v=!=x
+
+RationalFunctionExpand[u_,x_Symbol] :=
+  Module[{v,w},
+  v=ExpandIntegrand[u,x];
+  If[v=!=u && Not[MatchQ[u, x^m_.*(c_+d_.*x)^p_/(a_+b_.*x^n_) /; FreeQ[{a,b,c,d,p},x] && IntegersQ[m,n] && m==n-1]],
+    v,
+  v=ExpandIntegrand[RationalFunctionFactors[u,x],x];
+  w=NonrationalFunctionFactors[u,x];
+  If[SumQ[v],
+    Map[Function[#*w],v],
+  v*w]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PolyGCD*)
+
+
+(* u and v are polynomials in x. *)
+(* PolyGCD[u,v,x] returns the factors of the gcd of u and v dependent on x. *)
+PolyGCD[u_,v_,x_Symbol] :=
+  NonfreeFactors[PolynomialGCD[u,v],x]
+
+
+(* ::Section::Closed:: *)
+(*Algebraic function functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*AlgebraicFunctionQ*)
+
+
+(* AlgebraicFunctionQ[u,x] returns True iff u is an algebraic of x *)
+(* If flag is True, exponents can be nonnumeric. *)
+AlgebraicFunctionQ[u_,x_Symbol,flag_:False] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    True,
+  If[PowerQ[u] && (RationalQ[u[[2]]] || flag && FreeQ[u[[2]],x]),
+    AlgebraicFunctionQ[u[[1]],x,flag],
+  If[ProductQ[u] || SumQ[u],
+    Catch[Scan[Function[If[Not[AlgebraicFunctionQ[#,x,flag]],Throw[False]]],u];True],
+  If[ListQ[u],
+    If[u==={},
+      True,
+    If[AlgebraicFunctionQ[First[u],x,flag],
+      AlgebraicFunctionQ[Rest[u],x,flag],
+    False]],
+  False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*AlgebraicFunctionFactors*)
+
+
+(* AlgebraicFunctionFactors[u,x] returns the product of the factors of u that are algebraic functions of x. *)
+(* AlgebraicFunctionFactors[u_,x_Symbol,flag_:False] :=
+  If[ProductQ[u],
+    Map[Function[If[AlgebraicFunctionQ[#,x,flag],#,1]],u],
+  If[AlgebraicFunctionQ[u,x,flag],u,1]] *)
+
+
+(* ::Subsection::Closed:: *)
+(*NonalgebraicFunctionFactors*)
+
+
+(* NonalgebraicFunctionFactors[u,x] returns the product of the factors of u that are not algebraic functions of x. *)
+(* NonalgebraicFunctionFactors[u_,x_Symbol,flag_:False] :=
+  If[ProductQ[u],
+    Map[Function[If[AlgebraicFunctionQ[#,x,flag],1,#]],u],
+  If[AlgebraicFunctionQ[u,x,flag],1,u]] *)
+
+
+(* ::Section::Closed:: *)
+(*Quotient of linears functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*QuotientOfLinearsQ*)
+
+
+(* ::Item:: *)
+(*QuotientOfLinearsQ[u,x] returns True iff u is equivalent to an expression of the form (a+b x)/(c+d x) where b!=0 and d!=0.*)
+
+
+QuotientOfLinearsQ[u_,x_Symbol] :=
+  If[ListQ[u],
+    Catch[Scan[Function[If[Not[QuotientOfLinearsQ[#,x]],Throw[False]]],u]; True],
+  QuotientOfLinearsP[u,x] && Function[NeQ[#[[2]],0] && NeQ[#[[4]],0]][QuotientOfLinearsParts[u,x]]]
+
+
+QuotientOfLinearsP[a_*u_,x_] :=
+  QuotientOfLinearsP[u,x] /;
+FreeQ[a,x]
+
+QuotientOfLinearsP[a_+u_,x_] :=
+  QuotientOfLinearsP[u,x] /;
+FreeQ[a,x]
+
+QuotientOfLinearsP[1/u_,x_] :=
+  QuotientOfLinearsP[u,x]
+
+QuotientOfLinearsP[u_,x_] :=
+  True /;
+LinearQ[u,x]
+
+QuotientOfLinearsP[u_/v_,x_] :=
+  True /;
+LinearQ[u,x] && LinearQ[v,x]
+
+QuotientOfLinearsP[u_,x_] :=
+  u===x || FreeQ[u,x]
+
+
+(* ::Subsection::Closed:: *)
+(*QuotientOfLinearsParts*)
+
+
+(* If u is equivalent to an expression of the form (a+b*x)/(c+d*x), QuotientOfLinearsParts[u,x] 
+	returns the list {a, b, c, d}. *)
+QuotientOfLinearsParts[a_*u_,x_] :=
+  Apply[Function[{a*#1, a*#2, #3, #4}], QuotientOfLinearsParts[u,x]] /;
+FreeQ[a,x]
+
+QuotientOfLinearsParts[a_+u_,x_] :=
+  Apply[Function[{#1+a*#3, #2+a*#4, #3, #4}], QuotientOfLinearsParts[u,x]] /;
+FreeQ[a,x]
+
+QuotientOfLinearsParts[1/u_,x_] :=
+  Apply[Function[{#3, #4, #1, #2}], QuotientOfLinearsParts[u,x]]
+
+QuotientOfLinearsParts[u_,x_] :=
+  {Coefficient[u,x,0], Coefficient[u,x,1], 1, 0} /;
+LinearQ[u,x]
+
+QuotientOfLinearsParts[u_/v_,x_] :=
+  {Coefficient[u,x,0], Coefficient[u,x,1], Coefficient[v,x,0], Coefficient[v,x,1]} /;
+LinearQ[u,x] && LinearQ[v,x]
+
+QuotientOfLinearsParts[u_,x_] :=
+  If[u===x,
+    {0, 1, 1, 0},
+  If[FreeQ[u,x],
+    {u, 0, 1, 0},
+  Print["QuotientOfLinearsParts error!"];
+  {u, 0, 1, 0}]]
+
+
+(* ::Subsection::Closed:: *)
+(*SubstForFractionalPowerOfQuotientOfLinears*)
+
+
+(* If u has a subexpression of the form ((a+b*x)/(c+d*x))^(m/n) where m and n>1 are integers, 
+	SubstForFractionalPowerOfQuotientOfLinears[u,x] returns the list {v,n,(a+b*x)/(c+d*x),b*c-a*d} where v is u
+	with subexpressions of the form ((a+b*x)/(c+d*x))^(m/n) replaced by x^m and x replaced
+	by (-a+c*x^n)/(b-d*x^n), and all times x^(n-1)/(b-d*x^n)^2; else it returns False. *)
+SubstForFractionalPowerOfQuotientOfLinears[u_,x_Symbol] :=
+  Module[{lst=FractionalPowerOfQuotientOfLinears[u,1,False,x]},
+  If[AtomQ[lst] || AtomQ[lst[[2]]],
+    False,
+  With[{n=lst[[1]],tmp=lst[[2]]},
+  lst=QuotientOfLinearsParts[tmp,x];
+  With[{a=lst[[1]],b=lst[[2]],c=lst[[3]],d=lst[[4]]},
+  If[EqQ[d,0],
+    False,
+  lst=Simplify[x^(n-1)*SubstForFractionalPower[u,tmp,n,(-a+c*x^n)/(b-d*x^n),x]/(b-d*x^n)^2];
+  {NonfreeFactors[lst,x],n,tmp,FreeFactors[lst,x]*(b*c-a*d)}]]]]]
+
+
+(* If the substitution x=v^(1/n) will not complicate algebraic subexpressions of u, 
+	SubstForFractionalPowerQ[u,v,x] returns True; else it returns False. *)
+SubstForFractionalPowerQ[u_,v_,x_Symbol] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    True,
+  If[FractionalPowerQ[u],
+    SubstForFractionalPowerAuxQ[u,v,x],
+  Catch[Scan[Function[If[Not[SubstForFractionalPowerQ[#,v,x]],Throw[False]]],u];True]]]
+
+SubstForFractionalPowerAuxQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    False,
+  If[FractionalPowerQ[u] && EqQ[u[[1]],v],
+    True,
+  Catch[Scan[Function[If[SubstForFractionalPowerAuxQ[#,v,x],Throw[True]]],u];False]]]
+
+
+(* If u has a subexpression of the form ((a+b*x)/(c+d*x))^(m/n), 
+	FractionalPowerOfQuotientOfLinears[u,1,False,x] returns {n,(a+b*x)/(c+d*x)}; else it returns False. *)
+FractionalPowerOfQuotientOfLinears[u_,n_,v_,x_] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    {n,v},
+  If[CalculusQ[u],
+    False,
+  If[FractionalPowerQ[u] && QuotientOfLinearsQ[u[[1]],x] && Not[LinearQ[u[[1]],x]] && (FalseQ[v] || EqQ[u[[1]],v]),
+    {LCM[Denominator[u[[2]]],n],u[[1]]},
+  Catch[Module[{lst={n,v}},
+    Scan[Function[If[AtomQ[lst=FractionalPowerOfQuotientOfLinears[#,lst[[1]],lst[[2]],x]],Throw[False]]],u];
+    lst]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SubstForInverseFunctionOfQuotientOfLinears*)
+
+
+(* If u has a subexpression of the form g[(a+b*x)/(c+d*x)] where g is the inverse of function h 
+	and f[x,g[(a+b*x)/(c+d*x)]] equals u, SubstForInverseFunctionOfQuotientOfLinears[u,x] returns 
+	the list {f[(-a+c*h[x])/(b-d*h[x]),x]*h'[x]/(b-d*h[x])^2, g[(a+b*x)/(c+d*x)], b*c-a*d} *)
+SubstForInverseFunctionOfQuotientOfLinears[u_,x_Symbol] :=
+  With[{tmp=InverseFunctionOfQuotientOfLinears[u,x]},
+  If[AtomQ[tmp],
+    False,
+  With[{h=InverseFunction[Head[tmp]],lst=QuotientOfLinearsParts[tmp[[1]],x]},
+  With[{a=lst[[1]],b=lst[[2]],c=lst[[3]],d=lst[[4]]},
+  {SubstForInverseFunction[u,tmp,(-a+c*h[x])/(b-d*h[x]),x]*D[h[x],x]/(b-d*h[x])^2, tmp, b*c-a*d}]]]]
+
+
+(* If u has a subexpression of the form g[(a+b*x)/(c+d*x)] where g is an inverse function, 
+	InverseFunctionOfQuotientOfLinears[u,x] returns g[(a+b*x)/(c+d*x)]; else it returns False. *)
+InverseFunctionOfQuotientOfLinears[u_,x_Symbol] :=
+  If[AtomQ[u] || CalculusQ[u] || FreeQ[u,x],
+    False,
+  If[InverseFunctionQ[u] && QuotientOfLinearsQ[u[[1]],x],
+    u,
+  Module[{tmp},
+  Catch[
+    Scan[Function[If[Not[AtomQ[tmp=InverseFunctionOfQuotientOfLinears[#,x]]],Throw[tmp]]],u];
+    False]]]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Substitution for inverse functions*)
+
+
+(* SubstForFractionalPower[u,v,n,w,x] returns u with subexpressions equal to v^(m/n) replaced 
+	by x^m and x replaced by w. *)
+SubstForFractionalPower[u_,v_,n_,w_,x_Symbol] :=
+  If[AtomQ[u],
+    If[u===x,
+      w,
+    u],
+  If[FractionalPowerQ[u] && EqQ[u[[1]],v],
+    x^(n*u[[2]]),
+  Map[Function[SubstForFractionalPower[#,v,n,w,x]],u]]]
+
+
+(* SubstForInverseFunction[u,v,w,x] returns u with subexpressions equal to v replaced by x 
+	and x replaced by w. *)
+SubstForInverseFunction[u_,v_,x_Symbol] :=
+(*  Module[{a=Coefficient[v[[1]],0],b=Coefficient[v[[1]],1]},
+  SubstForInverseFunction[u,v,-a/b+InverseFunction[Head[v]]/b,x]] *)
+  SubstForInverseFunction[u,v,
+		(-Coefficient[v[[1]],x,0]+InverseFunction[Head[v]][x])/Coefficient[v[[1]],x,1],x]
+
+SubstForInverseFunction[u_,v_,w_,x_Symbol] :=
+  If[AtomQ[u],
+    If[u===x,
+      w,
+    u],
+  If[Head[u]===Head[v] && EqQ[u[[1]],v[[1]]],
+    x,
+  Map[Function[SubstForInverseFunction[#,v,w,x]],u]]]
+
+
+(* ::Section::Closed:: *)
+(*Absurd number factors*)
+
+
+(* ::Text:: *)
+(*Definition: A number is absurd if it is a rational number, a positive rational number raised to a fractional power, or a product of absurd numbers.*)
+
+
+(* AbsurdNumberQ[u] returns True if u is an absurd number, else it returns False. *)
+AbsurdNumberQ[u_] :=
+  RationalQ[u]
+
+AbsurdNumberQ[u_^v_] :=
+  RationalQ[u] && u>0 && FractionQ[v]
+
+AbsurdNumberQ[u_*v_] :=
+  AbsurdNumberQ[u] && AbsurdNumberQ[v]
+
+
+(* AbsurdNumberFactors[u] returns the product of the factors of u that are absurd numbers. *)
+AbsurdNumberFactors[u_] :=
+  If[AbsurdNumberQ[u],
+    u,
+  If[ProductQ[u],
+    Map[AbsurdNumberFactors,u],
+  NumericFactor[u]]]
+
+
+(* NonabsurdNumberFactors[u] returns the product of the factors of u that are not absurd numbers. *)
+NonabsurdNumberFactors[u_] :=
+  If[AbsurdNumberQ[u],
+    1,
+  If[ProductQ[u],
+    Map[NonabsurdNumberFactors,u],
+  NonnumericFactors[u]]]
+
+
+(* m must be an absurd number.  FactorAbsurdNumber[m] returns the prime factorization of m *) 
+(* as list of base-degree pairs where the bases are prime numbers and the degrees are rational. *)
+FactorAbsurdNumber[m_] :=
+  If[RationalQ[m],
+    FactorInteger[m],
+  If[PowerQ[m],
+    Map[Function[{#[[1]], #[[2]]*m[[2]]}],FactorInteger[m[[1]]]],
+  CombineExponents[Sort[Flatten[Map[FactorAbsurdNumber,Apply[List,m]],1], Function[#1[[1]]<#2[[1]]]]]]]
+
+
+CombineExponents[lst_] :=
+  If[Length[lst]<2,
+    lst,
+  If[lst[[1,1]]==lst[[2,1]],
+    CombineExponents[Prepend[Drop[lst,2],{lst[[1,1]],lst[[1,2]]+lst[[2,2]]}]],
+  Prepend[CombineExponents[Rest[lst]],First[lst]]]]
+
+
+(* m, n, ... must be absurd numbers.  AbsurdNumberGCD[m,n,...] returns the gcd of m, n, ... *) 
+AbsurdNumberGCD[seq__] :=
+  With[{lst={seq}},
+  If[Length[lst]==1,
+    First[lst],
+  AbsurdNumberGCDList[FactorAbsurdNumber[First[lst]],FactorAbsurdNumber[Apply[AbsurdNumberGCD,Rest[lst]]]]]]
+
+
+(* lst1 and lst2 must be absurd number prime factorization lists. *)
+(* AbsurdNumberGCDList[lst1,lst2] returns the gcd of the absurd numbers represented by lst1 and lst2. *) 
+AbsurdNumberGCDList[lst1_,lst2_] :=
+  If[lst1==={},
+    Apply[Times,Map[Function[#[[1]]^Min[#[[2]],0]],lst2]],
+  If[lst2==={},
+    Apply[Times,Map[Function[#[[1]]^Min[#[[2]],0]],lst1]],
+  If[lst1[[1,1]]==lst2[[1,1]],
+    If[lst1[[1,2]]<=lst2[[1,2]],
+      lst1[[1,1]]^lst1[[1,2]]*AbsurdNumberGCDList[Rest[lst1],Rest[lst2]],
+    lst1[[1,1]]^lst2[[1,2]]*AbsurdNumberGCDList[Rest[lst1],Rest[lst2]]],
+  If[lst1[[1,1]]<lst2[[1,1]],
+    If[lst1[[1,2]]<0,
+      lst1[[1,1]]^lst1[[1,2]]*AbsurdNumberGCDList[Rest[lst1],lst2],
+    AbsurdNumberGCDList[Rest[lst1],lst2]],
+  If[lst2[[1,2]]<0,
+    lst2[[1,1]]^lst2[[1,2]]*AbsurdNumberGCDList[lst1,Rest[lst2]],
+  AbsurdNumberGCDList[lst1,Rest[lst2]]]]]]]
+
+
+(* ::Section::Closed:: *)
+(*Normalization functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*NormalizeIntegrand*)
+
+
+(* NormalizeIntegrand[u,x] returns u in a standard form recognizable by integration rules. *) 
+NormalizeIntegrand[u_,x_Symbol] :=
+  With[{v=NormalizeLeadTermSigns[NormalizeIntegrandAux[u,x]]},
+  If[v===NormalizeLeadTermSigns[u],
+    u,
+  v]]
+
+
+(* ::Subsection::Closed:: *)
+(*NormalizeIntegrandAux*)
+
+
+NormalizeIntegrandAux[u_,x_Symbol] :=
+  If[SumQ[u],
+    Map[Function[NormalizeIntegrandAux[#,x]],u],
+  If[ProductQ[MergeMonomials[u,x]],
+    Map[Function[NormalizeIntegrandFactor[#,x]],MergeMonomials[u,x]],
+  NormalizeIntegrandFactor[MergeMonomials[u,x],x]]]
+
+
+NormalizeIntegrandFactor[u_,x_Symbol] :=
+  Module[{bas,deg,min},
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    bas=NormalizeIntegrandFactorBase[u[[1]],x];
+    deg=u[[2]];
+    If[IntegerQ[deg] && SumQ[bas],
+      If[MapAnd[Function[MonomialQ[#,x]],bas],
+        min=MinimumMonomialExponent[bas,x];
+        x^(min*deg)*Map[Function[Simplify[#/x^min]],bas]^deg,
+      bas^deg],
+    bas^deg],
+  If[PowerQ[u] && FreeQ[u[[1]],x],
+    u[[1]]^NormalizeIntegrandFactorBase[u[[2]],x],
+  bas=NormalizeIntegrandFactorBase[u,x];
+  If[SumQ[bas],
+    If[MapAnd[Function[MonomialQ[#,x]],bas],
+      min=MinimumMonomialExponent[bas,x];
+      x^min*Map[Function[#/x^min],bas],
+    bas],
+  bas]]]]
+
+
+NormalizeIntegrandFactorBase[x_^m_.*u_,x_Symbol] :=
+  NormalizeIntegrandFactorBase[Map[Function[x^m*#],u],x] /;
+FreeQ[m,x] && SumQ[u]
+
+
+NormalizeIntegrandFactorBase[u_,x_Symbol] :=
+  If[BinomialQ[u,x],
+    If[BinomialMatchQ[u,x],
+      u,
+    ExpandToSum[u,x]],
+  If[TrinomialQ[u,x],
+    If[TrinomialMatchQ[u,x],
+      u,
+    ExpandToSum[u,x]],
+  If[ProductQ[u],
+    Map[Function[NormalizeIntegrandFactor[#,x]],u],
+  If[PolynomialQ[u,x] && Exponent[u,x]<=4,
+    ExpandToSum[u,x],    
+  If[SumQ[u],
+    With[{v=TogetherSimplify[u]},
+    If[SumQ[v] || MatchQ[v, x^m_.*w_ /; FreeQ[m,x] && SumQ[w]] || LeafCount[v]>LeafCount[u]+2,
+      UnifySum[u,x],
+    NormalizeIntegrandFactorBase[v,x]]],
+  Map[Function[NormalizeIntegrandFactor[#,x]],u]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*NormalizeLeadTermSigns*)
+
+
+NormalizeTogether[u_] :=
+  NormalizeLeadTermSigns[Together[u]]
+
+
+(* NormalizeLeadTermSigns[u] returns an expression equal u but with not more than one sum 
+	factor raised to a integer degree having a lead term with a negative coefficient. *)
+NormalizeLeadTermSigns[u_] :=
+  With[{lst=If[ProductQ[u], Map[SignOfFactor,u], SignOfFactor[u]]},
+  If[lst[[1]]==1,
+    lst[[2]],
+  AbsorbMinusSign[lst[[2]]]]]
+
+
+(* AbsorbMinusSign[u] returns an expression equal to -u.  If there is a factor of u of the 
+	form v^m where v is a sum and m is an odd power, the minus sign is distributed over v;
+	otherwise -u is returned. *)
+AbsorbMinusSign[u_.*v_Plus] :=
+  u*(-v)
+
+AbsorbMinusSign[u_.*v_Plus^m_] :=
+  u*(-v)^m /;
+OddQ[m]
+
+AbsorbMinusSign[u_] :=
+  -u
+
+
+(* ::Subsection::Closed:: *)
+(*NormalizeSumFactors*)
+
+
+(* NormalizeSumFactors[u] returns an expression equal u but with the numeric coefficient of 
+	the lead term of sum factors made positive where possible. *)
+NormalizeSumFactors[u_] :=
+  If[AtomQ[u] || Head[u]===If || Head[u]===Int || HeldFormQ[u],
+    u,
+  If[ProductQ[u],
+    Function[#[[1]]*#[[2]]][SignOfFactor[Map[NormalizeSumFactors,u]]],
+  Map[NormalizeSumFactors,u]]]
+
+
+(* SignOfFactor[u] returns the list {n,v} where n*v equals u, n^2 equals 1, and the lead 
+	term of the sum factors of v raised to integer degrees all have positive coefficients. *)
+SignOfFactor[u_] :=
+  If[RationalQ[u] && u<0 || SumQ[u] && NumericFactor[First[u]]<0,
+    {-1, -u},
+  If[IntegerPowerQ[u] && SumQ[u[[1]]] && NumericFactor[First[u[[1]]]]<0,
+    {(-1)^u[[2]], (-u[[1]])^u[[2]]},
+  If[ProductQ[u],
+    Map[SignOfFactor,u],
+  {1, u}]]]
+
+
+(* ::Subsection::Closed:: *)
+(*NormalizePowerOfLinear*)
+
+
+(* u can be square-free factored into an expression of the form (a+b*x)^m. *)
+(* NormalizePowerOfLinear[u,x] returns u in the form (a+b*x)^m. *)
+NormalizePowerOfLinear[u_,x_Symbol] :=
+  With[{v=FactorSquareFree[u]},
+  If[PowerQ[v] && LinearQ[v[[1]],x] && FreeQ[v[[2]],x],
+    ExpandToSum[v[[1]],x]^v[[2]],
+  ExpandToSum[v,x]]]
+
+
+(* ::Subsection::Closed:: *)
+(*MergeMonomials*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] b c-a d==0, then (a+b z)^m==b^m/d^m (c+d z)^m*)
+
+
+MergeMonomials[u_.*(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
+  u*b^m/d^m*(c+d*x)^(m+n) /;
+FreeQ[{a,b,c,d},x] && IntegerQ[m] && EqQ[b*c-a*d,0]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  m/n\[Element]\[DoubleStruckCapitalZ], then z^m (c z^n)^p==(c z^n)^(m/n+p)/c^(m/n)*)
+
+
+MergeMonomials[u_.*(a_.+b_.*x_)^m_.*(c_.*(a_.+b_.*x_)^n_.)^p_,x_Symbol] :=
+  u*(c*(a+b*x)^n)^(m/n+p)/c^(m/n) /;
+FreeQ[{a,b,c,m,n,p},x] && IntegerQ[m/n]
+
+MergeMonomials[u_,x_Symbol] := u
+
+
+(* ::Section::Closed:: *)
+(*Simplification functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*SimplifyIntegrand*)
+
+
+(* SimplifyIntegrand[u,x] simplifies u and returns the result in a standard form recognizable by integration rules. *) 
+SimplifyIntegrand[u_,x_Symbol] :=
+  Module[{v},
+  v=NormalizeLeadTermSigns[NormalizeIntegrandAux[Simplify[u],x]];
+  If[LeafCount[v]<4/5*LeafCount[u],
+    v,
+  If[v=!=NormalizeLeadTermSigns[u],
+    v,
+  u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SimplifyTerm        ????*)
+
+
+(* SimplifyTerm[u_,x_Symbol] :=
+  Module[{v=Simplify[u],w},
+  w=Together[v];
+  NormalizeIntegrand[If[LeafCount[v]<LeafCount[w],v,w],x]] *)
+
+
+SimplifyTerm[u_,x_Symbol] :=
+  Module[{v=Simplify[u],w},
+  w=Together[v];
+  NormalizeIntegrand[If[LeafCount[v]<LeafCount[w],w,w],x]]
+
+
+(* ::Subsection::Closed:: *)
+(*TogetherSimplify*)
+
+
+TogetherSimplify[u_] :=
+  TimeConstrained[
+    With[{v=Together[Simplify[Together[u]]]},
+    TimeConstrained[FixSimplify[v],$TimeLimit/3,v]],
+  $TimeLimit,u]
+
+
+(* TogetherSimplify could replace SmartSimplify, but results in more complicated *)
+(* antiderivatives and would require thousands of changes to test suite. *)
+SmartSimplify[u_] :=
+  TimeConstrained[
+    Module[{v,w},
+    v=Simplify[u];
+    w=Factor[v];
+    v=If[LeafCount[w]<LeafCount[v] (* -1 *),w,v];
+    v=If[Not[FalseQ[w=FractionalPowerOfSquareQ[v]]] && FractionalPowerSubexpressionQ[u,w,Expand[w]],SubstForExpn[v,w,Expand[w]],v];
+    v=FactorNumericGcd[v];
+    TimeConstrained[FixSimplify[v],$TimeLimit/3,v]],
+  $TimeLimit,u]
+
+
+SubstForExpn[u_,v_,w_] :=
+  If[u===v,
+    w,
+  If[AtomQ[u],
+    u,
+  Map[Function[SubstForExpn[#,v,w]],u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*Simp*)
+
+
+Simp[u_,x_] :=
+  TimeConstrained[NormalizeSumFactors[SimpHelp[u,x]],$TimeLimit,u]
+
+
+SimpHelp[E^(u_.*(v_.*Log[a_]+w_)),x_] :=
+  a^(u*v)*SimpHelp[E^(u*w),x]
+
+SimpHelp[u_,x_] :=
+  If[AtomQ[u],
+    u,
+  If[Head[u]===If || Head[u]===Int || HeldFormQ[u],
+    u,
+  If[FreeQ[u,x],
+    With[{v=SmartSimplify[u]},
+    If[LeafCount[v]<=LeafCount[u],
+      v,
+    u]],
+  If[ProductQ[u],
+    If[EqQ[First[u],1/2] && MatchQ[Rest[u],a_.+n_*Pi+b_.*v_ /; FreeQ[{a,b},x] && Not[FreeQ[v,x]] && EqQ[n^2,1/4]],
+      If[MatchQ[Rest[u],n_*Pi+b_.*v_ /; FreeQ[b,x] && Not[FreeQ[v,x]] && EqQ[n^2,1/4]],
+        Map[Function[1/2*#],Rest[u]],
+      If[MatchQ[Rest[u],m_*a_.+n_*Pi+p_*b_.*v_ /; FreeQ[{a,b},x] && Not[FreeQ[v,x]] && IntegersQ[m/2,p/2]],
+        Map[Function[1/2*#],Rest[u]],
+      u]],
+    Module[{v=FreeFactors[u,x],w=NonfreeFactors[u,x]},
+    v=NumericFactor[v]*SmartSimplify[NonnumericFactors[v]*x^2]/x^2;
+    w=If[ProductQ[w], Map[Function[SimpHelp[#,x]],w], SimpHelp[w,x]];
+    w=FactorNumericGcd[w];
+    v=MergeFactors[v,w];
+    If[ProductQ[v],
+      Map[Function[SimpFixFactor[#,x]],v],
+    v]]],
+  If[SumQ[u],
+    If[MatchQ[u,a_.+n_*Pi+b_.*x /; FreeQ[{a,b},x] && EqQ[n^2,1/16]],
+      u,
+    If[PolynomialQ[u,x] && Exponent[u,x]<=0,
+      SimpHelp[Coefficient[u,x,0],x],
+    If[PolynomialQ[u,x] && Exponent[u,x]==1 && Coefficient[u,x,0]===0,
+      SimpHelp[Coefficient[u,x,1],x]*x,
+    Module[{v=0,w=0},
+    Scan[Function[If[FreeQ[#,x],v=#+v,w=#+w]],u];
+    v=SmartSimplify[v];
+    w=If[SumQ[w], Map[Function[SimpHelp[#,x]],w], SimpHelp[w,x]];
+    v+w]]]],
+  If[TrigQ[u],
+    With[{v=SimpHelp[u[[1]],x]},
+    If[LinearQ[v,x] && MatchQ[Coefficient[v,x,0],m_.*(n_.*Pi+r_.)+s_. /; RationalQ[m,n]],
+      NormalizeTrig[Head[u],Coefficient[v,x,0],Coefficient[v,x,1],x],
+    Head[u][v]]],
+  If[HyperbolicQ[u],
+    With[{v=SimpHelp[u[[1]],x]},
+    If[LinearQ[v,x] && MatchQ[Coefficient[v,x,0],m_.*(n_.*Complex[0,nz_]*Pi+r_.)+s_. /; RationalQ[m,n,nz]],
+      NormalizeHyperbolic[Head[u],Coefficient[v,x,0],Coefficient[v,x,1],x],
+    Head[u][v]]],
+  Map[Function[SimpHelp[#,x]],u]]]]]]]]
+
+
+NormalizeTrig[func_,m_.*(n_.*Pi+r_.)+s_.,b_,x_] :=
+  If[m*n==1/4 && NegQ[b],
+    Switch[func,
+	  Sin, Cos[Pi/4-m*r-s-b*x],        (* Sin[Pi/4-z] == Cos[Pi/4+z] *)
+	  Cos, Sin[Pi/4-m*r-s-b*x],        (* Cos[Pi/4-z] == Sin[Pi/4+z] *)
+	  Tan, Cot[Pi/4-m*r-s-b*x],        (* Tan[Pi/4-z] == Cot[Pi/4+z] *)
+	  Cot, Tan[Pi/4-m*r-s-b*x],        (* Cot[Pi/4-z] == Tan[Pi/4+z] *)
+	  Sec, Csc[Pi/4-m*r-s-b*x],        (* Sec[Pi/4-z] == Csc[Pi/4+z] *)
+	  Csc, Sec[Pi/4-m*r-s-b*x]],       (* Csc[Pi/4-z] == Sec[Pi/4+z] *)
+  If[m*n==-1/4,
+    If[PosQ[b],
+      Switch[func,
+	    Sin, -Cos[Pi/4+m*r+s+b*x],     (* Sin[-Pi/4+z] == -Cos[Pi/4+z] *)
+	    Cos, Sin[Pi/4+m*r+s+b*x],      (* Cos[-Pi/4+z] == Sin[Pi/4+z] *)
+	    Tan, -Cot[Pi/4+m*r+s+b*x],     (* Tan[-Pi/4+z] == -Cot[Pi/4+z] *)
+	    Cot, -Tan[Pi/4+m*r+s+b*x],     (* Cot[-Pi/4+z] == -Tan[Pi/4+z] *)
+	    Sec, Csc[Pi/4+m*r+s+b*x],      (* Sec[-Pi/4+z] == Csc[Pi/4+z] *)
+	    Csc, -Sec[Pi/4+m*r+s+b*x]],    (* Csc[-Pi/4+z] == -Sec[Pi/4+z] *)
+    Switch[func,
+	  Sin, -Sin[Pi/4-m*r-s-b*x],       (* Sin[-Pi/4-z] == -Sin[Pi/4+z] *)
+	  Cos, Cos[Pi/4-m*r-s-b*x],        (* Cos[-Pi/4-z] == Cos[Pi/4+z] *)
+	  Tan, -Tan[Pi/4-m*r-s-b*x],       (* Tan[-Pi/4-z] == -Tan[Pi/4+z] *)
+	  Cot, -Cot[Pi/4-m*r-s-b*x],       (* Cot[-Pi/4-z] == -Cot[Pi/4+z] *)
+	  Sec, Sec[Pi/4-m*r-s-b*x],        (* Sec[-Pi/4-z] == Sec[Pi/4+z] *)
+	  Csc, -Csc[Pi/4-m*r-s-b*x]]],     (* Csc[-Pi/4-z] == -Csc[Pi/4+z] *)
+  func[m*n*Pi+m*r+s+b*x]]] /;
+RationalQ[m,n]
+
+
+NormalizeHyperbolic[func_,m_.*(n_.*Complex[0,nz_]*Pi+r_.)+s_.,b_,x_] :=
+  If[m*n*nz==1/4 && NegQ[b],
+    Switch[func,
+	  Sinh, I*Cosh[I*Pi/4-m*r-s-b*x],        (* Sinh[I*Pi/4-z] == I*Cosh[I*Pi/4+z] *)
+	  Cosh, -I*Sinh[I*Pi/4-m*r-s-b*x],       (* Cosh[I*Pi/4-z] == -I*Sinh[I*Pi/4+z] *)
+	  Tanh, -Coth[I*Pi/4-m*r-s-b*x],         (* Tanh[I*Pi/4-z] == -Coth[I*Pi/4+z] *)
+	  Coth, -Tanh[I*Pi/4-m*r-s-b*x],         (* Coth[I*Pi/4-z] == -Tanh[I*Pi/4+z] *)
+	  Sech, I*Csch[I*Pi/4-m*r-s-b*x],        (* Sech[I*Pi/4-z] == I*Csch[I*Pi/4+z] *)
+	  Csch, -I*Sech[I*Pi/4-m*r-s-b*x]],      (* Csch[I*Pi/4-z] == -I*Sech[I*Pi/4+z] *)
+  If[m*n*nz==-1/4,
+    If[PosQ[b],
+      Switch[func,
+	    Sinh, -I*Cosh[I*Pi/4+m*r+s+b*x],     (* Sinh[-I*Pi/4+z] == -I*Cosh[I*Pi/4+z] *)
+	    Cosh, -I*Sinh[I*Pi/4+m*r+s+b*x],     (* Cosh[-I*Pi/4+z] == -I*Sinh[I*Pi/4+z] *)
+	    Tanh, Coth[I*Pi/4+m*r+s+b*x],        (* Tanh[-I*Pi/4+z] == Coth[I*Pi/4+z] *)
+	    Coth, Tanh[I*Pi/4+m*r+s+b*x],        (* Coth[-I*Pi/4+z] == Tanh[I*Pi/4+z] *)
+	    Sech, I*Csch[I*Pi/4+m*r+s+b*x],      (* Sech[-I*Pi/4+z] == I*Csch[I*Pi/4+z] *)
+	    Csch, I*Sech[I*Pi/4+m*r+s+b*x]],     (* Csch[-I*Pi/4+z] == I*Sech[I*Pi/4+z] *)
+    Switch[func,
+	  Sinh, -Sinh[I*Pi/4-m*r-s-b*x],         (* Sinh[-I*Pi/4-z] == -Sinh[I*Pi/4+z] *)
+	  Cosh, Cosh[I*Pi/4-m*r-s-b*x],          (* Cosh[-I*Pi/4-z] == Cosh[I*Pi/4+z] *)
+	  Tanh, -Tanh[I*Pi/4-m*r-s-b*x],         (* Tanh[-I*Pi/4-z] == -Tanh[I*Pi/4+z] *)
+	  Coth, -Coth[I*Pi/4-m*r-s-b*x],         (* Coth[-I*Pi/4-z] == -Coth[I*Pi/4+z] *)
+	  Sech, Sech[I*Pi/4-m*r-s-b*x],          (* Sech[-I*Pi/4-z] == Sech[I*Pi/4+z] *)
+	  Csch, -Csch[I*Pi/4-m*r-s-b*x]]],       (* Csch[-I*Pi/4-z] == -Csch[I*Pi/4+z] *)
+  func[m*n*nz*I*Pi+m*r+s+b*x]]] /;
+RationalQ[m,n,nz]
+
+
+(* ::Subsection::Closed:: *)
+(*FractionalPowerOfSquareQ*)
+
+
+(* If a subexpression of u is of the form ((v+w)^2)^n where n is a fraction, *)
+(* FractionalPowerOfSquareQ[u] returns (v+w)^2; else it returns False. *)
+FractionalPowerOfSquareQ[u_] :=
+  If[AtomQ[u],
+    False,
+  If[FractionalPowerQ[u] && MatchQ[u[[1]], a_.*(b_+c_)^2 /; NonsumQ[a]],
+    u[[1]],
+  Module[{tmp},
+  Catch[
+    Scan[Function[If[Not[FalseQ[tmp=FractionalPowerOfSquareQ[#]]],Throw[tmp]]],u];
+    False]]]]
+
+
+(* If a subexpression of u is of the form w^n where n is a fraction but not equal to v, *)
+(* FractionalPowerSubexpressionQ[u,v,w] returns True; else it returns False. *)
+FractionalPowerSubexpressionQ[u_,v_,w_] :=
+  If[AtomQ[u],
+    False,
+  If[FractionalPowerQ[u] && PositiveQ[u[[1]]/w],
+    Not[u[[1]]===v] && LeafCount[w]<3*LeafCount[v],
+  Catch[Scan[Function[If[FractionalPowerSubexpressionQ[#,v,w],Throw[True]]],u]; False]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FixSimplify*)
+
+
+Clear[FixSimplify]
+
+
+(* ::Item:: *)
+(*Basis: If  n\[Element]\[DoubleStruckCapitalZ], then u I (v I+w)^n==(-1)^((n+1)/2) u (v-I w)^n*)
+
+
+FixSimplify[u_.*Complex[0,a_]*(v_.*Complex[0,b_]+w_)^n_.] :=
+  (-1)^((n+1)/2)*a*u*FixSimplify[(b*v-Complex[0,1]*w)^n] /;
+OddQ[n]
+
+
+(* ::Item:: *)
+(*Basis: If  u>0 \[And] v>0, let g=GCD[m,n], then u^m v^n==((u^(m/g) v^(n/g)))^g*)
+
+
+FixSimplify[w_.*u_^m_.*v_^n_] :=
+  With[{z=Simplify[u^(m/GCD[m,n])*v^(n/GCD[m,n])]},
+  FixSimplify[w*z^GCD[m,n]]/;
+ AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
+RationalQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[v] && PositiveQ[u] && PositiveQ[v]
+
+
+FixSimplify[w_.*u_^m_.*v_^n_] :=
+  With[{z=Simplify[u^(m/GCD[m,-n])*v^(n/GCD[m,-n])]},
+  FixSimplify[w*z^GCD[m,-n]]/;
+ AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
+RationalQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[1/v] && PositiveQ[u] && PositiveQ[v]
+
+
+(* ::Item:: *)
+(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] u<0 \[And] v>0, then u^m v^n==-(((-u))^(m/n) v)^n*)
+
+
+FixSimplify[w_.*u_^m_.*v_^n_] :=
+  With[{z=Simplify[(-u)^(m/GCD[m,n])*v^(n/GCD[m,n])]},
+  FixSimplify[-w*z^GCD[m,n]]/;
+ AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
+IntegerQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[v] && NegativeQ[u] && PositiveQ[v]
+
+
+FixSimplify[w_.*u_^m_.*v_^n_] :=
+  With[{z=Simplify[(-u)^(m/GCD[m,-n])*v^(n/GCD[m,-n])]},
+  FixSimplify[-w*z^GCD[m,-n]]/;
+ AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
+IntegerQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[1/v] && NegativeQ[u] && PositiveQ[v]
+
+
+(* ::Item:: *)
+(*Basis: If  p\[Element]\[DoubleStruckCapitalZ] \[Or] a>0, then a^m (u+v)^p==(a^(m/p) u+a^(m/p) v)^p*)
+
+
+FixSimplify[w_.*a_^m_*(u_+b_^n_*v_.)^p_.] :=
+  With[{c=Simplify[a^(m/p)*b^n]},
+  FixSimplify[w*(a^(m/p)*u+c*v)^p] /;
+ RationalQ[c]] /;
+RationalQ[a,b,m,n] && a>0 && b>0 && PositiveIntegerQ[p]
+
+
+(* ::Item:: *)
+(*Basis: If  p\[Element]\[DoubleStruckCapitalZ], then a^m (a^n u+(-a)^p v)==a^(m+n) (u+(-1)^p a^(p-n) v)*)
+
+
+FixSimplify[w_.*a_^m_.*(a_^n_*u_.+b_^p_.*v_.)] :=
+  FixSimplify[w*a^(m+n)*(u+(-1)^p*a^(p-n)*v)] /;
+RationalQ[m] && FractionQ[n] && IntegerQ[p] && p-n>0 && a+b===0
+
+
+(* ::Item:: *)
+(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] b c-a d==0, then (a+b)^m==(b/d)^m (c+d)^m*)
+
+
+FixSimplify[w_.*(a_+b_)^m_.*(c_+d_)^n_] :=
+  With[{q=Simplify[b/d]},
+  FixSimplify[w*q^m*(c+d)^(m+n)] /;
+ FreeQ[q,Plus]] /;
+IntegerQ[m] && Not[IntegerQ[n]] && EqQ[b*c-a*d,0]
+
+
+(* ::Item:: *)
+(*Basis: If  t\[Element]\[DoubleStruckCapitalZ], then (a^m u+a^n v+...)^t==a^(m t) (u+a^(n-m) v+...)^t*)
+
+
+FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.)^t_.] :=
+  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v)^t] /;
+Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n] && 0<m<=n
+
+FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.+a_^p_.*z_.)^t_.] :=
+  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v+a^(p-m)*z)^t] /;
+Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n,p] && 0<m<=n<=p
+
+FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.+a_^p_.*z_.+a_^q_.*y_.)^t_.] :=
+  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v+a^(p-m)*z+a^(q-m)*y)^t] /;
+Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n,p] && 0<m<=n<=p<=q
+
+
+(* ::Item:: *)
+(*Basis: a Sqrt[v]+b Sqrt[v]+...==(a+b+...)Sqrt[v]*)
+
+
+FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_]+c_.*Sqrt[v_]+d_.*Sqrt[v_])] :=
+  FixSimplify[w*(u+FixSimplify[a+b+c+d]*Sqrt[v])]
+
+FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_]+c_.*Sqrt[v_])] :=
+  FixSimplify[w*(u+FixSimplify[a+b+c]*Sqrt[v])]
+
+FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_])] :=
+  FixSimplify[w*(u+FixSimplify[a+b]*Sqrt[v])]
+
+
+(* ::Item:: *)
+(*Basis: If  a>0, then a^(m/4) Sqrt[b(c+d Sqrt[a])]==Sqrt[b(c a^(m/2)+d a^((m+1)/2))]*)
+
+
+(* FixSimplify[u_.*a_^m_*Sqrt[b_.*(c_+d_.*Sqrt[a_])]] :=
+  Sqrt[Together[b*(c*a^(2*m)+d*a^(2*m+1/2))]]*FixSimplify[u] /;
+RationalQ[a,b,c,d,m] && a>0 && Denominator[m]==4
+
+FixSimplify[u_.*a_^m_/Sqrt[b_.*(c_+d_.*Sqrt[a_])]] :=
+  FixSimplify[u]/Sqrt[Together[b*(c/a^(2*m)+d/a^(2*m-1/2))]] /;
+RationalQ[a,b,c,d,m] && a>0 && Denominator[m]==4 *)
+
+
+(* ::Item:: *)
+(*Basis: If  w^-n==v, then v^m w^n==v^(m-1)*)
+
+
+FixSimplify[u_.*v_^m_*w_^n_] :=
+  -FixSimplify[u*v^(m-1)] /;
+RationalQ[m] && Not[RationalQ[w]] && FractionQ[n] && n<0 && EqQ[v+w^(-n),0]
+
+
+(* ::Item:: *)
+(*Basis: If  n\[Element]\[DoubleStruckCapitalZ], then v^m (-v)^n==(-1)^n v^(m+n)*)
+
+
+FixSimplify[u_.*v_^m_*w_^n_.] :=
+  (-1)^(n)*FixSimplify[u*v^(m+n)] /;
+RationalQ[m] && Not[RationalQ[w]] && IntegerQ[n] && EqQ[v+w,0]
+
+
+(* ::Item:: *)
+(*Basis: If  n/p\[Element]\[DoubleStruckCapitalZ], then (-v^p)^m v^n==(-1)^(n/p) (-v^p)^(m+n/p)*)
+
+
+FixSimplify[u_.*(-v_^p_.)^m_*w_^n_.] :=
+  (-1)^(n/p)*FixSimplify[u*(-v^p)^(m+n/p)] /;
+RationalQ[m] && Not[RationalQ[w]] && IntegerQ[n/p] && EqQ[v-w,0]
+
+
+(* ::Item:: *)
+(*Basis: If  (n|n/p)\[Element]\[DoubleStruckCapitalZ], then (-v^p)^m (-v)^n==(-1)^(n+n/p) (-v^p)^(m+n/p)*)
+
+
+FixSimplify[u_.*(-v_^p_.)^m_*w_^n_.] :=
+  (-1)^(n+n/p)*FixSimplify[u*(-v^p)^(m+n/p)] /;
+RationalQ[m] && Not[RationalQ[w]] && IntegersQ[n,n/p] && EqQ[v+w,0]
+
+
+(* ::Item:: *)
+(*Basis: (a-b) (a+b) == a^2-b^2*)
+
+
+FixSimplify[u_.*(a_-b_)^m_.*(a_+b_)^m_.] :=
+  u*(a^2-b^2)^m /;
+IntegerQ[m] && AtomQ[a] && AtomQ[b]
+
+
+FixSimplify[u_.*(c_Symbol*d_Symbol^2-e_Symbol*(b_Symbol*d_Symbol-a_Symbol*e_Symbol))^m_.] :=
+  u*(c*d^2-b*d*e+a*e^2)^m /;
+RationalQ[m] && OrderedQ[{a,b,c,d,e}]
+
+FixSimplify[u_.*(c_Symbol*d_Symbol^2+e_Symbol*(-b_Symbol*d_Symbol+a_Symbol*e_Symbol))^m_.] :=
+  u*(c*d^2-b*d*e+a*e^2)^m /;
+RationalQ[m] && OrderedQ[{a,b,c,d,e}]
+
+FixSimplify[u_.*(-c_Symbol*d_Symbol^2+e_Symbol*(b_Symbol*d_Symbol-a_Symbol*e_Symbol))^m_.] :=
+  (-1)^m*u*(c*d^2-b*d*e+a*e^2)^m /;
+IntegerQ[m] && OrderedQ[{a,b,c,d,e}]
+
+FixSimplify[u_.*(-c_Symbol*d_Symbol^2-e_Symbol*(-b_Symbol*d_Symbol+a_Symbol*e_Symbol))^m_.] :=
+  (-1)^m*u*(c*d^2-b*d*e+a*e^2)^m /;
+RationalQ[m] && OrderedQ[{a,b,c,d,e}]
+
+
+FixSimplify[u_] := u
+
+
+(* ::Subsection::Closed:: *)
+(*SimpFixFactor*)
+
+
+(* SimpFixFactor[(a_.*c_ + b_.*c_)^p_.,x_] :=
+  c^p*SimpFixFactor[(a+b)^p,x] /;
+FreeQ[c,x] && IntegerQ[p] && c^p=!=-1 *)
+
+SimpFixFactor[(a_.*Complex[0,c_] + b_.*Complex[0,d_])^p_.,x_] :=
+  I^p*SimpFixFactor[(a*c+b*d)^p,x] /;
+IntegerQ[p]
+
+SimpFixFactor[(a_.*Complex[0,d_] + b_.*Complex[0,e_]+ c_.*Complex[0,f_])^p_.,x_] :=
+  I^p*SimpFixFactor[(a*d+b*e+c*f)^p,x] /;
+IntegerQ[p]
+
+
+SimpFixFactor[(a_.*c_^r_ + b_.*x_^n_.)^p_.,x_] :=
+  c^(r*p)*SimpFixFactor[(a+b/c^r*x^n)^p,x] /;
+FreeQ[{a,b,c},x] && IntegersQ[n,p] && AtomQ[c] && RationalQ[r] && r<0
+
+SimpFixFactor[(a_. + b_.*c_^r_*x_^n_.)^p_.,x_] :=
+  c^(r*p)*SimpFixFactor[(a/c^r+b*x^n)^p,x] /;
+FreeQ[{a,b,c},x] && IntegersQ[n,p] && AtomQ[c] && RationalQ[r] && r<0
+
+
+SimpFixFactor[(a_.*c_^s_. + b_.*c_^r_.*x_^n_.)^p_.,x_] :=
+  c^(s*p)*SimpFixFactor[(a+b*c^(r-s)*x^n)^p,x] /;
+FreeQ[{a,b,c},x] && IntegersQ[n,p] && RationalQ[s,r] && 0<s<=r && c^(s*p)=!=-1
+
+SimpFixFactor[(a_.*c_^s_. + b_.*c_^r_.*x_^n_.)^p_.,x_] :=
+  c^(r*p)*SimpFixFactor[(a*c^(s-r)+b*x^n)^p,x] /;
+FreeQ[{a,b,c},x] && IntegersQ[n,p] && RationalQ[s,r] && 0<r<s && c^(r*p)=!=-1
+
+SimpFixFactor[u_,x_] := u
+
+
+(* ::Subsection::Closed:: *)
+(*FactorNumericGcd*)
+
+
+(* FactorNumericGcd[u] returns u with the gcd of the numeric coefficients of terms of sums factored out. *)
+FactorNumericGcd[u_] :=
+  If[PowerQ[u] && RationalQ[u[[2]]],
+    FactorNumericGcd[u[[1]]]^u[[2]],
+  If[ProductQ[u],
+    Map[FactorNumericGcd,u],
+  If[SumQ[u],
+    With[{g=Apply[GCD,Map[NumericFactor,Apply[List,u]]]},
+    g*Map[Function[#/g],u]],
+  u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*MergeFactors*)
+
+
+(* MergeFactors[u,v] returns the product of u and v, but with the mergeable factors of u merged into v. *)
+MergeFactors[u_,v_] :=
+  If[ProductQ[u],
+    MergeFactors[Rest[u],MergeFactors[First[u],v]],
+  If[PowerQ[u],
+    If[MergeableFactorQ[u[[1]],u[[2]],v],
+      MergeFactor[u[[1]],u[[2]],v],
+    If[RationalQ[u[[2]]] && u[[2]]<-1 && MergeableFactorQ[u[[1]],-1,v],
+      MergeFactors[u[[1]]^(u[[2]]+1),MergeFactor[u[[1]],-1,v]],
+    u*v]],
+  If[MergeableFactorQ[u,1,v],
+    MergeFactor[u,1,v],
+  u*v]]]
+
+
+(* If MergeableFactorQ[bas,deg,v], MergeFactor[bas,deg,v] return the product of bas^deg and v, 
+	but with bas^deg merged into the factor of v whose base equals bas. *)
+MergeFactor[bas_,deg_,v_] :=
+  If[bas===v,
+    bas^(deg+1),
+  If[PowerQ[v],
+    If[bas===v[[1]],
+      bas^(deg+v[[2]]),
+    MergeFactor[bas,deg/v[[2]],v[[1]]]^v[[2]]],
+  If[ProductQ[v],
+    If[MergeableFactorQ[bas,deg,First[v]],
+      MergeFactor[bas,deg,First[v]]*Rest[v],
+    First[v]*MergeFactor[bas,deg,Rest[v]]],
+  MergeFactor[bas,deg,First[v]] + MergeFactor[bas,deg,Rest[v]]]]]
+
+
+(* MergeableFactorQ[bas,deg,v] returns True iff bas equals the base of a factor of v or bas is a factor of every term of v. *)
+MergeableFactorQ[bas_,deg_,v_] :=
+  If[bas===v,
+    RationalQ[deg+1] && (deg+1>=0 || RationalQ[deg] && deg>0),
+  If[PowerQ[v],
+    If[bas===v[[1]],
+      RationalQ[deg+v[[2]]] && (deg+v[[2]]>=0 || RationalQ[deg] && deg>0),
+    SumQ[v[[1]]] && IntegerQ[v[[2]]] && (Not[IntegerQ[deg]] || IntegerQ[deg/v[[2]]]) && MergeableFactorQ[bas,deg/v[[2]],v[[1]]]],
+  If[ProductQ[v],
+    MergeableFactorQ[bas,deg,First[v]] || MergeableFactorQ[bas,deg,Rest[v]],
+  SumQ[v] && MergeableFactorQ[bas,deg,First[v]] && MergeableFactorQ[bas,deg,Rest[v]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TrigSimplify*)
+
+
+(* TrigSimplifyQ[u] returns True if TrigSimplify[u] actually simplifies u; else False. *)
+TrigSimplifyQ[u_] :=
+  ActivateTrig[u]=!=TrigSimplify[u]
+
+
+(* TrigSimplify[u] returns a bottom-up trig simplification of u. *)
+TrigSimplify[u_] :=
+  ActivateTrig[TrigSimplifyRecur[u]]
+
+
+TrigSimplifyRecur[u_] :=
+  If[AtomQ[u],
+    u,
+  If[Head[u]===If,
+    u,
+  TrigSimplifyAux[Map[TrigSimplifyRecur,u]]]]
+
+Clear[TrigSimplifyAux]
+
+
+(* Basis: a*z^m+b*z^n == z^m*(a+b*z^(n-m)) *)
+TrigSimplifyAux[u_.*(a_.*v_^m_.+b_.*v_^n_.)^p_] :=
+  u*v^(m*p)*TrigSimplifyAux[a+b*v^(n-m)]^p /;
+InertTrigQ[v] && IntegerQ[p] && RationalQ[m,n] && m<n
+
+
+(* ::Subsubsection:: *)
+(*Basis: Sin[z]^2+Cos[z]^2==1*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: Sec[z]^2-Tan[z]^2==1*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: Csc[z]^2-Cot[z]^2==1*)
+
+
+TrigSimplifyAux[a_.*cos[u_]^2+b_.*sin[u_]^2+v_.] := a+v /; a===b
+
+TrigSimplifyAux[a_.*sec[u_]^2+b_.*tan[u_]^2+v_.] := a+v /; a===-b
+
+TrigSimplifyAux[a_.*csc[u_]^2+b_.*cot[u_]^2+v_.] := a+v /; a===-b
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: a Cos[z]^2==a-a Sin[z]^2*)
+
+
+TrigSimplifyAux[(a_.*cos[u_]^2+b_.*sin[u_]^2+v_.)^n_] := 
+  ((b-a)*Sin[u]^2+a+v)^n
+
+
+(* Basis: 1-Sin[z]^2 == Cos[z]^2 *)
+TrigSimplifyAux[u_+v_.*sin[z_]^2+w_.] := u*Cos[z]^2+w /; u===-v
+
+(* Basis: 1-Cos[z]^2 == Sin[z]^2 *)
+TrigSimplifyAux[u_+v_.*cos[z_]^2+w_.] := u*Sin[z]^2+w /; u===-v
+
+(* Basis: 1+Tan[z]^2 == Sec[z]^2 *)
+TrigSimplifyAux[u_+v_.*tan[z_]^2+w_.] := u*Sec[z]^2+w /; u===v
+
+(* Basis: 1+Cot[z]^2 == Csc[z]^2 *)
+TrigSimplifyAux[u_+v_.*cot[z_]^2+w_.] := u*Csc[z]^2+w /; u===v
+
+(* Basis: -1+Sec[z]^2 == Tan[z]^2 *)
+TrigSimplifyAux[u_+v_.*sec[z_]^2+w_.] := v*Tan[z]^2+w /; u===-v
+
+(* Basis: -1+Csc[z]^2 == Cot[z]^2 *)
+TrigSimplifyAux[u_+v_.*csc[z_]^2+w_.] := v*Cot[z]^2+w /; u===-v
+
+
+(* Basis: If a^2-b^2==0, Sin[z]^2/(a+b*Cos[z]) == 1/a-Cos[z]/b *)
+TrigSimplifyAux[u_.*sin[v_]^2/(a_+b_.*cos[v_])] := u*(1/a - Cos[v]/b) /; EqQ[a^2-b^2,0]
+
+(* Basis: If a^2-b^2==0, Cos[z]^2/(a+b*Sin[z]) == 1/a-Sin[z]/b *)
+TrigSimplifyAux[u_.*cos[v_]^2/(a_+b_.*sin[v_])] := u*(1/a - Sin[v]/b) /; EqQ[a^2-b^2,0]
+
+
+(* Basis: If n is an integer, Tan[z]^n/(a+b*Tan[z]^n) == 1/(b+a*Cot[z]^n) *)
+TrigSimplifyAux[u_.*tan[v_]^n_./(a_+b_.*tan[v_]^n_.)] := u/(b+a*Cot[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+(* Basis: If n is an integer, Cot[z]^n/(a+b*Cot[z]^n) == 1/(b+a*Tan[z]^n) *)
+TrigSimplifyAux[u_.*cot[v_]^n_./(a_+b_.*cot[v_]^n_.)] := u/(b+a*Tan[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+(* Basis: If n is an integer, Sec[z]^n/(a+b*Sec[z]^n) == 1/(b+a*Cos[z]^n) *)
+TrigSimplifyAux[u_.*sec[v_]^n_./(a_+b_.*sec[v_]^n_.)] := u/(b+a*Cos[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+(* Basis: If n is an integer, Csc[z]^n/(a+b*Csc[z]^n) == 1/(b+a*Sin[z]^n) *)
+TrigSimplifyAux[u_.*csc[v_]^n_./(a_+b_.*csc[v_]^n_.)] := u/(b+a*Sin[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+
+(* Basis: If n is an integer, Tan[z]^n/(a+b*Sec[z]^n) == Sin[z]^n/(b+a*Cos[z]^n) *)
+TrigSimplifyAux[u_.*tan[v_]^n_./(a_+b_.*sec[v_]^n_.)] := u*Sin[v]^n/(b+a*Cos[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+(* Basis: If n is an integer, Cot[z]^n/(a+b*Csc[z]^n) == Cos[z]^n/(b+a*Sin[z]^n) *)
+TrigSimplifyAux[u_.*cot[v_]^n_./(a_+b_.*csc[v_]^n_.)] := u*Cos[v]^n/(b+a*Sin[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: a Sec[z]+b Tan[z]==Sec[z](a+b Sin[z])*)
+
+
+TrigSimplifyAux[u_.*(a_.*sec[v_]^n_.+b_.*tan[v_]^n_.)^p_.] :=
+  u*Sec[v]^(n*p)*(a+b*Sin[v]^n)^p /;
+IntegersQ[n,p]
+
+TrigSimplifyAux[u_.*(a_.*csc[v_]^n_.+b_.*cot[v_]^n_.)^p_.] :=
+  u*Csc[v]^(n*p)*(a+b*Cos[v]^n)^p /;
+IntegersQ[n,p]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: a Tan[z]+b Sin[z]==Tan[z](a+b Cos[z])*)
+
+
+TrigSimplifyAux[u_.*(a_.*tan[v_]^n_.+b_.*sin[v_]^n_.)^p_.] :=
+  u*Tan[v]^(n*p)*(a+b*Cos[v]^n)^p /;
+IntegersQ[n,p]
+
+TrigSimplifyAux[u_.*(a_.*cot[v_]^n_.+b_.*cos[v_]^n_.)^p_.] :=
+  u*Cot[v]^(n*p)*(a+b*Sin[v]^n)^p /;
+IntegersQ[n,p]
+
+
+(* ::Subsubsection:: *)
+(*Basis: a+b Tan[z]+c Sec[z]==(c+b Sin[z]+a Cos[z])/Cos[z]*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: a+b Tan[z]+c Sec[z]==Sec[z] (c+b Sin[z]+a Cos[z])*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: a+b Cot[z]+c Csc[z]==(c+b Cos[z]+a Sin[z])/Sin[z]*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: a+b Cot[z]+c Csc[z]==Csc[z] (c+b Cos[z]+a Sin[z])*)
+
+
+TrigSimplifyAux[u_.*cos[v_]^m_.*(a_.+b_.*tan[v_]^n_.+c_.*sec[v_]^n_.)^p_.] :=
+  u*Cos[v]^(m-n*p)*(c+b*Sin[v]^n+a*Cos[v]^n)^p /;
+IntegersQ[m,n,p]
+
+TrigSimplifyAux[u_.*sec[v_]^m_.*(a_.+b_.*tan[v_]^n_.+c_.*sec[v_]^n_.)^p_.] :=
+  u*Sec[v]^(m+n*p)*(c+b*Sin[v]^n+a*Cos[v]^n)^p /;
+IntegersQ[m,n,p]
+
+TrigSimplifyAux[u_.*sin[v_]^m_.*(a_.+b_.*cot[v_]^n_.+c_.*csc[v_]^n_.)^p_.] :=
+  u*Sin[v]^(m-n*p)*(c+b*Cos[v]^n+a*Sin[v]^n)^p /;
+IntegersQ[m,n,p]
+
+TrigSimplifyAux[u_.*csc[v_]^m_.*(a_.+b_.*cot[v_]^n_.+c_.*csc[v_]^n_.)^p_.] :=
+  u*Csc[v]^(m+n*p)*(c+b*Cos[v]^n+a*Sin[v]^n)^p /;
+IntegersQ[m,n,p]
+
+
+(* ::Subsubsection:: *)
+(*Basis: If n\[Element]\[DoubleStruckCapitalZ], then  a Csc[z]^m+b Sin[z]^n==(a+b Sin[z]^(m+n))/Sin[z]^m*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If n\[Element]\[DoubleStruckCapitalZ], then  a Sec[z]^m+b Cos[z]^n==(a+b Cos[z]^(m+n))/Cos[z]^m*)
+
+
+TrigSimplifyAux[u_.*(a_.*csc[v_]^m_.+b_.*sin[v_]^n_.)^p_.] :=
+  If[EqQ[m+n-2,0] && EqQ[a+b,0],
+    u*(a*Cos[v]^2/Sin[v]^m)^p,
+  u*((a+b*Sin[v]^(m+n))/Sin[v]^m)^p] /;
+IntegersQ[m,n]
+
+TrigSimplifyAux[u_.*(a_.*sec[v_]^m_.+b_.*cos[v_]^n_.)^p_.] :=
+  If[EqQ[m+n-2,0] && EqQ[a+b,0],
+    u*(a*Sin[v]^2/Cos[v]^m)^p,
+  u*((a+b*Cos[v]^(m+n))/Cos[v]^m)^p] /;
+IntegersQ[m,n]
+
+
+(* (* Basis: Csc[z]+Cot[z] == Cot[z/2] *)
+TrigSimplifyAux[(a_.*csc[v_]+b_.*cot[v_])^n_] := a^n*Cot[v/2]^n /; EvenQ[n] && EqQ[a-b,0]
+
+(* Basis: Csc[z]-Cot[z] == Tan[z/2] *)
+TrigSimplifyAux[(a_.*csc[v_]+b_.*cot[v_])^n_] := a^n*Tan[v/2]^n /; EvenQ[n] && EqQ[a+b,0] *)
+
+
+(* (* Basis: Sin[z]*(a+b*Cot[z]) == a*Sin[z] + b*Cos[z] *)
+(* TrigSimplifyAux[u_*sin[v_]^m_.*(a_.+b_.*cot[v_]^2)^p_.] :=
+  u*(b*Cos[v]^2+a*Sin[v]^2)^p /;
+IntegersQ[m,p] && m==2*p *)
+
+(* Basis: a+b*Cot[z] == (b*Cos[z]+a*Sin[z])/Sin[z] *)
+TrigSimplifyAux[u_.*sin[v_]^m_.*(a_.+b_.*cot[v_]^n_.)^p_.] :=
+  u*Sin[v]^(m-n*p)*(b*Cos[v]^n+a*Sin[v]^n)^p /;
+IntegersQ[m,n,p]
+
+(* Basis: Cos[z]*(a+b*Tan[z]) == a*Cos[z] + b*Sin[z] *)
+(* TrigSimplifyAux[u_*cos[v_]^m_.*(a_.+b_.*tan[v_]^2)^p_.] :=
+  u*(b*Sin[v]^2+a*Cos[v]^2)^p /;
+IntegersQ[m,p] && m==2*p *)
+
+(* Basis: a+b*Tan[z] == (b*Sin[z]+a*Cos[z])/Cos[z] *)
+TrigSimplifyAux[u_.*cos[v_]^m_.*(a_.+b_.*tan[v_]^n_.)^p_.] :=
+  u*Cos[v]^(m-n*p)*(b*Sin[v]^n+a*Cos[v]^n)^p /;
+IntegersQ[m,n,p]
+
+(* Basis: (a+b*Tan[z])/Sec[z] == a*Cos[z] + b*Sin[z] *)
+TrigSimplifyAux[u_*sec[v_]^m_.*(a_.+b_.*tan[v_]^2)^p_.] :=
+  u*(b*Sin[v]^2+a*Cos[v]^2)^p /;
+IntegersQ[m,p] && m+2*p==0
+
+(* Basis: (a+b*Cot[z])/Csc[z] == a*Sin[z] + b*Cos[z] *)
+TrigSimplifyAux[u_*csc[v_]^m_.*(a_.+b_.*cot[v_]^2)^p_.] :=
+  u*(b*Cos[v]^2+a*Sin[v]^2)^p /;
+IntegersQ[m,p] && m+2*p==0 *)
+
+
+(* (* Basis: If n is an integer, Sin[z]^(-n)*(a*Cos[z]^n+b*Sin[z]^n) == b+a*Cot[z]^n *)
+TrigSimplifyAux[sin[v_]^m_.*(a_.*cos[v_]^n_.+b_.*sin[v_]^n_.)^p_] :=
+  (b+a*Cot[v]^n)^p /;
+IntegersQ[m,n,p] && n>0 && p<0 && m==-n*p
+
+(* Basis: If n is an integer, Cos[z]^(-n)*(a*Cos[z]^n+b*Sin[z]^n) == a+b*Tan[z]^n *)
+TrigSimplifyAux[cos[v_]^m_.*(a_.*cos[v_]^n_.+b_.*sin[v_]^n_.)^p_] :=
+  (a+b*Tan[v]^n)^p /;
+IntegersQ[m,n,p] && n>0 && p<0 && m==-n*p *)
+
+
+(* (* Basis: If a^2+b^2=0, 1/(a*Cos[z] + b*Sin[z]) == Cos[z]/a + Sin[z]/b *)
+TrigSimplifyAux[(a_.*cos[v_]+b_.*sin[v_])^n_] :=
+  (Cos[v]/a + Sin[v]/b)^(-n) /;
+IntegerQ[n] && n<0 && EqQ[a^2+b^2,0] *)
+
+
+TrigSimplifyAux[u_] := u
+
+
+(* ::Section::Closed:: *)
+(*Factoring functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*ContentFactor*)
+
+
+(* ContentFactor[expn] returns expn with the content of sum factors factored out. *)
+(* Basis: a*b+a*c == a*(b+c) *)
+ContentFactor[expn_] :=
+  TimeConstrained[ContentFactorAux[expn],$TimeLimit,expn];
+
+ContentFactorAux[expn_] :=
+  If[AtomQ[expn],
+    expn,
+  If[IntegerPowerQ[expn],
+    If[SumQ[expn[[1]]] && NumericFactor[expn[[1,1]]]<0,
+      (-1)^expn[[2]] * ContentFactorAux[-expn[[1]]]^expn[[2]],
+    ContentFactorAux[expn[[1]]]^expn[[2]]],
+  If[ProductQ[expn],
+    Module[{num=1,tmp},
+    tmp=Map[Function[If[SumQ[#] && NumericFactor[#[[1]]]<0, num=-num; ContentFactorAux[-#], ContentFactorAux[#]]], expn];
+    num*UnifyNegativeBaseFactors[tmp]],
+  If[SumQ[expn],
+    With[{lst=CommonFactors[Apply[List,expn]]},
+    If[lst[[1]]===1 || lst[[1]]===-1,
+      expn,
+    lst[[1]]*Apply[Plus,Rest[lst]]]],
+  expn]]]]
+
+
+(* UnifyNegativeBaseFactors[u] returns u with factors of the form (-v)^m and v^n where n is an integer replaced with (-1)^n*(-v)^(m+n). *)
+(* This should be done automatically by the host CAS! *)
+UnifyNegativeBaseFactors[u_.*(-v_)^m_*v_^n_.] :=
+  UnifyNegativeBaseFactors[(-1)^n*u*(-v)^(m+n)] /;
+IntegerQ[n]
+
+UnifyNegativeBaseFactors[u_] :=
+  u
+
+
+(* If lst is a list of n terms, CommonFactors[lst] returns a n+1-element list whose first
+	element is the product of the factors common to all terms of lst, and whose remaining
+	elements are quotients of each term divided by the common factor. *)
+CommonFactors [lst_] :=
+  Module[{lst1,lst2,lst3,lst4,common,base,num},
+  lst1=Map[NonabsurdNumberFactors,lst];
+  lst2=Map[AbsurdNumberFactors,lst];
+  num=Apply[AbsurdNumberGCD,lst2];
+  common=num;
+  lst2=Map[Function[#/num],lst2];
+  While[True,
+    lst3=Map[LeadFactor,lst1];
+    ( If[Apply[SameQ,lst3],
+        common=common*lst3[[1]];
+        lst1=Map[RemainingFactors,lst1],
+      If[MapAnd[Function[LogQ[#] && IntegerQ[First[#]] && First[#]>0],lst3] &&
+           MapAnd[RationalQ,lst4=Map[Function[FullSimplify[#/First[lst3]]],lst3]],
+        num=Apply[GCD,lst4];
+        common=common*Log[(First[lst3][[1]])^num];
+        lst2=Map2[Function[#1*#2/num],lst2,lst4];
+        lst1=Map[RemainingFactors,lst1],
+      lst4=Map[LeadDegree,lst1];
+      If[Apply[SameQ,Map[LeadBase,lst1]] && MapAnd[RationalQ,lst4],
+        num=Smallest[lst4];
+        base=LeadBase[lst1[[1]]];
+        ( If[num!=0,
+            common=common*base^num] );
+        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
+        lst1=Map[RemainingFactors,lst1],
+      If[Length[lst1]==2 && EqQ[LeadBase[lst1[[1]]]+LeadBase[lst1[[2]]],0] && 
+         NeQ[lst1[[1]],1] && IntegerQ[lst4[[1]]] && FractionQ[lst4[[2]]],
+        num=Min[lst4];
+        base=LeadBase[lst1[[2]]];
+        ( If[num!=0,
+            common=common*base^num] );
+        lst2={lst2[[1]]*(-1)^lst4[[1]],lst2[[2]]};
+        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
+        lst1=Map[RemainingFactors,lst1],
+      If[Length[lst1]==2 && EqQ[LeadBase[lst1[[1]]]+LeadBase[lst1[[2]]],0] && 
+         NeQ[lst1[[2]],1] && IntegerQ[lst4[[2]]] && FractionQ[lst4[[1]]],
+        num=Min[lst4];
+        base=LeadBase[lst1[[1]]];
+        ( If[num!=0,
+            common=common*base^num] );
+        lst2={lst2[[1]],lst2[[2]]*(-1)^lst4[[2]]};
+        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
+        lst1=Map[RemainingFactors,lst1],
+      num=MostMainFactorPosition[lst3];
+      lst2=ReplacePart[lst2,lst3[[num]]*lst2[[num]],num];      
+      lst1=ReplacePart[lst1,RemainingFactors[lst1[[num]]],num]]]]]] );
+    If[MapAnd[Function[#===1],lst1],
+      Return[Prepend[lst2,common]]]]]
+
+
+MostMainFactorPosition[lst_List] :=
+  Module[{factor=1,num=1,i},
+  Do[If[FactorOrder[lst[[i]],factor]>0,factor=lst[[i]];num=i],{i,Length[lst]}];
+  num]
+
+
+FactorOrder[u_,v_] :=
+  If[u===1,
+    If[v===1,
+      0,
+    -1],
+  If[v===1,
+    1,
+  Order[u,v]]]
+
+
+Smallest[num1_,num2_] :=
+  If[num1>0,
+    If[num2>0,
+      Min[num1,num2],
+    0],
+  If[num2>0,
+    0,
+  Max[num1,num2]]]
+
+Smallest[lst_List] :=
+  Module[{num=lst[[1]]},
+  Scan[Function[num=Smallest[num,#]],Rest[lst]];
+  num]
+
+
+(* ::Subsection::Closed:: *)
+(*MonomialFactor*)
+
+
+(* MonomialFactor[u,x] returns the list {n,v} where x^n*v==u and n is free of x. *)
+MonomialFactor[u_,x_Symbol] :=
+  If[AtomQ[u],
+    If[u===x,
+      {1,1},
+    {0,u}],
+  If[PowerQ[u],
+    If[IntegerQ[u[[2]]],
+      With[{lst=MonomialFactor[u[[1]],x]},
+      {lst[[1]]*u[[2]],lst[[2]]^u[[2]]}],
+    If[u[[1]]===x && FreeQ[u[[2]],x],
+      {u[[2]],1},
+    {0,u}]],
+  If[ProductQ[u],
+    With[{lst1=MonomialFactor[First[u],x],lst2=MonomialFactor[Rest[u],x]},
+    {lst1[[1]]+lst2[[1]],lst1[[2]]*lst2[[2]]}],
+  If[SumQ[u],
+    Module[{lst,deg},
+    lst=Map[Function[MonomialFactor[#,x]],Apply[List,u]];
+    deg=lst[[1,1]];
+    Scan[Function[deg=MinimumDegree[deg,#[[1]]]],Rest[lst]];
+    If[EqQ[deg,0] || RationalQ[deg] && deg<0,
+      {0,u},
+    {deg,Apply[Plus,Map[Function[x^(#[[1]]-deg)*#[[2]]],lst]]}]],
+  {0,u}]]]]
+
+
+MinimumDegree[deg1_,deg2_] :=
+  If[RationalQ[deg1],
+    If[RationalQ[deg2],
+      Min[deg1,deg2],
+    deg1],
+  If[RationalQ[deg2],
+    deg2,
+  With[{deg=Simplify[deg1-deg2]},
+  If[RationalQ[deg],
+    If[deg>0,
+      deg2,
+    deg1],
+  If[OrderedQ[{deg1,deg2}],
+    deg1,
+  deg2]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ConstantFactor*)
+
+
+(* ConstantFactor[u,x] returns a 2-element list of the factors of u[x] free of x and the 
+	factors not free of u[x].  Common constant factors of the terms of sums are also collected. *)
+ConstantFactor[u_,x_Symbol] :=
+  If[FreeQ[u,x],
+    {u,1},
+  If[AtomQ[u],
+    {1,u},
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    Module[{lst=ConstantFactor[u[[1]],x],tmp},
+    If[IntegerQ[u[[2]]],
+      {lst[[1]]^u[[2]],lst[[2]]^u[[2]]},
+    tmp=PositiveFactors[lst[[1]]];
+    If[tmp===1,
+      {1,u},
+    {tmp^u[[2]],(NonpositiveFactors[lst[[1]]]*lst[[2]])^u[[2]]}]]],
+  If[ProductQ[u],
+    With[{lst=Map[Function[ConstantFactor[#,x]],Apply[List,u]]},
+    {Apply[Times,Map[First,lst]],Apply[Times,Map[Function[#[[2]]],lst]]}],
+  If[SumQ[u],
+    With[{lst1=Map[Function[ConstantFactor[#,x]],Apply[List,u]]},
+    If[Apply[SameQ,Map[Function[#[[2]]],lst1]],
+      {Apply[Plus,Map[First,lst1]],lst1[[1,2]]},
+    With[{lst2=CommonFactors[Map[First,lst1]]},
+    {First[lst2],Apply[Plus,Map2[Times,Rest[lst2],Map[Function[#[[2]]],lst1]]]}]]],
+  {1,u}]]]]]
+
+
+(* PositiveFactors[u] returns the positive factors of u *)
+PositiveFactors[u_] :=
+  If[EqQ[u,0],
+    1,
+  If[RationalQ[u],
+    Abs[u],
+  If[PositiveQ[u],
+    u,
+  If[ProductQ[u],
+    Map[PositiveFactors,u],
+  1]]]]
+
+
+(* NonpositiveFactors[u] returns the nonpositive factors of u *)
+NonpositiveFactors[u_] :=
+  If[EqQ[u,0],
+    u,
+  If[RationalQ[u],
+    Sign[u],
+  If[PositiveQ[u],
+    1,
+  If[ProductQ[u],
+    Map[NonpositiveFactors,u],
+  u]]]]
+
+
+(* ::Section::Closed:: *)
+(*Generalized polynomial functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*PolynomialInQ*)
+
+
+(* ::Item:: *)
+(*If u is a polynomial in v[x], PolynomialInQ[u,v,x] returns True; else it returns False.*)
+
+
+PolynomialInQ[u_,v_,x_Symbol] :=
+  PolynomialInAuxQ[u,NonfreeFactors[NonfreeTerms[v,x],x],x]
+
+
+PolynomialInAuxQ[u_,v_,x_] :=
+  If[u===v,
+    True,
+  If[AtomQ[u],
+    u=!=x,
+  If[PowerQ[u],
+    If[PowerQ[v] && u[[1]]===v[[1]],
+      PositiveIntegerQ[u[[2]]/v[[2]]],
+    PositiveIntegerQ[u[[2]]] && PolynomialInAuxQ[u[[1]],v,x]],
+  If[SumQ[u] || ProductQ[u],
+    Catch[Scan[Function[If[Not[PolynomialInAuxQ[#,v,x]],Throw[False]]],u];True],
+  False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExponentIn*)
+
+
+(* ::Item:: *)
+(*If u[v] is a polynomial in w, GeneralizedExponent[u,v,x] returns the degree of the u[x].*)
+
+
+ExponentIn[u_,v_,x_Symbol] :=
+  ExponentInAux[u,NonfreeFactors[NonfreeTerms[v,x],x],x]
+
+
+ExponentInAux[u_,v_,x_] :=
+  If[u===v,
+    1,
+  If[AtomQ[u],
+    0,
+  If[PowerQ[u],
+    If[PowerQ[v] && u[[1]]===v[[1]],
+      u[[2]]/v[[2]],
+    u[[2]]*ExponentInAux[u[[1]],v,x]],
+  If[ProductQ[u],
+    Apply[Plus,Map[Function[ExponentInAux[#,v,x]],Apply[List,u]]],
+  Apply[Max,Map[Function[ExponentInAux[#,v,x]],Apply[List,u]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PolynomialInSubst*)
+
+
+(* ::Item:: *)
+(*If u is a polynomial in v[x], PolynomialInSubst[u,v,x] returns the polynomial u in x.*)
+
+
+PolynomialInSubst[u_,v_,x_Symbol] :=
+  With[{w=NonfreeTerms[v,x]},
+  ReplaceAll[PolynomialInSubstAux[u,NonfreeFactors[w,x],x],{x->(x-FreeTerms[v,x])/FreeFactors[w,x]}]]
+
+
+PolynomialInSubstAux[u_,v_,x_] :=
+  If[u===v,
+    x,
+  If[AtomQ[u],
+    u,
+  If[PowerQ[u],
+    If[PowerQ[v] && u[[1]]===v[[1]],
+      x^(u[[2]]/v[[2]]),
+    PolynomialInSubstAux[u[[1]],v,x]^u[[2]]],
+  Map[Function[PolynomialInSubstAux[#,v,x]],u]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PolynomialDivide*)
+
+
+(* ::Item:: *)
+(*u and v are polynomials in x.  PolynomialDivide[u,v,x] returns the polynomial quotient of u and v plus the polynomial remainder divided by v.*)
+
+
+PolynomialDivide[u_,v_,x_Symbol] :=
+  Module[{quo=PolynomialQuotient[u,v,x],rem=PolynomialRemainder[u,v,x],free,monomial},
+  quo=Apply[Plus,Map[Function[Simp[Together[Coefficient[quo,x,#]*x^#],x]],Exponent[quo,x,List]]];
+  rem=Together[rem];
+  free=FreeFactors[rem,x];
+  rem=NonfreeFactors[rem,x];
+  monomial=x^Exponent[rem,x,Min];
+  If[NegQ[Coefficient[rem,x,0]], monomial=-monomial];
+  rem=Apply[Plus,Map[Function[Simp[Together[Coefficient[rem,x,#]*x^#/monomial],x]],Exponent[rem,x,List]]];
+(*rem=Simplify[rem]; *)
+  If[BinomialQ[v,x],
+    quo+free*monomial*rem/ExpandToSum[v,x],
+  quo+free*monomial*rem/v]]
+
+
+(* ::Item:: *)
+(*u[w] and v[w] are polynomials in w.  PolynomialDivide[u,v,w,x] returns the polynomial quotient of u[x] and v[x] plus the polynomial remainder divided by v[x] with x replaced by w.*)
+
+
+PolynomialDivide[u_,v_,w_,x_Symbol] :=
+  ReplaceAll[PolynomialDivide[PolynomialInSubst[u,w,x],PolynomialInSubst[v,w,x],x],{x->w}]
+
+
+(* ::Section::Closed:: *)
+(*Expansion functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandToSum[u,x]*)
+
+
+(* ::Item:: *)
+(*ExpandToSum[u,v,x] returns v expanded into a sum of monomials of x and distributes u over v.*)
+
+
+ExpandToSum[u_,v_,x_Symbol] :=
+  Module[{w=ExpandToSum[v,x],r},
+  r=NonfreeTerms[w,x];
+  If[SumQ[r],
+    u*FreeTerms[w,x]+Map[Function[MergeMonomials[u*#,x]],r],
+  u*FreeTerms[w,x]+MergeMonomials[u*r,x]]]
+
+
+(* ::Item:: *)
+(*ExpandToSum[u,x] returns u expanded into a sum of monomials of x.*)
+
+
+ExpandToSum[u_,x_Symbol] :=
+  If[PolyQ[u,x],
+    Apply[Plus,Map[Function[Coeff[u,x,#]*x^#], Expon[u,x,List]]],
+  If[BinomialQ[u,x],
+    Function[#[[1]] + #[[2]]*x^#[[3]]][BinomialParts[u,x]],
+  If[TrinomialQ[u,x],
+    Function[#[[1]] + #[[2]]*x^#[[4]] + #[[3]]*x^(2*#[[4]])][TrinomialParts[u,x]],
+  If[GeneralizedBinomialQ[u,x],
+    Function[#[[1]]*x^#[[4]] + #[[2]]*x^#[[3]]][GeneralizedBinomialParts[u,x]],
+  If[GeneralizedTrinomialQ[u,x],
+    Function[#[[1]]*x^#[[5]] + #[[2]]*x^#[[4]] + #[[3]]*x^(2*#[[4]]-#[[5]])][GeneralizedTrinomialParts[u,x]],
+  Print["Warning: Unrecognized expression for expansion ",u];
+  Expand[u,x]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandTrig[u,x]*)
+
+
+ExpandTrig[u_,x_Symbol] :=
+  ActivateTrig[ExpandIntegrand[u,x]]
+
+ExpandTrig[u_,v_,x_Symbol] :=
+  With[{w=ExpandTrig[v,x],z=ActivateTrig[u]},
+  If[SumQ[w],
+    Map[Function[z*#],w],
+  z*w]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandIntegrand[u,x]*)
+
+
+Clear[ExpandIntegrand];
+
+ExpandIntegrand[u_,v_,x_Symbol] :=
+  Module[{w=ExpandIntegrand[v,x],r},
+  r=NonfreeTerms[w,x];
+  If[SumQ[r],
+    u*FreeTerms[w,x]+Map[Function[MergeMonomials[u*#,x]],r],
+  u*FreeTerms[w,x]+MergeMonomials[u*r,x]]]
+
+
+(* ExpandIntegrand[u_,x_Symbol] :=
+  With[{nn=FunctionOfPower[u,x]},
+  ReplaceAll[ExpandIntegrand[SubstFor[x^nn,u,x],x],x->x^nn] /;
+ nn!=1] *)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: (a+b x)^m/(c+d x)==(b (a+b x)^(m-1))/d+((a d-b c) (a+b x)^(m-1))/(d (c+d x))*)
+
+
+ExpandIntegrand[(a_.+b_.*x_)^m_.*f_^(e_.*(c_.+d_.*x_)^n_.)/(g_.+h_.*x_),x_Symbol] :=
+  With[{tmp=a*h-b*g},
+  Module[{k},
+  SimplifyTerm[tmp^m/h^m,x]*f^(e*(c+d*x)^n)/(g+h*x) + 
+	Sum[SimplifyTerm[b*tmp^(k-1)/h^k,x]*f^(e*(c+d*x)^n)*(a+b*x)^(m-k),{k,1,m}]]] /;
+FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[m] && EqQ[b*c-a*d,0]
+
+
+ExpandIntegrand[x_^m_.*(e_+f_.*x_)^p_.*F_^(b_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
+  If[PositiveIntegerQ[m,p] && m<=p && (EqQ[n,1] || EqQ[d*e-c*f,0]),
+    ExpandLinearProduct[(e+f*x)^p*F^(b*(c+d*x)^n),x^m,e,f,x],
+  If[PositiveIntegerQ[p],
+    Distribute[x^m*F^(b*(c+d*x)^n)*Expand[(e+f*x)^p,x],Plus,Times],
+  ExpandIntegrand[F^(b*(c+d*x)^n),x^m*(e+f*x)^p,x]]] /;
+FreeQ[{F,b,c,d,e,f,m,n,p},x]
+
+
+ExpandIntegrand[x_^m_.*(e_+f_.*x_)^p_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
+  If[PositiveIntegerQ[m,p] && m<=p && (EqQ[n,1] || EqQ[d*e-c*f,0]),
+    ExpandLinearProduct[(e+f*x)^p*F^(a+b*(c+d*x)^n),x^m,e,f,x],
+  If[PositiveIntegerQ[p],
+    Distribute[x^m*F^(a+b*(c+d*x)^n)*Expand[(e+f*x)^p,x],Plus,Times],
+  ExpandIntegrand[F^(a+b*(c+d*x)^n),x^m*(e+f*x)^p,x]]] /;
+FreeQ[{F,a,b,c,d,e,f,m,n,p},x]
+
+
+ExpandIntegrand[u_.*(a_+b_.*F_^v_)^m_.*(c_+d_.*F_^v_)^n_,x_Symbol] :=
+  With[{w=ReplaceAll[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x->F^v]},
+  Map[Function[u*#],w] /;
+ SumQ[w]] /;
+FreeQ[{F,a,b,c,d},x] && IntegersQ[m,n] && n<0
+
+
+ExpandIntegrand[u_*(a_.+b_.*x_)^m_.*f_^(e_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
+  With[{v=ExpandIntegrand[u*(a+b*x)^m,x]},
+  Distribute[f^(e*(c+d*x)^n)*v,Plus,Times] /;
+ SumQ[v]] /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && PolynomialQ[u,x]
+
+
+ExpandIntegrand[u_*(a_.+b_.*x_)^m_.*Log[c_.*(d_.+e_.*x_^n_.)^p_.],x_Symbol] :=
+  ExpandIntegrand[Log[c*(d+e*x^n)^p],u*(a+b*x)^m,x] /; 
+FreeQ[{a,b,c,d,e,m,n,p},x] && PolynomialQ[u,x]
+
+
+ExpandIntegrand[u_*f_^(e_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
+  If[EqQ[n,1],
+    ExpandIntegrand[f^(e*(c+d*x)^n),u,x],
+  ExpandLinearProduct[f^(e*(c+d*x)^n),u,c,d,x]] /;
+FreeQ[{c,d,e,f,n},x] && PolynomialQ[u,x]
+
+
+ExpandIntegrand[F_[u_]^m_.*(a_+b_.*G_[u_])^n_.,x_Symbol] :=
+  ReplaceAll[ExpandIntegrand[(a+b*x)^n/x^m,x],x->G[u]] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && F[u]*G[u]===1
+
+
+ExpandIntegrand[u_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
+  ExpandLinearProduct[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,u,e,f,x] /;
+FreeQ[{a,b,c,d,e,f,n,p,q},x] && PolynomialQ[u,x]
+
+
+ExpandIntegrand[u_*(a_.+b_.*F_[c_.+d_.*x_])^n_,x_Symbol] :=
+  ExpandLinearProduct[(a+b*F[c+d*x])^n,u,c,d,x] /;
+FreeQ[{a,b,c,d,n},x] && PolynomialQ[u,x] && MemberQ[{ArcSin,ArcCos,ArcSinh,ArcCosh},F]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: 1/(a x^n+b Sqrt[c+d x^(2 n)])==(a x^n-b Sqrt[c+d x^(2 n)])/(-b^2 c+(a^2-b^2 d) x^(2 n))*)
+
+
+ExpandIntegrand[u_./(a_.*x_^n_+b_.*Sqrt[c_+d_.*x_^j_]),x_Symbol] :=
+  ExpandIntegrand[u*(a*x^n-b*Sqrt[c+d*x^(2*n)])/(-b^2*c+(a^2-b^2*d)*x^(2*n)),x] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[j,2*n,0]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: (a+b x)^m/(c+d x)==(b (a+b x)^(m-1))/d+((a d-b c) (a+b x)^(m-1))/(d (c+d x))*)
+
+
+ExpandIntegrand[(a_+b_.*x_)^m_/(c_+d_.*x_),x_Symbol] :=
+  If[RationalQ[a,b,c,d],
+    ExpandExpression[(a+b*x)^m/(c+d*x),x],
+  With[{tmp=a*d-b*c},
+  Module[{k},
+  SimplifyTerm[tmp^m/d^m,x]/(c+d*x) + Sum[SimplifyTerm[b*tmp^(k-1)/d^k,x]*(a+b*x)^(m-k),{k,1,m}]]]] /;
+FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: ((a+b x)^m (A+B x))/(c+d x)==(B (a+b x)^m)/d+((A d-B c) (a+b x)^m)/(d (c+d x))*)
+
+
+ExpandIntegrand[(a_+b_.*x_)^m_.*(A_+B_.*x_)/(c_+d_.*x_),x_Symbol] :=
+  If[RationalQ[a,b,c,d,A,B],
+    ExpandExpression[(a+b*x)^m*(A+B*x)/(c+d*x),x],
+  Module[{tmp1,tmp2},
+  tmp1=(A*d-B*c)/d;
+  tmp2=ExpandIntegrand[(a+b*x)^m/(c+d*x),x];
+  tmp2=If[SumQ[tmp2], Map[Function[SimplifyTerm[tmp1*#,x]],tmp2], SimplifyTerm[tmp1*tmp2,x]];
+  SimplifyTerm[B/d,x]*(a+b*x)^m + tmp2]] /;
+FreeQ[{a,b,c,d,A,B},x] && PositiveIntegerQ[m]
+
+
+(* u is a polynomial in x.  ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
+ExpandIntegrand[u_*(a_+b_.*x_)^m_,x_Symbol] :=
+  Module[{tmp1,tmp2},
+  tmp1=ExpandLinearProduct[(a+b*x)^m,u,a,b,x];
+  If[Not[IntegerQ[m]] || m>2 && LinearQ[u,x],
+    tmp1,
+  tmp2=ExpandExpression[u*(a+b*x)^m,x];
+  If[SumQ[tmp2],
+    If[m>0,
+      If[Length[tmp2]<=Exponent[u,x]+2,
+        tmp2,
+      tmp1],
+    If[LeafCount[tmp2]<=LeafCount[tmp1]+2,
+      tmp2,
+    tmp1]],
+  tmp1]]] /;
+FreeQ[{a,b,m},x] && PolynomialQ[u,x] && 
+  Not[PositiveIntegerQ[m] && MatchQ[u,w_.*(c_+d_.*x)^p_ /; FreeQ[{c,d},x] && IntegerQ[p] && p>m]]
+
+
+(* If u is a polynomial in x, ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
+ExpandIntegrand[u_*v_^n_*(a_+b_.*x_)^m_,x_Symbol] :=
+  Function[ExpandIntegrand[#[[1]]*(a+b*x)^FractionalPart[m],x] + ExpandIntegrand[#[[2]]*v^n*(a+b*x)^m,x]][
+    PolynomialQuotientRemainder[u,v^(-n)*(a+b*x)^(-IntegerPart[m]),x]]/;
+FreeQ[{a,b,m},x] && NegativeIntegerQ[n] && Not[IntegerQ[m]] && PolynomialQ[u,x] && PolynomialQ[v,x] && 
+  RationalQ[m] && m<-1 && Exponent[u,x]>=-(n+IntegerPart[m])*Exponent[v,x]
+
+
+(* If u is a polynomial in x, ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
+ExpandIntegrand[u_*v_^n_*(a_+b_.*x_)^m_,x_Symbol] :=
+  Function[ExpandIntegrand[#[[1]]*(a+b*x)^m,x] + ExpandIntegrand[#[[2]]*v^n*(a+b*x)^m,x]][PolynomialQuotientRemainder[u,v^(-n),x]]/;
+FreeQ[{a,b,m},x] && NegativeIntegerQ[n] && Not[IntegerQ[m]] && PolynomialQ[u,x] && PolynomialQ[v,x] && 
+  Exponent[u,x]>=-n*Exponent[v,x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: Let r/s=(-(a/b))^(1/3), then  1/(a+b z^3)==r/(3a(r-s z))+(r(2 r+s z))/(3a(r^2+r s z+s^2 z^2))*)
+
+
+(* ExpandIntegrand[1/(a_+b_.*u_^3),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,3]],s=Denominator[Rt[-a/b,3]]},
+  r/(3*a*(r-s*u)) + r*(2*r+s*u)/(3*a*(r^2+r*s*u+s^2*u^2))] /;
+FreeQ[{a,b},x] *)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: Let r/s=Sqrt[-(a/b)], then  1/(a+b z^2)==r/(2a(r-s z))+r/(2a(r+s z))*)
+
+
+ExpandIntegrand[1/(a_+b_.*u_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,2]],s=Denominator[Rt[-a/b,2]]},
+  r/(2*a*(r-s*u^(n/2))) + r/(2*a*(r+s*u^(n/2)))] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[n/4]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  n\[Element]SuperPlus[\[DoubleStruckCapitalZ]], let r/s=(-(a/b))^(1/n), then  1/(a + b*z^n) == (r*Sum[1/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
+
+
+ExpandIntegrand[1/(a_+b_.*u_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
+  Module[{k},
+  Sum[r/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
+FreeQ[{a,b},x] && IntegerQ[n] && n>1
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If (m|n)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
+
+
+ExpandIntegrand[(c_+d_.*u_^m_.)/(a_+b_.*u_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
+  Module[{k},
+  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
+FreeQ[{a,b,c,d},x] && IntegersQ[m,n] && 0<m<n
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If (m|n,p)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<p<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m + e*z^p)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)) + (e*(r/s)^p)/(-1)^(2*k*(p/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
+
+
+ExpandIntegrand[(c_.+d_.*u_^m_.+e_.*u_^p_)/(a_+b_.*u_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
+  Module[{k},
+  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n)+r*e*(r/s)^p*(-1)^(-2*k*p/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
+FreeQ[{a,b,c,d,e},x] && IntegersQ[m,n,p] && 0<m<p<n
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If (m|n,p,q)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<p<q<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m + e*z^p + f*z^q)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)) + (e*(r/s)^p)/(-1)^(2*k*(p/n)) + (f*(r/s)^q)/(-1)^(2*k*(q/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
+
+
+ExpandIntegrand[(c_.+d_.*u_^m_.+e_.*u_^p_+f_.*u_^q_)/(a_+b_.*u_^n_),x_Symbol] :=
+  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
+  Module[{k},
+  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n)+r*e*(r/s)^p*(-1)^(-2*k*p/n)+r*f*(r/s)^q*(-1)^(-2*k*q/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
+FreeQ[{a,b,c,d,e,f},x] && IntegersQ[m,n,p,q] && 0<m<p<q<n
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  q=Sqrt[-a c], then a+c z^2==((-q+c z)(q+c z))/c*)
+
+
+ExpandIntegrand[(a_+c_.*u_^n_.)^p_,x_Symbol] :=
+  Module[{q},
+  ReplaceAll[ExpandIntegrand[1/c^p,(-q+c*x)^p*(q+c*x)^p,x],{q->Rt[-a*c,2],x->u^(n/2)}]] /;
+FreeQ[{a,c},x] && IntegerQ[n/2] && NegativeIntegerQ[p]
+
+
+ExpandIntegrand[u_^m_.*(a_.+c_.*u_^n_.)^p_,x_Symbol] :=
+  Module[{q},
+  ReplaceAll[ExpandIntegrand[1/c^p,x^m*(-q+c*x^(n/2))^p*(q+c*x^(n/2))^p,x],{q->Rt[-a*c,2],x->u}]] /;
+FreeQ[{a,c},x] && IntegersQ[m,n/2] && NegativeIntegerQ[p] && 0<m<n && m!=n/2
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  q=Sqrt[b^2-4 a c], then a+b z+c z^2 == (b-q+2 c z)(b+q+2 c z)/(4 c)*)
+
+
+ExpandIntegrand[(a_.+b_.*u_^n_.+c_.*u_^j_.)^p_,x_Symbol] :=
+  Module[{q},
+  ReplaceAll[ExpandIntegrand[1/(4^p*c^p),(b-q+2*c*x)^p*(b+q+2*c*x)^p,x],{q->Rt[b^2-4*a*c,2],x->u^n}]] /;
+FreeQ[{a,b,c},x] && IntegerQ[n] && EqQ[j,2*n] && NegativeIntegerQ[p] && NeQ[b^2-4*a*c,0]
+
+
+ExpandIntegrand[u_^m_.*(a_.+b_.*u_^n_.+c_.*u_^j_.)^p_,x_Symbol] :=
+  Module[{q},
+  ReplaceAll[ExpandIntegrand[1/(4^p*c^p),x^m*(b-q+2*c*x^n)^p*(b+q+2*c*x^n)^p,x],{q->Rt[b^2-4*a*c,2],x->u}]] /;
+FreeQ[{a,b,c},x] && IntegersQ[m,n,j] && EqQ[j,2*n] && NegativeIntegerQ[p] && 0<m<2*n && Not[m==n && p==-1] && NeQ[b^2-4*a*c,0]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  q=Sqrt[-(a/b)], then (c+d z)/(a+b z^2)==-((c-d q)/(2 b q(q+z)))-(c+d q)/(2 b q(q-z))*)
+
+
+ExpandIntegrand[(c_+d_.*u_^n_.)/(a_+b_.*u_^j_.),x_Symbol] :=
+  With[{q=Rt[-a/b,2]},
+  -(c-d*q)/(2*b*q*(q+u^n)) - (c+d*q)/(2*b*q*(q-u^n))] /;
+FreeQ[{a,b,c,d,n},x] && EqQ[j,2*n]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: If  q=Sqrt[b^2-4a c] and r=(2 c d-b e)/q, then (d+e z)/(a+b z+c z^2)==(e+r)/(b-q+2 c z)+(e-r)/(b+q+2 c z)*)
+
+
+ExpandIntegrand[(d_.+e_.*(f_.+g_.*u_^n_.))/(a_.+b_.*u_^n_.+c_.*u_^j_.),x_Symbol] :=
+  With[{q=Rt[b^2-4*a*c,2]}, With[{r=TogetherSimplify[(2*c*(d+e*f)-b*e*g)/q]},
+  (e*g+r)/(b-q+2*c*u^n) + (e*g-r)/(b+q+2*c*u^n)]] /;
+FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[j,2*n] && NeQ[b^2-4*a*c,0]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: Miscellaneous*)
+
+
+(* ExpandIntegrand[u_/v_,x_Symbol] :=
+  With[{lst=CoefficientList[u,x]},
+  Module[{i},
+  lst[[-1]]*x^Exponent[u,x]/v + Sum[lst[[i]]*x^(i-1),{i,1,Exponent[u,x]}]/v]] /;
+PolynomialQ[u,x] && PolynomialQ[v,x] && BinomialQ[v,x] && Exponent[u,x]==Exponent[v,x]-1>=2 *)
+
+
+ExpandIntegrand[u_/v_,x_Symbol] :=
+  PolynomialDivide[u,v,x] /;
+PolynomialQ[u,x] && PolynomialQ[v,x] && Exponent[u,x]>=Exponent[v,x]
+
+
+ExpandIntegrand[u_*(a_.*x_)^p_,x_Symbol] :=
+  ExpandToSum[(a*x)^p,u,x] /;
+Not[IntegerQ[p]] && PolynomialQ[u,x]
+
+
+ExpandIntegrand[u_.*v_^p_,x_Symbol] :=
+  ExpandIntegrand[NormalizeIntegrand[v^p,x],u,x] /;
+Not[IntegerQ[p]]
+
+
+ExpandIntegrand[u_,x_Symbol] :=
+  With[{v=ExpandExpression[u,x]},
+    v /;
+ SumQ[v]]
+
+
+ExpandIntegrand[u_^m_./(a_+b_.*u_^n_),x_Symbol] :=
+  ExpandBinomial[a,b,m,n,u,x] /;
+FreeQ[{a,b},x] && IntegersQ[m,n] && 0<m<n
+
+
+ExpandIntegrand[u_,x_Symbol] := u
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandExpression[u,x]*)
+
+
+ExpandExpression[u_,x_Symbol] :=
+  Module[{v,w},
+  v=If[AlgebraicFunctionQ[u,x] && Not[RationalFunctionQ[u,x]], ExpandAlgebraicFunction[u,x], 0];
+  If[SumQ[v],
+    ExpandCleanup[v,x],
+  v=SmartApart[u,x];
+  If[SumQ[v],
+    ExpandCleanup[v,x],
+  v=SmartApart[RationalFunctionFactors[u,x],x,x];
+  If[SumQ[v],
+    w=NonrationalFunctionFactors[u,x];
+    ExpandCleanup[Map[Function[#*w],v],x],
+  v=Expand[u,x];
+  If[SumQ[v],
+    ExpandCleanup[v,x],
+  v=Expand[u];
+  If[SumQ[v],
+    ExpandCleanup[v,x],
+  SimplifyTerm[u,x]]]]]]]
+
+
+ExpandCleanup[u_,x_Symbol] :=
+  Module[{v},
+  v=CollectReciprocals[u,x];
+  If[SumQ[v],
+    v=Map[Function[SimplifyTerm[#,x]],v];
+    If[SumQ[v],
+      UnifySum[v,x],
+    v],
+  v]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Basis: e/(a+b x)+f/(c+d x)==(c e+a f+(d e+b f) x)/(a c+(b c+a d) x+b d x^2)*)
+
+
+CollectReciprocals[u_.+e_/(a_+b_.*x_)+f_/(c_+d_.*x_),x_Symbol] :=
+  CollectReciprocals[u+(c*e+a*f)/(a*c+b*d*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d,0] && EqQ[d*e+b*f,0] 
+
+CollectReciprocals[u_.+e_/(a_+b_.*x_)+f_/(c_+d_.*x_),x_Symbol] :=
+  CollectReciprocals[u+(d*e+b*f)*x/(a*c+b*d*x^2),x] /;
+FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d,0] && EqQ[c*e+a*f,0]
+
+CollectReciprocals[u_,x_Symbol] := u
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandBinomial[u,x]*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: If  (m|(n-1)/2)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(a/b)^(1/n), then z^m/(a + b*z^n) == (r*(-(r/s))^m*Sum[1/((-1)^(2*k*(m/n))*(r + (-1)^(2*(k/n))*s*z)), {k, 1, n}])/(a*n) == (r*(-(r/s))^m*Sum[(-1)^(2*k*((m + 1)/n))/((-1)^(2*(k/n))*r + s*z), {k, 1, n}])/(a*n)*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: If  r/s=(-(a/b))^(1/2), then z/(a+b z^2)==s/(2b(r+s z))-s/(2b(r-s z))==r^2/(2 a s (r-s z))-r^2/(2 a s (r+s z))*)
+
+
+(* ::Subsubsection:: *)
+(*Basis: If (m|n)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(-(a/b))^(1/n), then  z^m/(a + b*z^n) == (r*(r/s)^m*Sum[1/((-1)^(2*k*(m/n))*(r - (-1)^(2*(k/n))*s*z)), {k, 1, n}])/(a*n) == (r*(r/s)^m*Sum[(-1)^(2*k*((m + 1)/n))/((-1)^(2*(k/n))*r - s*z), {k, 1, n}])/(a*n)*)
+
+
+(* ::Subsubsection:: *)
+(*Note: If  m+1 and n are not coprime, the second summation is used since the coefficient (-1)^(2 k (m+1)/n) will be simpler.*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Note: The code reduces the exponents by their gcd.*)
+
+
+(* Assumes m and n are integers and 0<m<n. *)
+(* ExpandBinomial[a,b,m,n,u,x] expands u^m/(a+b*u^n) into a sum of terms of the form 1/(r+s*u). *)
+ExpandBinomial[a_,b_,m_,n_,u_,x_Symbol] :=
+  If[OddQ[n/GCD[m,n]] && PosQ[a/b],
+    With[{g=GCD[m,n],r=Numerator[Rt[a/b,n/GCD[m,n]]],s=Denominator[Rt[a/b,n/GCD[m,n]]]},
+    Module[{k},
+    If[CoprimeQ[m+g,n],
+      Sum[r*(-r/s)^(m/g)*(-1)^(-2*k*m/n)/(a*n*(r+(-1)^(2*k*g/n)*s*u^g)),{k,1,n/g}],
+    Sum[r*(-r/s)^(m/g)*(-1)^(2*k*(m+g)/n)/(a*n*((-1)^(2*k*g/n)*r+s*u^g)),{k,1,n/g}]]]],
+  With[{g=GCD[m,n],r=Numerator[Rt[-a/b,n/GCD[m,n]]],s=Denominator[Rt[-a/b,n/GCD[m,n]]]},
+  If[n/g==2,
+    s/(2*b*(r+s*u^g)) - s/(2*b*(r-s*u^g)),
+  Module[{k},
+  If[CoprimeQ[m+g,n],
+    Sum[r*(r/s)^(m/g)*(-1)^(-2*k*m/n)/(a*n*(r-(-1)^(2*k*g/n)*s*u^g)),{k,1,n/g}],
+  Sum[r*(r/s)^(m/g)*(-1)^(2*k*(m+g)/n)/(a*n*((-1)^(2*k*g/n)*r-s*u^g)),{k,1,n/g}]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SmartApart[u,x]*)
+
+
+(* SmartApart[u,x] returns the partial fraction expansion of u wrt x, avoiding the 
+	strange behavior in the built-in Apart function that rationalizes denominators 
+    involving fractional powers resulting in hard to integrate expressions. *)
+SmartApart[u_,x_Symbol] :=
+  With[{alst=MakeAssocList[u,x]},
+  With[{tmp=KernelSubst[Apart[GensymSubst[u,x,alst]],x,alst]},
+  If[tmp===Indeterminate, u, tmp]]]
+
+SmartApart[u_,v_,x_Symbol] :=
+  With[{alst=MakeAssocList[u,x]},
+  With[{tmp=KernelSubst[Apart[GensymSubst[u,x,alst],v],x,alst]},
+  If[tmp===Indeterminate, u, tmp]]]
+
+
+(* MakeAssocList[u,x,alst] returns an association list of gensymed symbols with the nonatomic 
+  parameters of a u that are not integer powers, products or sums. *)
+MakeAssocList[u_,x_Symbol,alst_List:{}] :=
+  If[AtomQ[u],
+    alst,
+  If[IntegerPowerQ[u],
+    MakeAssocList[u[[1]],x,alst],
+  If[ProductQ[u] || SumQ[u],
+    MakeAssocList[Rest[u],x,MakeAssocList[First[u],x,alst]],
+  If[FreeQ[u,x],
+    With[{tmp=Select[alst,Function[#[[2]]===u],1]},
+    If[tmp==={},
+      Append[alst,{Unique["Rubi"],u}],
+    alst]],
+  alst]]]]
+
+
+(* GensymSubst[u,x,alst] returns u with the kernels in alst free of x replaced by gensymed names. *)
+GensymSubst[u_,x_Symbol,alst_List] :=
+  If[AtomQ[u],
+    u,
+  If[IntegerPowerQ[u],
+    GensymSubst[u[[1]],x,alst]^u[[2]],
+  If[ProductQ[u] || SumQ[u],
+    Map[Function[GensymSubst[#,x,alst]],u],
+  If[FreeQ[u,x],
+    With[{tmp=Select[alst,Function[#[[2]]===u],1]},
+    If[tmp==={},
+      u,
+    tmp[[1,1]]]],
+  u]]]]
+
+
+(* KernelSubst[u,x,alst] returns u with the gensymed names in alst replaced by kernels free of x. *)
+KernelSubst[u_,x_Symbol,alst_List] :=
+  If[AtomQ[u],
+    With[{tmp=Select[alst,Function[#[[1]]===u],1]},
+    If[tmp==={},
+      u,
+    tmp[[1,2]]]],
+  If[IntegerPowerQ[u],
+    With[{tmp=KernelSubst[u[[1]],x,alst]},
+    If[u[[2]]<0 && EqQ[tmp,0],
+      Indeterminate,
+    tmp^u[[2]]]],
+  If[ProductQ[u] || SumQ[u],
+    Map[Function[KernelSubst[#,x,alst]],u],
+  u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandAlgebraicFunction*)
+
+
+ExpandAlgebraicFunction[u_Plus*v_,x_Symbol] :=
+  Map[Function[#*v],u] /;
+Not[FreeQ[u,x]]
+
+ExpandAlgebraicFunction[u_Plus^n_*v_.,x_Symbol] :=
+  With[{w=Expand[u^n,x]},
+  Map[Function[#*v],w] /;
+ SumQ[w]] /;
+PositiveIntegerQ[n] && Not[FreeQ[u,x]]
+
+
+(* ::Subsection::Closed:: *)
+(*UnifySum[u,x]*)
+
+
+(* UnifySum[u,x] returns u with terms having indentical nonfree factors of x collected into a single term. *)  
+UnifySum[u_,x_Symbol] :=
+  If[SumQ[u],
+    Apply[Plus,UnifyTerms[Apply[List,u],x]],  
+  SimplifyTerm[u,x]]
+
+
+(* lst is a list of terms. *)
+(* UnifyTerms[lst,x] returns lst with terms collected into a single element. *)  
+UnifyTerms[lst_,x_] :=
+  If[lst==={},
+    lst,
+  UnifyTerm[First[lst],UnifyTerms[Rest[lst],x],x]]
+
+
+UnifyTerm[term_,lst_,x_] :=
+  If[lst==={},
+    {term},
+  With[{tmp=Simplify[First[lst]/term]},
+  If[FreeQ[tmp,x],
+    Prepend[Rest[lst],(1+tmp)*term],
+  Prepend[UnifyTerm[term,Rest[lst],x],First[lst]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandLinearProduct[v,u,a,b,x]*)
+
+
+(* If u is a polynomial in x, ExpandLinearProduct[v,u,a,b,x] expands v*u into a sum of terms of the form c*v*(a+b*x)^n. *)
+ExpandLinearProduct[v_,u_,a_,b_,x_Symbol] :=
+  Module[{lst},
+  lst=CoefficientList[ReplaceAll[u,x->(x-a)/b],x];
+  lst=Map[Function[SimplifyTerm[#,x]],lst];
+  Module[{k},
+  Sum[v*lst[[k]]*(a+b*x)^(k-1),{k,1,Length[lst]}]]] /;
+FreeQ[{a,b},x] && PolynomialQ[u,x]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandTrigExpand[u,F,v,m,n,x]*)
+
+
+ExpandTrigExpand[u_,F_,v_,m_,n_,x_Symbol] :=
+  With[{w=ReplaceAll[Expand[TrigExpand[F[n*x]]^m,x],x->v]},
+  If[SumQ[w],
+    Map[Function[u*#],w],
+  u*w]]
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandTrigReduce[u,v,x]*)
+
+
+ExpandTrigReduce[u_,v_,x_Symbol] :=
+  With[{w=ExpandTrigReduce[v,x]},
+  If[SumQ[w],
+    Map[Function[u*#],w],
+  u*w]]
+
+
+(* This is necessary, because TrigReduce expands Sinh[n+v] and Cosh[n+v] to exponential form if n is a number. *)
+ExpandTrigReduce[u_.*F_[n_+v_.]^m_.,x_Symbol] :=
+  Module[{nn},
+  ExpandTrigReduce[u*F[nn+v]^m,x] /. nn->n]/;
+MemberQ[{Sinh,Cosh},F] && IntegerQ[m] && RationalQ[n]
+
+ExpandTrigReduce[u_,x_Symbol] :=
+  ExpandTrigReduceAux[u,x]
+
+
+ExpandTrigReduceAux[u_,x_Symbol] :=
+  With[{v=Expand[TrigReduce[u]]},
+  If[SumQ[v],
+    Map[Function[NormalizeTrigReduce[#,x]],v],
+  NormalizeTrigReduce[v,x]]]
+
+
+NormalizeTrigReduce[a_.*F_[u_]^n_.,x_Symbol] :=
+  a*F[ExpandToSum[u,x]]^n /;
+FreeQ[{F,a,n},x] && PolynomialQ[u,x] && Exponent[u,x]>0
+
+NormalizeTrigReduce[u_,x_Symbol] := u
+
+
+(* ::Subsection::Closed:: *)
+(*ExpandTrigToExp[u,v,x]*)
+
+
+Clear[ExpandTrigToExp];
+
+ExpandTrigToExp[u_,x_Symbol] := ExpandTrigToExp[1,u,x]
+
+
+ExpandTrigToExp[u_,v_,x_Symbol] :=
+  Module[{w=TrigToExp[v]},
+  w=If[SumQ[w], Map[Function[SimplifyIntegrand[u*#,x]],w], SimplifyIntegrand[u*w,x]];
+  ExpandIntegrand[FreeFactors[w,x],NonfreeFactors[w,x],x]]
+
+
+(* ::Section::Closed:: *)
+(*Distribution functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*Distrib*)
+
+
+(* Distrib[u,v] returns the sum of u times each term of v. *)
+Distrib[u_,v_] :=
+  If[SumQ[v],
+    Map[Function[u*#],v],
+  u*v]
+
+
+(* ::Subsection::Closed:: *)
+(*Dist*)
+
+
+(* Dist[u,v] returns the sum of u times each term of v, provided v is free of Int. *)
+DownValues[Dist]={};
+UpValues[Dist]={};
+
+Dist /: Dist[u_,v_,x_]+Dist[w_,v_,x_] := 
+  If[EqQ[u+w,0],
+    0,
+  Dist[u+w,v,x]]
+
+Dist /: Dist[u_,v_,x_]-Dist[w_,v_,x_] := 
+  If[EqQ[u-w,0],
+    0,
+  Dist[u-w,v,x]]
+
+Dist /: w_*Dist[u_,v_,x_] := 
+  Dist[w*u,v,x] /; 
+w=!=-1
+
+Dist[u_,Defer[Dist][v_,w_,x_],x_] := 
+  Dist[u*v,w,x]
+
+Dist[u_,v_*w_,x_] := 
+  Dist[u*v,w,x] /;
+ShowSteps===True && FreeQ[v,Int] && Not[FreeQ[w,Int]]
+
+Dist[u_,v_,x_] := 
+  If[u===1,
+    v,
+  If[u===0,
+    Print["*** Warning ***:  Dist[0,",v,",",x,"]"];
+    0,
+  If[NumericFactor[u]<0 && NumericFactor[-u]>0,
+    -Dist[-u,v,x],
+  If[SumQ[v],
+    Map[Function[Dist[u,#,x]],v],
+  If[FreeQ[v,Int],
+(*  Simp[Simp[u,x]*v,x], *)
+    Simp[u*v,x],
+(*If[ShowSteps=!=True,
+    Simp[u*v,x],
+  Module[{w=Simp[u,x]},
+  If[w=!=u,
+    Dist[w,v,x], *)
+  With[{w=Simp[u*x^2,x]/x^2},
+  If[w=!=u && FreeQ[w,x] && w===Simp[w,x] && w===Simp[w*x^2,x]/x^2,
+    Dist[w,v,x],
+  If[ShowSteps=!=True,
+    Simp[u*v,x],
+  Defer[Dist][u,v,x]]]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*DistributeDegree*)
+
+
+(* DistributeDegree[u,m] returns the product of the factors of u each raised to the mth degree. *)
+DistributeDegree[u_,m_] :=
+  If[AtomQ[u],
+    u^m,
+  If[PowerQ[u],
+    u[[1]]^(u[[2]]*m),
+  If[ProductQ[u],
+    Map[Function[DistributeDegree[#,m]],u],
+  u^m]]]
+
+
+(* ::Section::Closed:: *)
+(*Function of functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfPower*)
+
+
+(* FunctionOfPower[u,x] returns the gcd of the integer degrees of x in u. *)
+(* FunctionOfPower[u_,x_Symbol] :=
+  FunctionOfPower[u,Null,x]
+
+FunctionOfPower[u_,n_,x_] :=
+  If[FreeQ[u,x],
+    n,
+  If[u===x,
+    1,
+  If[PowerQ[u] && u[[1]]===x && IntegerQ[u[[2]]],
+    If[n===Null,
+      u[[2]],
+    GCD[n,u[[2]]]],
+  Module[{tmp=n},
+    Scan[Function[tmp=FunctionOfPower[#,tmp,x]],u];
+    tmp]]]] *)
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfLinear*)
+
+
+(* If u (x) is equivalent to an expression of the form f (a+b*x) and not the case that a==0 and
+	b==1, FunctionOfLinear[u,x] returns the list {f (x),a,b}; else it returns False. *)
+FunctionOfLinear[u_,x_Symbol] :=
+  With[{lst=FunctionOfLinear[u,False,False,x,False]},
+  If[AtomQ[lst] || FalseQ[lst[[1]]] || lst[[1]]===0 && lst[[2]]===1,
+    False,
+  {FunctionOfLinearSubst[u,lst[[1]],lst[[2]],x],lst[[1]],lst[[2]]}]]
+
+
+FunctionOfLinear[u_,a_,b_,x_,flag_] :=
+  If[FreeQ[u,x],
+    {a,b},
+  If[CalculusQ[u],
+    False,
+  If[LinearQ[u,x],
+    If[FalseQ[a],
+      {Coefficient[u,x,0],Coefficient[u,x,1]},
+    With[{lst=CommonFactors[{b,Coefficient[u,x,1]}]},
+    If[EqQ[Coefficient[u,x,0],0] && Not[flag],
+      {0,lst[[1]]},
+    If[EqQ[b*Coefficient[u,x,0]-a*Coefficient[u,x,1],0],
+      {a/lst[[2]],lst[[1]]},
+    {0,1}]]]],
+  If[PowerQ[u] && FreeQ[u[[1]],x],
+    FunctionOfLinear[Log[u[[1]]]*u[[2]],a,b,x,False],
+  Module[{lst},
+  If[ProductQ[u] && NeQ[(lst=MonomialFactor[u,x])[[1]],0],
+    If[False && IntegerQ[lst[[1]]] && lst[[1]]!=-1 && FreeQ[lst[[2]],x],
+      If[RationalQ[LeadFactor[lst[[2]]]] && LeadFactor[lst[[2]]]<0,
+        FunctionOfLinear[DivideDegreesOfFactors[-lst[[2]],lst[[1]]]*x,a,b,x,False],
+      FunctionOfLinear[DivideDegreesOfFactors[lst[[2]],lst[[1]]]*x,a,b,x,False]],
+    False],
+  lst={a,b};
+  Catch[
+  Scan[Function[lst=FunctionOfLinear[#,lst[[1]],lst[[2]],x,SumQ[u]];
+			If[AtomQ[lst],Throw[False]]],u];
+  lst]]]]]]]
+
+
+FunctionOfLinearSubst[u_,a_,b_,x_] :=
+  If[FreeQ[u,x],
+    u,
+  If[LinearQ[u,x],
+    Module[{tmp=Coefficient[u,x,1]},
+    tmp=If[tmp===b, 1, tmp/b];
+    Coefficient[u,x,0]-a*tmp+tmp*x],
+  If[PowerQ[u] && FreeQ[u[[1]],x],
+    E^FullSimplify[FunctionOfLinearSubst[Log[u[[1]]]*u[[2]],a,b,x]],
+  Module[{lst},
+  If[ProductQ[u] && NeQ[(lst=MonomialFactor[u,x])[[1]],0],
+    If[RationalQ[LeadFactor[lst[[2]]]] && LeadFactor[lst[[2]]]<0,
+      -FunctionOfLinearSubst[DivideDegreesOfFactors[-lst[[2]],lst[[1]]]*x,a,b,x]^lst[[1]],
+    FunctionOfLinearSubst[DivideDegreesOfFactors[lst[[2]],lst[[1]]]*x,a,b,x]^lst[[1]]],
+  Map[Function[FunctionOfLinearSubst[#,a,b,x]],u]]]]]]
+
+
+(* DivideDegreesOfFactors[u,n] returns the product of the base of the factors of u raised to
+	the degree of the factors divided by n. *)
+DivideDegreesOfFactors[u_,n_] :=
+  If[ProductQ[u],
+    Map[Function[LeadBase[#]^(LeadDegree[#]/n)],u],
+  LeadBase[u]^(LeadDegree[u]/n)]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfInverseLinear*)
+
+
+(* If u is a function of an inverse linear binomial of the form 1/(a+b*x), 
+	FunctionOfInverseLinear[u,x] returns the list {a,b}; else it returns False. *)
+FunctionOfInverseLinear[u_,x_Symbol] :=
+  FunctionOfInverseLinear[u,Null,x]
+
+FunctionOfInverseLinear[u_,lst_,x_] :=
+  If[FreeQ[u,x],
+    lst,
+  If[u===x,
+    False,
+  If[QuotientOfLinearsQ[u,x],
+    With[{tmp=Drop[QuotientOfLinearsParts[u,x],2]},
+    If[tmp[[2]]===0,
+      False,
+    If[lst===Null,
+      tmp,
+    If[EqQ[lst[[1]]*tmp[[2]]-lst[[2]]*tmp[[1]],0],
+      lst,
+    False]]]],
+  If[CalculusQ[u],
+    False,
+  Module[{tmp=lst},Catch[
+  Scan[Function[If[AtomQ[tmp=FunctionOfInverseLinear[#,tmp,x]],Throw[False]]],u];
+  tmp]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfExponential*)
+
+
+(* FunctionOfExponentialQ[u,x] returns True iff u is a function of F^v where F is a constant and v is linear in x, *)
+(* and such an exponential explicitly occurs in u (i.e. not just implicitly in hyperbolic functions). *) 
+FunctionOfExponentialQ[u_,x_Symbol] :=
+  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
+    FunctionOfExponentialTest[u,x] && $exponFlag$]
+
+
+(* u is a function of F^v where v is linear in x.  FunctionOfExponential[u,x] returns F^v. *)
+FunctionOfExponential[u_,x_Symbol] :=
+  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
+    FunctionOfExponentialTest[u,x];
+    $base$^$expon$]
+
+
+(* u is a function of F^v where v is linear in x.  FunctionOfExponentialFunction[u,x] returns u with F^v replaced by x. *)
+FunctionOfExponentialFunction[u_,x_Symbol] :=
+  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
+    FunctionOfExponentialTest[u,x];
+    SimplifyIntegrand[FunctionOfExponentialFunctionAux[u,x],x]]
+
+
+(* u is a function of F^v where v is linear in x, and the fluid variables $base$=F and $expon$=v. *)
+(* FunctionOfExponentialFunctionAux[u,x] returns u with F^v replaced by x. *)
+FunctionOfExponentialFunctionAux[u_,x_] :=
+  If[AtomQ[u],
+    u,
+  If[PowerQ[u] && FreeQ[u[[1]],x] && LinearQ[u[[2]],x],
+    If[EqQ[Coefficient[$expon$,x,0],0],
+      u[[1]]^Coefficient[u[[2]],x,0]*x^FullSimplify[Log[u[[1]]]*Coefficient[u[[2]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])],
+    x^FullSimplify[Log[u[[1]]]*Coefficient[u[[2]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])]],
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    Module[{tmp},
+    tmp=x^FullSimplify[Coefficient[u[[1]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])];
+    If[SinhQ[u],
+      tmp/2-1/(2*tmp),
+    If[CoshQ[u],
+      tmp/2+1/(2*tmp),
+    If[TanhQ[u],    
+      (tmp-1/tmp)/(tmp+1/tmp),
+    If[CothQ[u],    
+      (tmp+1/tmp)/(tmp-1/tmp),
+    If[SechQ[u],
+      2/(tmp+1/tmp),
+    2/(tmp-1/tmp)]]]]]],
+  If[PowerQ[u] && FreeQ[u[[1]],x] && SumQ[u[[2]]],
+    FunctionOfExponentialFunctionAux[u[[1]]^First[u[[2]]],x]*FunctionOfExponentialFunctionAux[u[[1]]^Rest[u[[2]]],x],
+  Map[Function[FunctionOfExponentialFunctionAux[#,x]],u]]]]]
+
+
+(* FunctionOfExponentialTest[u,x] returns True iff u is a function of F^v where F is a constant and v is linear in x. *)
+(* Before it is called, the fluid variables $base$ and $expon$ should be set to Null and $exponFlag$ to False. *)
+(* If u is a function of F^v, $base$ and $expon$ are set to F and v, respectively. *)
+(* If an explicit exponential occurs in u, $exponFlag$ is set to True. *)
+FunctionOfExponentialTest[u_,x_] :=
+  If[FreeQ[u,x],
+    True,
+  If[u===x || CalculusQ[u],
+    False,
+  If[PowerQ[u] && FreeQ[u[[1]],x] && LinearQ[u[[2]],x],
+    $exponFlag$=True;
+    FunctionOfExponentialTestAux[u[[1]],u[[2]],x],
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    FunctionOfExponentialTestAux[E,u[[1]],x],
+  If[PowerQ[u] && FreeQ[u[[1]],x] && SumQ[u[[2]]],
+    FunctionOfExponentialTest[u[[1]]^First[u[[2]]],x] && FunctionOfExponentialTest[u[[1]]^Rest[u[[2]]],x],
+  Catch[Scan[Function[If[Not[FunctionOfExponentialTest[#,x]],Throw[False]]],u]; True]]]]]]
+
+
+FunctionOfExponentialTestAux[base_,expon_,x_] :=
+  If[$base$===Null,
+    $base$=base;
+    $expon$=expon;
+    True,
+  Module[{tmp},
+  tmp=FullSimplify[Log[base]*Coefficient[expon,x,1]/(Log[$base$]*Coefficient[$expon$,x,1])];
+  If[Not[RationalQ[tmp]],
+    False,
+  If[EqQ[Coefficient[$expon$,x,0],0] || NeQ[tmp,FullSimplify[Log[base]*Coefficient[expon,x,0]/(Log[$base$]*Coefficient[$expon$,x,0])]],
+    ( If[PositiveIntegerQ[base,$base$] && base<$base$,
+        $base$=base;
+        $expon$=expon;
+        tmp=1/tmp] );
+    $expon$=Coefficient[$expon$,x,1]*x/Denominator[tmp];
+    If[tmp<0 && NegQ[Coefficient[$expon$,x,1]],
+      $expon$=-$expon$;
+      True,
+    True],
+  ( If[PositiveIntegerQ[base,$base$] && base<$base$,
+      $base$=base;
+      $expon$=expon;
+      tmp=1/tmp] );
+(*$expon$=If[SumQ[$expon$], Map[Function[#/Denominator[tmp]],$expon$], $expon$/Denominator[tmp]]; *)
+  $expon$=$expon$/Denominator[tmp];
+  If[tmp<0 && NegQ[Coefficient[$expon$,x,1]],
+    $expon$=-$expon$;
+    True,
+  True]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfTrigOfLinearQ*)
+
+
+(* If u is an algebraic function of trig functions of a linear function of x, 
+    FunctionOfTrigOfLinearQ[u,x] returns True; else it returns False. *)
+FunctionOfTrigOfLinearQ[u_,x_Symbol] :=
+  If[MatchQ[u,(c_.+d_.*x)^m_.*(a_.+b_.*trig_[e_.+f_.*x])^n_. /; FreeQ[{a,b,c,d,e,f,m,n},x] && (TrigQ[trig] || HyperbolicQ[trig])],
+    True,
+  Not[MemberQ[{Null, False}, FunctionOfTrig[u,Null,x]]] && AlgebraicTrigFunctionQ[u,x]]
+
+
+(* If u is a function of trig functions of v where v is a linear function of x, 
+	FunctionOfTrig[u,x] returns v; else it returns False. *)
+FunctionOfTrig[u_,x_Symbol] :=
+  With[{v=FunctionOfTrig[ActivateTrig[u],Null,x]},
+  If[v===Null, False, v]]
+
+FunctionOfTrig[u_,v_,x_] :=
+  If[AtomQ[u],
+    If[u===x,
+      False,
+    v],
+  If[TrigQ[u] && LinearQ[u[[1]],x],
+    If[v===Null,
+      u[[1]],
+    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[u[[1]],x,0],d=Coefficient[u[[1]],x,1]},
+    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
+      a/Numerator[b/d]+b*x/Numerator[b/d],
+    False]]],
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    If[v===Null,
+      I*u[[1]],
+    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=I*Coefficient[u[[1]],x,0],d=I*Coefficient[u[[1]],x,1]},
+    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
+      a/Numerator[b/d]+b*x/Numerator[b/d],
+    False]]],
+  If[CalculusQ[u],
+    False,
+  Module[{w=v},Catch[
+  Scan[Function[If[FalseQ[w=FunctionOfTrig[#,w,x]],Throw[False]]],u];
+  w]]]]]]
+
+
+(* If u is algebraic function of trig functions, AlgebraicTrigFunctionQ[u,x] returns True; else it returns False. *)
+AlgebraicTrigFunctionQ[u_,x_Symbol] :=
+  If[AtomQ[u],
+    True,
+  If[TrigQ[u] && LinearQ[u[[1]],x],
+    True,
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    True,
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    AlgebraicTrigFunctionQ[u[[1]],x],
+  If[ProductQ[u] || SumQ[u],
+    Catch[Scan[Function[If[Not[AlgebraicTrigFunctionQ[#,x]],Throw[False]]],u]; True],
+  False]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfHyperbolic*)
+
+
+(* If u is a function of hyperbolic trig functions of v where v is linear in x, 
+	FunctionOfHyperbolic[u,x] returns v; else it returns False. *)
+FunctionOfHyperbolic[u_,x_Symbol] :=
+  With[{v=FunctionOfHyperbolic[u,Null,x]},
+  If[v===Null, False, v]]
+
+FunctionOfHyperbolic[u_,v_,x_] :=
+  If[AtomQ[u],
+    If[u===x,
+      False,
+    v],
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    If[v===Null,
+      u[[1]],
+    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[u[[1]],x,0],d=Coefficient[u[[1]],x,1]},
+    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
+      a/Numerator[b/d]+b*x/Numerator[b/d],
+    False]]],
+  If[CalculusQ[u],
+    False,
+  Module[{w=v},Catch[
+  Scan[Function[If[FalseQ[w=FunctionOfHyperbolic[#,w,x]],Throw[False]]],u];
+  w]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfQ*)
+
+
+(* v is a function of x.
+	If u is a function of v, FunctionOfQ[v,u,x] returns True; else it returns False. *)
+FunctionOfQ[v_,u_,x_Symbol,PureFlag_:False] :=
+  If[FreeQ[u,x],
+    False,
+  If[AtomQ[v],
+    True,
+  If[Not[InertTrigFreeQ[u]],
+    FunctionOfQ[v,ActivateTrig[u],x,PureFlag],
+  If[ProductQ[v] && NeQ[FreeFactors[v,x],1],
+    FunctionOfQ[NonfreeFactors[v,x],u,x,PureFlag],
+
+  If[PureFlag,
+    If[SinQ[v] || CscQ[v],
+      PureFunctionOfSinQ[u,v[[1]],x],
+    If[CosQ[v] || SecQ[v],
+      PureFunctionOfCosQ[u,v[[1]],x],
+    If[TanQ[v],
+      PureFunctionOfTanQ[u,v[[1]],x],
+    If[CotQ[v],
+      PureFunctionOfCotQ[u,v[[1]],x],
+    If[SinhQ[v] || CschQ[v],
+      PureFunctionOfSinhQ[u,v[[1]],x],
+    If[CoshQ[v] || SechQ[v],
+      PureFunctionOfCoshQ[u,v[[1]],x],
+    If[TanhQ[v],
+      PureFunctionOfTanhQ[u,v[[1]],x],
+    If[CothQ[v],
+      PureFunctionOfCothQ[u,v[[1]],x],
+    FunctionOfExpnQ[u,v,x]=!=False]]]]]]]],
+  If[SinQ[v] || CscQ[v],
+    FunctionOfSinQ[u,v[[1]],x],
+  If[CosQ[v] || SecQ[v],
+    FunctionOfCosQ[u,v[[1]],x],
+  If[TanQ[v] || CotQ[v],
+    FunctionOfTanQ[u,v[[1]],x],
+  If[SinhQ[v] || CschQ[v],
+    FunctionOfSinhQ[u,v[[1]],x],
+  If[CoshQ[v] || SechQ[v],
+    FunctionOfCoshQ[u,v[[1]],x],
+  If[TanhQ[v] || CothQ[v],
+    FunctionOfTanhQ[u,v[[1]],x],
+  FunctionOfExpnQ[u,v,x]=!=False]]]]]]]]]]]
+
+
+FunctionOfExpnQ[u_,v_,x_] :=
+  If[u===v,
+    1,
+  If[AtomQ[u],
+    If[u===x,
+      False,
+    0],
+  If[CalculusQ[u],
+    False,
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    If[EqQ[u[[1]],v],
+      If[IntegerQ[u[[2]]], u[[2]], 1],
+    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u[[1]],v[[1]]],
+      If[RationalQ[v[[2]]],
+        If[RationalQ[u[[2]]] && IntegerQ[u[[2]]/v[[2]]] && (v[[2]]>0 || u[[2]]<0), u[[2]]/v[[2]], False],
+      If[IntegerQ[Simplify[u[[2]]/v[[2]]]], Simplify[u[[2]]/v[[2]]], False]],
+    FunctionOfExpnQ[u[[1]],v,x]]],
+  If[ProductQ[u] && NeQ[FreeFactors[u,x],1],
+    FunctionOfExpnQ[NonfreeFactors[u,x],v,x],
+  If[ProductQ[u] && ProductQ[v],
+    Module[{deg1=FunctionOfExpnQ[First[u],First[v],x],deg2},
+    If[deg1===False,
+      False,
+    deg2=FunctionOfExpnQ[Rest[u],Rest[v],x];
+    If[deg1===deg2 && FreeQ[Simplify[u/v^deg1],x],
+      deg1,
+    False]]],
+  With[{lst=Map[Function[FunctionOfExpnQ[#,v,x]],Apply[List,u]]},
+  If[MemberQ[lst,False],
+    False,
+  Apply[GCD,lst]]]]]]]]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Pure function of trig functions predicates*)
+
+
+(* If u is a pure function of Sin[v] and/or Csc[v], PureFunctionOfSinQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfSinQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && EqQ[u[[1]],v],
+    SinQ[u] || CscQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Cos[v] and/or Sec[v], PureFunctionOfCosQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfCosQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && EqQ[u[[1]],v],
+    CosQ[u] || SecQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Tan[v] and/or Cot[v], PureFunctionOfTanQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfTanQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && EqQ[u[[1]],v],
+    TanQ[u] || CotQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfTanQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Cot[v], PureFunctionOfCotQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfCotQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && EqQ[u[[1]],v],
+    CotQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfCotQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Function of trig functions predicates*)
+
+
+(* If u is a function of Sin[v], FunctionOfSinQ[u,v,x] returns True; else it returns False. *)
+FunctionOfSinQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[OddQuotientQ[u[[1]],v],
+(* Basis: If m odd, Sin[m*v]^n is a function of Sin[v]. *)
+      SinQ[u] || CscQ[u],
+(* Basis: If m even, Cos[m*v]^n is a function of Sin[v]. *)
+    CosQ[u] || SecQ[u]],
+  If[IntegerPowerQ[u] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[EvenQ[u[[2]]],
+(* Basis: If m integer and n even, Trig[m*v]^n is a function of Sin[v]. *)
+      True,
+    FunctionOfSinQ[u[[1]],v,x]],
+  If[ProductQ[u],
+    If[CosQ[u[[1]]] && SinQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
+      FunctionOfSinQ[Drop[u,2],v,x],
+    Module[{lst},
+    lst=FindTrigFactor[Sin,Csc,u,v,False];
+    If[ListQ[lst] && EvenQuotientQ[lst[[1]],v],
+(* Basis: If m even and n odd, Sin[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
+      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Cos,Sec,u,v,False];
+    If[ListQ[lst] && OddQuotientQ[lst[[1]],v],
+(* Basis: If m odd and n odd, Cos[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
+      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Tan,Cot,u,v,True];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Tan[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
+      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
+    Catch[Scan[Function[If[Not[FunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]]],
+  Catch[Scan[Function[If[Not[FunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]]]
+
+
+(* If u is a function of Cos[v], FunctionOfCosQ[u,v,x] returns True; else it returns False. *)
+FunctionOfCosQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+(* Basis: If m integer, Cos[m*v]^n is a function of Cos[v]. *)
+    CosQ[u] || SecQ[u],
+  If[IntegerPowerQ[u] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[EvenQ[u[[2]]],
+(* Basis: If m integer and n even, Trig[m*v]^n is a function of Cos[v]. *)
+      True,
+    FunctionOfCosQ[u[[1]],v,x]],
+  If[ProductQ[u],
+    Module[{lst},
+    lst=FindTrigFactor[Sin,Csc,u,v,False];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Sin[m*v]^n == Sin[v]*u where u is a function of Cos[v]. *)
+      FunctionOfCosQ[Sin[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Tan,Cot,u,v,True];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Tan[m*v]^n == Sin[v]*u where u is a function of Cos[v]. *)
+      FunctionOfCosQ[Sin[v]*lst[[2]],v,x],
+    Catch[Scan[Function[If[Not[FunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]],
+  Catch[Scan[Function[If[Not[FunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]]]]
+
+
+(* If u is a function of the form f[Tan[v],Cot[v]] where f is independent of x,
+	FunctionOfTanQ[u,v,x] returns True; else it returns False. *)
+FunctionOfTanQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+    TanQ[u] || CotQ[u] || EvenQuotientQ[u[[1]],v],
+  If[PowerQ[u] && EvenQ[u[[2]]] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    True,
+  If[PowerQ[u] && EvenQ[u[[2]]] && SumQ[u[[1]]],
+    FunctionOfTanQ[Expand[u[[1]]^2],v,x],
+  If[ProductQ[u],
+    Module[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Sow[#]]],u]]},
+    If[lst==={},
+      True,
+    Length[lst]==2 && OddTrigPowerQ[lst[[1]],v,x] && OddTrigPowerQ[lst[[2]],v,x]]],
+  Catch[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Throw[False]]],u];True]]]]]]]
+
+OddTrigPowerQ[u_,v_,x_] :=
+  If[SinQ[u] || CosQ[u] || SecQ[u] || CscQ[u],
+    OddQuotientQ[u[[1]],v],
+  If[PowerQ[u],
+    OddQ[u[[2]]] && OddTrigPowerQ[u[[1]],v,x],
+  If[ProductQ[u],
+    If[NeQ[FreeFactors[u,x],1],
+      OddTrigPowerQ[NonfreeFactors[u,x],v,x],
+    Module[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Sow[#]]],u]]},
+    If[lst==={},
+      True,
+    Length[lst]==1 && OddTrigPowerQ[lst[[1]],v,x]]]],
+  If[SumQ[u],
+    Catch[Scan[Function[If[Not[OddTrigPowerQ[#,v,x]],Throw[False]]],u];True],
+  False]]]]
+
+
+(* u is a function of the form f[Tan[v],Cot[v]] where f is independent of x.
+FunctionOfTanWeight[u,v,x] returns a nonnegative number if u is best considered a function
+of Tan[v]; else it returns a negative number. *)
+FunctionOfTanWeight[u_,v_,x_] :=
+  If[AtomQ[u],
+    0,
+  If[CalculusQ[u],
+    0,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[TanQ[u] && EqQ[u[[1]],v],
+      1,
+    If[CotQ[u] && EqQ[u[[1]],v],
+      -1,
+    0]],
+  If[PowerQ[u] && EvenQ[u[[2]]] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[TanQ[u[[1]]] || CosQ[u[[1]]] || SecQ[u[[1]]],
+      1,
+    -1],
+  If[ProductQ[u],
+    If[Catch[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Throw[False]]],u];True],
+      Apply[Plus,Map[Function[FunctionOfTanWeight[#,v,x]],Apply[List,u]]],
+    0],
+  Apply[Plus,Map[Function[FunctionOfTanWeight[#,v,x]],Apply[List,u]]]]]]]]
+
+
+(* If u (x) is equivalent to an expression of the form f (Sin[v],Cos[v],Tan[v],Cot[v],Sec[v],Csc[v])
+	where f is independent of x, FunctionOfTrigQ[u,v,x] returns True; else it returns False. *)
+FunctionOfTrigQ[u_,v_,x_Symbol] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+    True,
+  Catch[
+    Scan[Function[If[Not[FunctionOfTrigQ[#,v,x]],Throw[False]]],u];
+    True]]]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Pure function of hyperbolic functions predicates*)
+
+
+(* If u is a pure function of Sinh[v] and/or Csch[v], PureFunctionOfSinhQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfSinhQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && EqQ[u[[1]],v],
+    SinhQ[u] || CschQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Cosh[v] and/or Sech[v], PureFunctionOfCoshQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfCoshQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && EqQ[u[[1]],v],
+    CoshQ[u] || SechQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Tanh[v] and/or Coth[v], PureFunctionOfTanhQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfTanhQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && EqQ[u[[1]],v],
+    TanhQ[u] || CothQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfTanhQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* If u is a pure function of Coth[v], PureFunctionOfCothQ[u,v,x] returns True; 
+	else it returns False. *)
+PureFunctionOfCothQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && EqQ[u[[1]],v],
+    CothQ[u],
+  Catch[Scan[Function[If[Not[PureFunctionOfCothQ[#,v,x]],Throw[False]]],u];True]]]]
+
+
+(* ::Subsubsection::Closed:: *)
+(*Function of hyperbolic functions predicates*)
+
+
+(* If u is a function of Sinh[v], FunctionOfSinhQ[u,v,x] returns True; else it returns False. *)
+FunctionOfSinhQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[OddQuotientQ[u[[1]],v],
+(* Basis: If m odd, Sinh[m*v]^n is a function of Sinh[v]. *)
+      SinhQ[u] || CschQ[u],
+(* Basis: If m even, Cos[m*v]^n is a function of Sinh[v]. *)
+    CoshQ[u] || SechQ[u]],
+  If[IntegerPowerQ[u] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[EvenQ[u[[2]]],
+(* Basis: If m integer and n even, Hyper[m*v]^n is a function of Sinh[v]. *)
+      True,
+    FunctionOfSinhQ[u[[1]],v,x]],
+  If[ProductQ[u],
+    If[CoshQ[u[[1]]] && SinhQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
+      FunctionOfSinhQ[Drop[u,2],v,x],
+    Module[{lst},
+    lst=FindTrigFactor[Sinh,Csch,u,v,False];
+    If[ListQ[lst] && EvenQuotientQ[lst[[1]],v],
+(* Basis: If m even and n odd, Sinh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
+      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Cosh,Sech,u,v,False];
+    If[ListQ[lst] && OddQuotientQ[lst[[1]],v],
+(* Basis: If m odd and n odd, Cosh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
+      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Tanh,Coth,u,v,True];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Tanh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
+      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
+    Catch[Scan[Function[If[Not[FunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]]],
+  Catch[Scan[Function[If[Not[FunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]]]
+
+
+(* If u is a function of Cosh[v], FunctionOfCoshQ[u,v,x] returns True; else it returns False. *)
+FunctionOfCoshQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+(* Basis: If m integer, Cosh[m*v]^n is a function of Cosh[v]. *)
+    CoshQ[u] || SechQ[u],
+  If[IntegerPowerQ[u] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[EvenQ[u[[2]]],
+(* Basis: If m integer and n even, Hyper[m*v]^n is a function of Cosh[v]. *)
+      True,
+    FunctionOfCoshQ[u[[1]],v,x]],
+  If[ProductQ[u],
+    Module[{lst},
+    lst=FindTrigFactor[Sinh,Csch,u,v,False];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Sinh[m*v]^n == Sinh[v]*u where u is a function of Cosh[v]. *)
+      FunctionOfCoshQ[Sinh[v]*lst[[2]],v,x],
+    lst=FindTrigFactor[Tanh,Coth,u,v,True];
+    If[ListQ[lst],
+(* Basis: If m integer and n odd, Tanh[m*v]^n == Sinh[v]*u where u is a function of Cosh[v]. *)
+      FunctionOfCoshQ[Sinh[v]*lst[[2]],v,x],
+    Catch[Scan[Function[If[Not[FunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]],
+  Catch[Scan[Function[If[Not[FunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]]]]
+
+
+(* If u is a function of the form f[Tanh[v],Coth[v]] where f is independent of x,
+	FunctionOfTanhQ[u,v,x] returns True; else it returns False. *)
+FunctionOfTanhQ[u_,v_,x_] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+    TanhQ[u] || CothQ[u] || EvenQuotientQ[u[[1]],v],
+  If[PowerQ[u] && EvenQ[u[[2]]] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    True,
+  If[PowerQ[u] && EvenQ[u[[2]]] && SumQ[u[[1]]],
+    FunctionOfTanhQ[Expand[u[[1]]^2],v,x],
+  If[ProductQ[u],
+    With[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Sow[#]]],u]]},
+    If[lst==={},
+      True,
+    Length[lst]==2 && OddHyperbolicPowerQ[lst[[1]],v,x] && OddHyperbolicPowerQ[lst[[2]],v,x]]],
+  Catch[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Throw[False]]],u];True]]]]]]]
+
+OddHyperbolicPowerQ[u_,v_,x_] :=
+  If[SinhQ[u] || CoshQ[u] || SechQ[u] || CschQ[u],
+    OddQuotientQ[u[[1]],v],
+  If[PowerQ[u],
+    OddQ[u[[2]]] && OddHyperbolicPowerQ[u[[1]],v,x],
+  If[ProductQ[u],
+    If[NeQ[FreeFactors[u,x],1],
+      OddHyperbolicPowerQ[NonfreeFactors[u,x],v,x],
+    With[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Sow[#]]],u]]},
+    If[lst==={},
+      True,
+    Length[lst]==1 && OddHyperbolicPowerQ[lst[[1]],v,x]]]],
+  If[SumQ[u],
+    Catch[Scan[Function[If[Not[OddHyperbolicPowerQ[#,v,x]],Throw[False]]],u];True],
+  False]]]]
+
+
+(* u is a function of the form f[Tanh[v],Coth[v]] where f is independent of x.
+FunctionOfTanhWeight[u,v,x] returns a nonnegative number if u is best considered a function
+of Tanh[v]; else it returns a negative number. *)
+FunctionOfTanhWeight[u_,v_,x_] :=
+  If[AtomQ[u],
+    0,
+  If[CalculusQ[u],
+    0,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[TanhQ[u] && EqQ[u[[1]],v],
+      1,
+    If[CothQ[u] && EqQ[u[[1]],v],
+      -1,
+    0]],
+  If[PowerQ[u] && EvenQ[u[[2]]] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
+    If[TanhQ[u[[1]]] || CoshQ[u[[1]]] || SechQ[u[[1]]],
+      1,
+    -1],
+  If[ProductQ[u],
+    If[Catch[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Throw[False]]],u];True],
+      Apply[Plus,Map[Function[FunctionOfTanhWeight[#,v,x]],Apply[List,u]]],
+    0],
+  Apply[Plus,Map[Function[FunctionOfTanhWeight[#,v,x]],Apply[List,u]]]]]]]]
+
+
+(* If u (x) is equivalent to a function of the form f (Sinh[v],Cosh[v],Tanh[v],Coth[v],Sech[v],Csch[v])
+	where f is independent of x, FunctionOfHyperbolicQ[u,v,x] returns True; else it returns False. *)
+FunctionOfHyperbolicQ[u_,v_,x_Symbol] :=
+  If[AtomQ[u],
+    u=!=x,
+  If[CalculusQ[u],
+    False,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+    True,
+  Catch[Scan[Function[If[FunctionOfHyperbolicQ[#,v,x],Null,Throw[False]]],u];True]]]]
+
+
+(* If func[w]^m is a factor of u where m is odd and w is an integer multiple of v, 
+	FindTrigFactor[func1,func2,u,v,True] returns the list {w,u/func[w]^n}; else it returns False. *)
+(* If func[w]^m is a factor of u where m is odd and w is an integer multiple of v not equal to v, 
+	FindTrigFactor[func1,func2,u,v,False] returns the list {w,u/func[w]^n}; else it returns False. *)
+FindTrigFactor[func1_,func2_,u_,v_,flag_] :=
+  If[u===1,
+    False,
+  If[(Head[LeadBase[u]]===func1 || Head[LeadBase[u]]===func2) && 
+		OddQ[LeadDegree[u]] && 
+		IntegerQuotientQ[LeadBase[u][[1]],v] && 
+		(flag || NeQ[LeadBase[u][[1]],v]),
+    {LeadBase[u][[1]], RemainingFactors[u]},
+  With[{lst=FindTrigFactor[func1,func2,RemainingFactors[u],v,flag]},
+  If[AtomQ[lst],
+    False,
+  {lst[[1]], LeadFactor[u]*lst[[2]]}]]]]
+
+
+(* If u/v is an integer, IntegerQuotientQ[u,v] returns True; else it returns False. *)
+IntegerQuotientQ[u_,v_] :=
+(* u===v || EqQ[u,v] || IntegerQ[u/v] *)
+  IntegerQ[Simplify[u/v]]
+
+(* If u/v is odd, OddQuotientQ[u,v] returns True; else it returns False. *)
+OddQuotientQ[u_,v_] :=
+(* u===v || EqQ[u,v] || OddQ[u/v] *)
+  OddQ[Simplify[u/v]]
+
+(* If u/v is even, EvenQuotientQ[u,v] returns True; else it returns False. *)
+EvenQuotientQ[u_,v_] :=
+  EvenQ[Simplify[u/v]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfDensePolynomialsQ*)
+
+
+(* If all occurrences of x in u (x) are in dense polynomials, FunctionOfDensePolynomialsQ[u,x]
+	returns True; else it returns False. *)
+FunctionOfDensePolynomialsQ[u_,x_Symbol] :=
+  If[FreeQ[u,x],
+    True,
+  If[PolynomialQ[u,x],
+    Length[Exponent[u,x,List]]>1,
+  Catch[
+  Scan[Function[If[FunctionOfDensePolynomialsQ[#,x],Null,Throw[False]]],u];
+  True]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfLog*)
+
+
+(* If u (x) is equivalent to an expression of the form f (Log[a*x^n]), FunctionOfLog[u,x] returns
+	the list {f (x),a*x^n,n}; else it returns False. *)
+FunctionOfLog[u_,x_Symbol] :=
+  With[{lst=FunctionOfLog[u,False,False,x]},
+  If[AtomQ[lst] || FalseQ[lst[[2]]],
+    False,
+  lst]]
+
+
+FunctionOfLog[u_,v_,n_,x_] :=
+  If[AtomQ[u],
+    If[u===x,
+      False,
+    {u,v,n}],
+  If[CalculusQ[u],
+    False,
+  Module[{lst},
+  If[LogQ[u] && ListQ[lst=BinomialParts[u[[1]],x]] && EqQ[lst[[1]],0],
+    If[FalseQ[v] || u[[1]]===v,
+      {x,u[[1]],lst[[3]]},
+    False],
+  lst={0,v,n};
+  Catch[
+    {Map[Function[lst=FunctionOfLog[#,lst[[2]],lst[[3]],x];
+				  If[AtomQ[lst],Throw[False],lst[[1]]]],
+			u],lst[[2]],lst[[3]]}]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*PowerVariableExpn*)
+
+
+(* If m is an integer, u is an expression of the form f[(c*x)^n] and g=GCD[m,n]>1,
+   PowerVariableExpn[u,m,x] returns the list {x^(m/g)*f[(c*x)^(n/g)],g,c}; else it returns False. *)
+PowerVariableExpn[u_,m_,x_Symbol] :=
+  If[IntegerQ[m],
+    With[{lst=PowerVariableDegree[u,m,1,x]},
+    If[AtomQ[lst],
+      False,
+    {x^(m/lst[[1]])*PowerVariableSubst[u,lst[[1]],x], lst[[1]], lst[[2]]}]],
+  False]
+
+
+PowerVariableDegree[u_,m_,c_,x_Symbol] :=
+  If[FreeQ[u,x],
+    {m, c},
+  If[AtomQ[u] || CalculusQ[u],
+    False,
+  If[PowerQ[u] && FreeQ[u[[1]]/x,x],
+    If[EqQ[m,0] || m===u[[2]] && c===u[[1]]/x,
+      {u[[2]], u[[1]]/x},
+    If[IntegerQ[u[[2]]] && IntegerQ[m] && GCD[m,u[[2]]]>1 && c===u[[1]]/x,
+      {GCD[m,u[[2]]], c},
+    False]],
+  Catch[Module[{lst={m, c}},
+  Scan[Function[lst=PowerVariableDegree[#,lst[[1]],lst[[2]],x];If[AtomQ[lst],Throw[False]]],u];
+  lst]]]]]
+
+
+PowerVariableSubst[u_,m_,x_Symbol] :=
+  If[FreeQ[u,x] || AtomQ[u] ||CalculusQ[u],
+    u,
+  If[PowerQ[u] && FreeQ[u[[1]]/x,x],
+    x^(u[[2]]/m),
+  Map[Function[PowerVariableSubst[#,m,x]],u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*EulerIntegrandQ*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*Note: If an Euler substitution should be used to integrate u wrt x,  EulerIntegrandQ[u,x] returns True.*)
+
+
+EulerIntegrandQ[(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
+  True /;
+FreeQ[{a,b},x] && IntegerQ[n+1/2] && QuadraticQ[u,x] && (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
+
+
+EulerIntegrandQ[v_^m_.*(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
+  True /;
+FreeQ[{a,b},x] && EqQ[u,v] && IntegersQ[2*m,n+1/2] && QuadraticQ[u,x] && 
+  (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
+
+
+EulerIntegrandQ[v_^m_.*(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
+  True /;
+FreeQ[{a,b},x] && EqQ[u,v] && IntegersQ[2*m,n+1/2] && QuadraticQ[u,x] && 
+  (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
+
+
+EulerIntegrandQ[u_^n_*v_^p_,x_Symbol] :=
+  True /;
+NegativeIntegerQ[p] && IntegerQ[n+1/2] && QuadraticQ[u,x] && QuadraticQ[v,x] && Not[BinomialQ[v,x]]
+
+EulerIntegrandQ[u_,x_Symbol] :=
+  False
+
+
+(* ::Subsection::Closed:: *)
+(*FunctionOfSquareRootOfQuadratic*)
+
+
+(*
+Euler substitution #2:
+  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
+	PosQ[c], FunctionOfSquareRootOfQuadratic[u,x] returns the 3-element list {
+		f ((a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x),(-a+x^2)/(b+2*Sqrt[c]*x))*
+		  (a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x)^2,
+		Sqrt[c]*x+Sqrt[a+b*x+c*x^2], 2 };
+
+Euler substitution #1:
+  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
+	PosQ[a], FunctionOfSquareRootOfQuadratic[u,x] returns the two element list {
+		f ((c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2),(-b+2*Sqrt[a]*x)/(c-x^2))*
+		  (c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2)^2,
+		(-Sqrt[a]+Sqrt[a+b*x+c*x^2])/x, 1 };
+
+Euler substitution #3:
+  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
+	NegQ[a] and NegQ[c], FunctionOfSquareRootOfQuadratic[u,x] returns the two element list {
+		-Sqrt[b^2-4*a*c]*
+		f (-Sqrt[b^2-4*a*c]*x/(c-x^2),-(b*c+c*Sqrt[b^2-4*a*c]+(-b+Sqrt[b^2-4*a*c])*x^2)/(2*c*(c-x^2)))*
+		  x/(c-x^2)^2,
+		2*c*Sqrt[a+b*x+c*x^2]/(b-Sqrt[b^2-4*a*c]+2*c*x), 3 };
+
+  else it returns False. *)
+
+FunctionOfSquareRootOfQuadratic[u_,x_Symbol] :=
+  If[MatchQ[u,x^m_.*(a_+b_.*x^n_.)^p_ /; FreeQ[{a,b,m,n,p},x]],
+    False,
+  Module[{tmp=FunctionOfSquareRootOfQuadratic[u,False,x]},
+  If[AtomQ[tmp] || FalseQ[tmp[[1]]],
+    False,
+  tmp=tmp[[1]];
+  Module[{a=Coefficient[tmp,x,0],b=Coefficient[tmp,x,1],c=Coefficient[tmp,x,2],sqrt,q,r},
+  If[EqQ[a,0] && EqQ[b,0] || EqQ[b^2-4*a*c,0],
+    False,
+  If[PosQ[c],
+    sqrt=Rt[c,2];
+    q=a*sqrt+b*x+sqrt*x^2;
+    r=b+2*sqrt*x;
+    {Simplify[SquareRootOfQuadraticSubst[u,q/r,(-a+x^2)/r,x]*q/r^2],
+     Simplify[sqrt*x+Sqrt[tmp]],
+     2},
+  If[PosQ[a],
+    sqrt=Rt[a,2];
+    q=c*sqrt-b*x+sqrt*x^2;
+    r=c-x^2;
+    {Simplify[SquareRootOfQuadraticSubst[u,q/r,(-b+2*sqrt*x)/r,x]*q/r^2],
+     Simplify[(-sqrt+Sqrt[tmp])/x],
+     1},
+  sqrt=Rt[b^2-4*a*c,2];
+  r=c-x^2;
+  {Simplify[-sqrt*SquareRootOfQuadraticSubst[u,-sqrt*x/r,-(b*c+c*sqrt+(-b+sqrt)*x^2)/(2*c*r),x]*x/r^2],
+   FullSimplify[2*c*Sqrt[tmp]/(b-sqrt+2*c*x)],
+   3}]]]]]]]
+
+
+FunctionOfSquareRootOfQuadratic[u_,v_,x_Symbol] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    {v},
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    If[FractionQ[u[[2]]] && Denominator[u[[2]]]==2 && PolynomialQ[u[[1]],x] && Exponent[u[[1]],x]==2,
+      If[(FalseQ[v] || u[[1]]===v),
+        {u[[1]]},
+      False],
+    FunctionOfSquareRootOfQuadratic[u[[1]],v,x]],
+  If[ProductQ[u] || SumQ[u],
+    Catch[Module[{lst={v}},
+    Scan[Function[lst=FunctionOfSquareRootOfQuadratic[#,lst[[1]],x];If[AtomQ[lst],Throw[False]]],u];
+    lst]],
+  False]]]
+
+
+(* SquareRootOfQuadraticSubst[u,vv,xx,x] returns u with fractional powers replaced by vv raised
+	to the power and x replaced by xx. *)
+SquareRootOfQuadraticSubst[u_,vv_,xx_,x_Symbol] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    If[u===x,
+      xx,
+    u],
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    If[FractionQ[u[[2]]] && Denominator[u[[2]]]==2 && PolynomialQ[u[[1]],x] && Exponent[u[[1]],x]==2,
+      vv^Numerator[u[[2]]],
+    SquareRootOfQuadraticSubst[u[[1]],vv,xx,x]^u[[2]]],
+  Map[Function[SquareRootOfQuadraticSubst[#,vv,xx,x]],u]]]
+
+
+(* ::Section::Closed:: *)
+(*Substitution functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*Subst*)
+
+
+(* Subst[u,x,w] returns u with x replaced by w and resulting constant terms replaced by 0. *) 
+Subst[u_,x_Symbol,w_] :=
+  SimplifyAntiderivative[SubstAux[u,x,w],x]
+
+Subst[u_,Rule[x_Symbol,w_]] :=
+  SimplifyAntiderivative[SubstAux[u,x,w],x]
+
+Subst[u_,x_,w_] :=
+  SubstAux[u,x,w]
+
+
+SubstAux[a_+b_.*x_,x_Symbol,c_.*F_[z_]^2] :=
+  a*Simplify[1-F[z]^2] /;
+FreeQ[{a,b,c},x] && MemberQ[{Sin,Cos,Sec,Csc,Cosh,Tanh,Coth,Sech},F] && EqQ[a+b*c,0]
+
+SubstAux[a_+b_.*x_,x_Symbol,c_.*F_[z_]^2] :=
+  a*Simplify[1+F[z]^2] /;
+FreeQ[{a,b,c},x] && MemberQ[{Tan,Cot,Sinh,Csch},F] && EqQ[a-b*c,0]
+
+
+SubstAux[a_+b_.*x_^2,x_Symbol,c_.*F_[z_]] :=
+  a*Simplify[1-F[z]^2] /;
+FreeQ[{a,b,c},x] && MemberQ[{Sin,Cos,Sec,Csc,Cosh,Tanh,Coth,Sech},F] && EqQ[a+b*c^2,0]
+
+SubstAux[a_+b_.*x_^2,x_Symbol,c_.*F_[z_]] :=
+  a*Simplify[1+F[z]^2] /;
+FreeQ[{a,b,c},x] && MemberQ[{Tan,Cot,Sinh,Csch},F] && EqQ[a-b*c^2,0]
+
+
+SubstAux[F_[a_.*x_^m_.],x_Symbol,b_.*x_^n_] :=
+   Extract[{ArcCsc,ArcSec,ArcCot,ArcTan,ArcCos,ArcSin,ArcCsch,ArcSech,ArcCoth,ArcTanh,ArcCosh,ArcSinh},
+  Position[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc,ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},F]][[1]] [x^(-m*n)/(a*b^m)] /;
+FreeQ[{a,b},x] && PositiveIntegerQ[m] && NegativeIntegerQ[n] && MemberQ[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc,ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},F]
+
+
+(* Subst[u,v,w] returns u with all nondummy occurences of v replaced by w *)
+SubstAux[u_,v_,w_] :=
+  If[u===v,
+    w,
+  If[AtomQ[u],
+    u,
+  If[PowerQ[u],
+    If[PowerQ[v] && u[[1]]===v[[1]] && SumQ[u[[2]]],
+      SubstAux[u[[1]]^First[u[[2]]],v,w]*SubstAux[u[[1]]^Rest[u[[2]]],v,w],
+    SubstAux[u[[1]],v,w]^SubstAux[u[[2]],v,w]],
+  If[Head[u]===Defer[Subst],
+    If[u[[2]]===v || FreeQ[u[[1]],v],
+      SubstAux[u[[1]],u[[2]],SubstAux[u[[3]],v,w]],
+    Defer[Subst][u,v,w]],
+  If[Head[u]===Defer[Dist],
+    Defer[Dist][SubstAux[u[[1]],v,w],SubstAux[u[[2]],v,w],u[[3]]],
+  If[CalculusQ[u] && Not[FreeQ[v,u[[2]]]] || HeldFormQ[u] && Head[u]=!=Defer[AppellF1],
+    Defer[Subst][u,v,w],
+  Map[Function[SubstAux[#,v,w]],u]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SimplifyAntiderivative*)
+
+
+(* ::Item::Closed:: *)
+(*SimplifyAntiderivative[u,x] returns the simplest, continuous expression whose derivative wrt x equals the derivative of u wrt x.*)
+
+
+(* ::Item:: *)
+(*Basis: D[c*F[x], x] == c*D[F[x], x]*)
+
+
+Clear[SimplifyAntiderivative];
+
+SimplifyAntiderivative[c_*u_,x_Symbol] :=
+  With[{v=SimplifyAntiderivative[u,x]},
+  If[SumQ[v] && NonsumQ[u],
+    Map[Function[c*#],v],
+  c*v]] /;
+FreeQ[c,x]
+
+
+(* ::Item:: *)
+(*Basis: D[Log[c*F[x]], x] == D[Log[F[x]], x]*)
+
+
+SimplifyAntiderivative[Log[c_*u_],x_Symbol] :=
+  SimplifyAntiderivative[Log[u],x] /;
+FreeQ[c,x]
+
+
+(* ::Item:: *)
+(*Basis: D[Log[F[x]^n], x] == n*D[Log[F[x]], x]*)
+
+
+SimplifyAntiderivative[Log[u_^n_],x_Symbol] :=
+  n*SimplifyAntiderivative[Log[u],x] /;
+FreeQ[n,x]
+
+
+(* ::Item:: *)
+(*Basis: If  F\[Element]{Log,ArcTan,ArcCot}, then D[F[G[x]], x] == -D[F[1/G[x]], x]*)
+
+
+SimplifyAntiderivative[F_[G_[u_]],x_Symbol] :=
+  -SimplifyAntiderivative[F[1/G[u]],x] /;
+MemberQ[{Log,ArcTan,ArcCot},F] && MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},G]
+
+
+(* ::Item:: *)
+(*Basis: If  F\[Element]{ArcTanh,ArcCoth}, then D[F[G[x]], x] == D[F[1/G[x]], x]*)
+
+
+SimplifyAntiderivative[F_[G_[u_]],x_Symbol] :=
+  SimplifyAntiderivative[F[1/G[u]],x] /;
+MemberQ[{ArcTanh,ArcCoth},F] && MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},G]
+
+
+SimplifyAntiderivative[Log[F_[u_]],x_Symbol] :=
+  -SimplifyAntiderivative[Log[1/F[u]],x] /;
+MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},F]
+
+
+(* ::Item:: *)
+(*Basis: D[Log[f^G[x]], x] == Log[f]*D[G[x], x]*)
+
+
+SimplifyAntiderivative[Log[f_^u_],x_Symbol] :=
+  Log[f]*SimplifyAntiderivative[u,x] /;
+FreeQ[f,x]
+
+
+(* ::Item:: *)
+(*Basis: If  a^2+b^2==0, then D[Log[a + b*Tan[F[x]]], x] == (b*D[F[x], x])/a - D[Log[Cos[F[x]]], x]*)
+
+
+SimplifyAntiderivative[Log[a_+b_.*Tan[u_]],x_Symbol] :=
+  b/a*SimplifyAntiderivative[u,x] - SimplifyAntiderivative[Log[Cos[u]],x] /;
+FreeQ[{a,b},x] && EqQ[a^2+b^2,0]
+
+
+(* ::Item:: *)
+(*Basis: If  a^2+b^2==0, then D[Log[a + b*Cot[F[x]]], x] == -((b/a)*D[F[x], x]) - D[Log[Sin[F[x]]], x]*)
+
+
+SimplifyAntiderivative[Log[a_+b_.*Cot[u_]],x_Symbol] :=
+  -b/a*SimplifyAntiderivative[u,x] - SimplifyAntiderivative[Log[Sin[u]],x] /;
+FreeQ[{a,b},x] && EqQ[a^2+b^2,0]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*Note: Should also recognize that Tan[z/2]==Sin[z]/(1+Cos[z])==Tan[z]/(1+Sec[z])*)
+
+
+SimplifyAntiderivative[ArcTan[a_.*Tan[u_]],x_Symbol] :=
+  RectifyTangent[u,a,1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCot[a*Tan[f[x]]], x] == -D[ArcTan[a*Tan[f[x]]], x]*)
+
+
+SimplifyAntiderivative[ArcCot[a_.*Tan[u_]],x_Symbol] :=
+  RectifyTangent[u,a,-1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcTan[a Tanh[z]]==-ArcTan[I a Tan[I z]]*)
+
+
+(* SimplifyAntiderivative[ArcTan[a_.*Tanh[u_]],x_Symbol] :=
+  RectifyTangent[I*u,I*a,-1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCot[a*Tanh[f[x]]], x] == -D[ArcTan[a*Tanh[f[x]]], x]*)
+
+
+SimplifyAntiderivative[ArcCot[a_.*Tanh[u_]],x_Symbol] :=
+  -SimplifyAntiderivative[ArcTan[a*Tanh[u]],x] /;
+FreeQ[a,x] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcTanh[a Tan[z]]==-I ArcTan[I a Tan[z]]*)
+
+
+SimplifyAntiderivative[ArcTanh[a_.*Tan[u_]],x_Symbol] :=
+  RectifyTangent[u,I*a,-I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCoth[a*Tan[f[x]]], x] == -(I*D[ArcTan[I*a*Tan[f[x]]], x])*)
+
+
+SimplifyAntiderivative[ArcCoth[a_.*Tan[u_]],x_Symbol] :=
+  RectifyTangent[u,I*a,-I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcTanh[a Tanh[z]]==-I ArcTan[a Tan[I z]]*)
+
+
+(* ::Item:: *)
+(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
+
+
+(* SimplifyAntiderivative[ArcTanh[a_.*Tanh[u_]],x_Symbol] :=
+  RectifyTangent[I*u,a,-I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[Tanh[f[x]]], x] == D[f[x], x]*)
+
+
+SimplifyAntiderivative[ArcTanh[Tanh[u_]],x_Symbol] :=
+  SimplifyAntiderivative[u,x]
+
+
+(* ::Item::Closed:: *)
+(*Basis: D[ArcCoth[a*Tanh[f[x]]], x] == -(I*D[ArcTan[a*Tan[I*f[x]]], x])*)
+
+
+(* ::Item:: *)
+(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
+
+
+(* SimplifyAntiderivative[ArcCoth[a_.*Tanh[u_]],x_Symbol] :=
+  RectifyTangent[I*u,a,-I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCoth[Tanh[f[x]]], x] == D[f[x], x]*)
+
+
+SimplifyAntiderivative[ArcCoth[Tanh[u_]],x_Symbol] :=
+  SimplifyAntiderivative[u,x]
+
+
+(* ::Input:: *)
+(* *)
+
+
+SimplifyAntiderivative[ArcCot[a_.*Cot[u_]],x_Symbol] :=
+  RectifyCotangent[u,a,1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a*Cot[f[x]]], x] == -D[ArcCot[a*Cot[f[x]]], x]*)
+
+
+SimplifyAntiderivative[ArcTan[a_.*Cot[u_]],x_Symbol] :=
+  RectifyCotangent[u,a,-1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcCot[a Coth[z]]==ArcCot[I a Cot[I z]]*)
+
+
+(* SimplifyAntiderivative[ArcCot[a_.*Coth[u_]],x_Symbol] :=
+  RectifyCotangent[I*u,I*a,1,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a*Coth[f[x]]], x] == -D[ArcTan[Tanh[f[x]]/a], x]*)
+
+
+SimplifyAntiderivative[ArcTan[a_.*Coth[u_]],x_Symbol] :=
+  -SimplifyAntiderivative[ArcTan[Tanh[u]/a],x] /;
+FreeQ[a,x] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcCoth[a Cot[z]]==I ArcCot[I a Cot[z]]*)
+
+
+SimplifyAntiderivative[ArcCoth[a_.*Cot[u_]],x_Symbol] :=
+  RectifyCotangent[u,I*a,I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[a*Cot[f[x]]], x] == I*D[ArcCot[I*a*Cot[f[x]]], x]*)
+
+
+SimplifyAntiderivative[ArcTanh[a_.*Cot[u_]],x_Symbol] :=
+  RectifyCotangent[u,I*a,I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcCoth[a Coth[z]]==-I ArcCot[a Cot[I z]]*)
+
+
+(* ::Item:: *)
+(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
+
+
+(* SimplifyAntiderivative[ArcCoth[a_.*Coth[u_]],x_Symbol] :=
+  RectifyCotangent[I*u,a,-I,x] /;
+FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCoth[Coth[f[x]]], x] == D[f[x], x]*)
+
+
+SimplifyAntiderivative[ArcCoth[Coth[u_]],x_Symbol] :=
+  SimplifyAntiderivative[u,x]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[a*Coth[f[x]]], x] == D[ArcTanh[Tanh[f[x]]/a], x]*)
+
+
+SimplifyAntiderivative[ArcTanh[a_.*Coth[u_]],x_Symbol] :=
+  SimplifyAntiderivative[ArcTanh[Tanh[u]/a],x] /;
+FreeQ[a,x] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[Coth[f[x]]], x] == D[f[x], x]*)
+
+
+SimplifyAntiderivative[ArcTanh[Coth[u_]],x_Symbol] :=
+  SimplifyAntiderivative[u,x]
+
+
+(* ::Input:: *)
+(* *)
+
+
+SimplifyAntiderivative[ArcTan[c_.*(a_+b_.*Tan[u_])],x_Symbol] :=
+  RectifyTangent[u,a*c,b*c,1,x] /;
+FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcTanh[a+b Tan[z]]==-I ArcTan[I a+I b Tan[z]]*)
+
+
+SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Tan[u_])],x_Symbol] :=
+  RectifyTangent[u,I*a*c,I*b*c,-I,x] /;
+FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
+
+
+(* ::Input:: *)
+(* *)
+
+
+SimplifyAntiderivative[ArcTan[c_.*(a_+b_.*Cot[u_])],x_Symbol] :=
+  RectifyCotangent[u,a*c,b*c,1,x] /;
+FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: ArcTanh[a+b Cot[z]]==-I ArcTan[I a+I b Cot[z]]*)
+
+
+SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Cot[u_])],x_Symbol] :=
+  RectifyCotangent[u,I*a*c,I*b*c,-I,x] /;
+FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + b*Tan[F[x]] + c*Tan[F[x]]^2], x] == D[ArcTan[(c + (a - c - 1)*Cos[F[x]]^2 + b*Cos[F[x]]*Sin[F[x]])/(c + (a - c + 1)*Cos[F[x]]^2 + b*Cos[F[x]]*Sin[F[x]])], x] == D[ArcTan[(a + c - 1 + (a - c - 1)*Cos[2*F[x]] + b*Sin[2*F[x]])/(a + c + 1 + (a - c + 1)*Cos[2*F[x]] + b*Sin[2*F[x]])], x]*)
+
+
+SimplifyAntiderivative[ArcTan[a_.+b_.*Tan[u_]+c_.*Tan[u_]^2],x_Symbol] :=
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    ArcTan[NormalizeTogether[(a+c-1+(a-c-1)*Cos[2*u]+b*Sin[2*u])/(a+c+1+(a-c+1)*Cos[2*u]+b*Sin[2*u])]],
+  ArcTan[NormalizeTogether[(c+(a-c-1)*Cos[u]^2+b*Cos[u]*Sin[u])/(c+(a-c+1)*Cos[u]^2+b*Cos[u]*Sin[u])]]] /;
+FreeQ[{a,b,c},x] && ComplexFreeQ[u]
+
+SimplifyAntiderivative[ArcTan[a_.+b_.*(d_.+e_.*Tan[u_])+c_.*(f_.+g_.*Tan[u_])^2],x_Symbol] :=
+  SimplifyAntiderivative[ArcTan[a+b*d+c*f^2+(b*e+2*c*f*g)*Tan[u]+c*g^2*Tan[u]^2],x] /;
+FreeQ[{a,b,c},x] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + c*Tan[F[x]]^2], x] == D[ArcTan[(c + (a - c - 1)*Cos[F[x]]^2)/(c + (a - c + 1)*Cos[F[x]]^2)], x] == D[ArcTan[(a + c - 1 + (a - c - 1)*Cos[2*F[x]])/(a + c + 1 + (a - c + 1)*Cos[2*F[x]])], x]*)
+
+
+SimplifyAntiderivative[ArcTan[a_.+c_.*Tan[u_]^2],x_Symbol] :=
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    ArcTan[NormalizeTogether[(a+c-1+(a-c-1)*Cos[2*u])/(a+c+1+(a-c+1)*Cos[2*u])]],
+  ArcTan[NormalizeTogether[(c+(a-c-1)*Cos[u]^2)/(c+(a-c+1)*Cos[u]^2)]]] /;
+FreeQ[{a,c},x] && ComplexFreeQ[u]
+
+SimplifyAntiderivative[ArcTan[a_.+c_.*(f_.+g_.*Tan[u_])^2],x_Symbol] :=
+  SimplifyAntiderivative[ArcTan[a+c*f^2+(2*c*f*g)*Tan[u]+c*g^2*Tan[u]^2],x] /;
+FreeQ[{a,c},x] && ComplexFreeQ[u]
+
+
+(* ::Item:: *)
+(*Basis: D[c, x] == D[0, x]*)
+
+
+SimplifyAntiderivative[u_,x_Symbol] :=
+  If[FreeQ[u,x],
+    0,
+  If[LogQ[u],
+    Log[RemoveContent[u[[1]],x]],
+  If[SumQ[u],
+    SimplifyAntiderivativeSum[Map[Function[SimplifyAntiderivative[#,x]],u],x],
+  u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SimplifyAntiderivativeSum*)
+
+
+Clear[SimplifyAntiderivativeSum];
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[Cos[u_]],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] /;
+FreeQ[{a,b,A,B},x] && IntegerQ[n] && EqQ[n*A-B,0]
+
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[Sin[u_]],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Sin[u]^n+b*Cos[u]^n,x]] /;
+FreeQ[{a,b,A,B},x] && IntegerQ[n] && EqQ[n*A-B,0]
+
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[c_+d_.*Tan[u_]^n_.],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] + B*Log[RemoveContent[c*Cos[u]^n+d*Sin[u]^n,x]] /;
+FreeQ[{a,b,c,d,A,B},x] && IntegerQ[n] && EqQ[A+B,0]
+
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[c_+d_.*Cot[u_]^n_.],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[b*Cos[u]^n+a*Sin[u]^n,x]] + B*Log[RemoveContent[d*Cos[u]^n+c*Sin[u]^n,x]] /;
+FreeQ[{a,b,c,d,A,B},x] && IntegerQ[n] && EqQ[A+B,0]
+
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[c_+d_.*Tan[u_]^n_.]+C_.*Log[e_+f_.*Tan[u_]^n_.],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] + 
+	B*Log[RemoveContent[c*Cos[u]^n+d*Sin[u]^n,x]] + C*Log[RemoveContent[e*Cos[u]^n+f*Sin[u]^n,x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && IntegerQ[n] && EqQ[A+B+C,0]
+
+
+SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[c_+d_.*Cot[u_]^n_.]+C_.*Log[e_+f_.*Cot[u_]^n_.],x_Symbol] :=
+  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[b*Cos[u]^n+a*Sin[u]^n,x]] + 
+	B*Log[RemoveContent[d*Cos[u]^n+c*Sin[u]^n,x]] + C*Log[RemoveContent[f*Cos[u]^n+e*Sin[u]^n,x]] /;
+FreeQ[{a,b,c,d,e,f,A,B,C},x] && IntegerQ[n] && EqQ[A+B+C,0]
+
+
+SimplifyAntiderivativeSum[u_,x_Symbol] := u
+
+
+(* ::Subsection::Closed:: *)
+(*RectifyTangent*)
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcTan[I a Tan[f[x]]]==I ArcTanh[a Tan[f[x]]]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[e*Cos[f[x]] + c*Sin[f[x]]]/2 - Log[e*Cos[f[x]] - c*Sin[f[x]]]/2, x]*)
+
+
+(* ::Item:: *)
+(*Note: Note unlike the above, the log terms in the following two identities are real-valued when c, e and f[x] are real.*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[c^2 + e^2 - (c^2 - e^2)*Cos[2*f[x]] + 2*c*e*Sin[2*f[x]]]/4 - Log[c^2 + e^2 - (c^2 - e^2)*Cos[2*f[x]] - 2*c*e*Sin[2*f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[e^2 + 2*c*e*Cos[f[x]]*Sin[f[x]] + (c^2 - e^2)*Sin[f[x]]^2]/4 - Log[e^2 - 2*c*e*Cos[f[x]]*Sin[f[x]] + (c^2 - e^2)*Sin[f[x]]^2]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a*Tan[f[x]]], x] == D[f[x] - ArcTan[Sin[2*f[x]]/((1 + a)/(1 - a) + Cos[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a*Tan[f[x]]], x] == D[f[x] + ArcTan[(Cos[f[x]]*Sin[f[x]])/(1/(a - 1) + Sin[f[x]]^2)], x] == D[f[x] - ArcTan[(Cos[f[x]]*Sin[f[x]])/(a/(1 - a) + Cos[f[x]]^2)], x]*)
+
+
+(* ::Item::Bold:: *)
+(*Note: If  a>0 and f[x] is real, then 1/(1-a)-Sin[f[x]]^2 is nonzero and f[x]-ArcTan[(Cos[f[x]] Sin[f[x]])/(1/(1-a)-Sin[f[x]]^2)] is continuous, unlike ArcTan[a Tan[f[x]]].*)
+
+
+(* RectifyTangent[u,a,b,x] returns an expression whose derivative equals the derivative of b*ArcTan[a*Tan[u]] wrt x. *)
+RectifyTangent[u_,a_,b_,x_Symbol] :=
+  If[MatchQ[Together[a],d_.*Complex[0,c_]],
+    Module[{c=a/I,e},
+    If[NegativeQ[c],
+      RectifyTangent[u,-a,-b,x],
+    If[EqQ[c,1],
+      If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+        I*b*ArcTanh[Sin[2*u]]/2,
+      I*b*ArcTanh[2*Cos[u]*Sin[u]]/2],
+    e=SmartDenominator[c];
+    c=c*e;
+(*  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+      I*b*Log[RemoveContent[c^2+e^2-(c^2-e^2)*Cos[2*u]+2*c*e*Sin[2*u],x]]/4 - 
+      I*b*Log[RemoveContent[c^2+e^2-(c^2-e^2)*Cos[2*u]-2*c*e*Sin[2*u],x]]/4,
+    I*b*Log[RemoveContent[e^2+2*c*e*Cos[u]*Sin[u]+(c^2-e^2)*Sin[u]^2,x]]/4 - 
+    I*b*Log[RemoveContent[e^2-2*c*e*Cos[u]*Sin[u]+(c^2-e^2)*Sin[u]^2,x]]/4]]]], *)
+    I*b*Log[RemoveContent[e*Cos[u]+c*Sin[u],x]]/2 - 
+    I*b*Log[RemoveContent[e*Cos[u]-c*Sin[u],x]]/2]]],
+  If[NegativeQ[a],
+    RectifyTangent[u,-a,-b,x],
+  If[EqQ[a,1],
+    b*SimplifyAntiderivative[u,x],
+  Module[{c,numr,denr},
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    c=Simplify[(1+a)/(1-a)];
+    numr=SmartNumerator[c];
+    denr=SmartDenominator[c];
+    b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Sin[2*u]/(numr+denr*Cos[2*u])]],
+  If[PositiveQ[a-1],
+    c=Simplify[1/(a-1)];
+    numr=SmartNumerator[c];
+    denr=SmartDenominator[c];
+    b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Sin[u]^2)]],
+  c=Simplify[a/(1-a)];
+  numr=SmartNumerator[c];
+  denr=SmartDenominator[c];
+  b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Cos[u]^2)]]]]]]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcTan[I a+I b Tan[f[x]]]==I ArcTanh[a+b Tan[f[x]]]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[c/e + (d/e)*Tan[f[x]]], x] == D[Log[(c + e)^2 + d^2 + ((c + e)^2 - d^2)*Cos[2*f[x]] + 2*(c + e)*d*Sin[2*f[x]]]/4 - Log[(c - e)^2 + d^2 + ((c - e)^2 - d^2)*Cos[2*f[x]] + 2*(c - e)*d*Sin[2*f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[c/e + (d/e)*Tan[f[x]]], x] == D[Log[(c + e)^2 + 2*(c + e)*d*Cos[f[x]]*Sin[f[x]] - ((c + e)^2 - d^2)*Sin[f[x]]^2]/4 - Log[(c - e)^2 + 2*(c - e)*d*Cos[f[x]]*Sin[f[x]] - ((c - e)^2 - d^2)*Sin[f[x]]^2]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + b*Tan[f[x]]], x] == D[f[x] + ArcTan[(2*a*b*Cos[2*f[x]] - (1 + a^2 - b^2)*Sin[2*f[x]])/(a^2 + (1 + b)^2 + (1 + a^2 - b^2)*Cos[2*f[x]] + 2*a*b*Sin[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + b*Tan[f[x]]], x] == D[f[x] - ArcTan[(a*b - 2*a*b*Cos[f[x]]^2 + (1 + a^2 - b^2)*Cos[f[x]]*Sin[f[x]])/(b*(1 + b) + (1 + a^2 - b^2)*Cos[f[x]]^2 + 2*a*b*Cos[f[x]]*Sin[f[x]])], x]*)
+
+
+(* RectifyTangent[u,a,b,r,x] returns an expression whose derivative equals the derivative of r*ArcTan[a+b*Tan[u]] wrt x. *)
+RectifyTangent[u_,a_,b_,r_,x_Symbol] :=
+  If[MatchQ[Together[a],d_.*Complex[0,c_]] && MatchQ[Together[b],d_.*Complex[0,c_]],
+    Module[{c=a/I,d=b/I,e},
+    If[NegativeQ[d],
+      RectifyTangent[u,-a,-b,-r,x],
+    e=SmartDenominator[Together[c+d*x]];
+    c=c*e;
+    d=d*e;
+    If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+      I*r*Log[RemoveContent[Simplify[(c+e)^2+d^2]+Simplify[(c+e)^2-d^2]*Cos[2*u]+Simplify[2*(c+e)*d]*Sin[2*u],x]]/4 - 
+      I*r*Log[RemoveContent[Simplify[(c-e)^2+d^2]+Simplify[(c-e)^2-d^2]*Cos[2*u]+Simplify[2*(c-e)*d]*Sin[2*u],x]]/4,
+    I*r*Log[RemoveContent[Simplify[(c+e)^2]+Simplify[2*(c+e)*d]*Cos[u]*Sin[u]-Simplify[(c+e)^2-d^2]*Sin[u]^2,x]]/4 - 
+    I*r*Log[RemoveContent[Simplify[(c-e)^2]+Simplify[2*(c-e)*d]*Cos[u]*Sin[u]-Simplify[(c-e)^2-d^2]*Sin[u]^2,x]]/4]]],
+  If[NegativeQ[b],
+    RectifyTangent[u,-a,-b,-r,x],
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    r*SimplifyAntiderivative[u,x] + 
+    r*ArcTan[Simplify[(2*a*b*Cos[2*u]-(1+a^2-b^2)*Sin[2*u])/(a^2+(1+b)^2+(1+a^2-b^2)*Cos[2*u]+2*a*b*Sin[2*u])]],
+  r*SimplifyAntiderivative[u,x] - 
+  r*ArcTan[ActivateTrig[Simplify[(a*b-2*a*b*cos[u]^2+(1+a^2-b^2)*cos[u]*sin[u])/(b*(1+b)+(1+a^2-b^2)*cos[u]^2+2*a*b*cos[u]*sin[u])]]]]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item::Closed:: *)
+(*Basis: D[ArcTanh[a + b*Tanh[f[x]]], x] == D[f[x] - ArcTanh[(2*a*b*Cosh[2*f[x]] - (1 - a^2 - b^2)*Sinh[2*f[x]])/(a^2 - (1 + b)^2 - (1 - a^2 - b^2)*Cosh[2*f[x]] + 2*a*b*Sinh[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[a + b*Tanh[f[x]]], x] == D[f[x] - ArcTanh[(a*b - 2*a*b*Cosh[f[x]]^2 + (1 - a^2 - b^2)*Cosh[f[x]]*Sinh[f[x]])/(b*(1 + b) + (1 - a^2 - b^2)*Cosh[f[x]]^2 - 2*a*b*Cosh[f[x]]*Sinh[f[x]])], x]*)
+
+
+(* SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Tanh[u_])],x_Symbol] :=
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    SimplifyAntiderivative[u,x] - 
+    ArcTanh[NormalizeTogether[(2*a*b*c^2*Cosh[2*u]-(1-a^2*c^2-b^2*c^2)*Sinh[2*u])/(a^2*c^2-(1+b*c)^2-(1-a^2*c^2-b^2*c^2)*Cosh[2*u]+2*a*b*c^2*Sinh[2*u])]],
+  SimplifyAntiderivative[u,x] - 
+  ArcTanh[NormalizeTogether[(a*b*c^2-2*a*b*c^2*Cosh[u]^2+(1-a^2*c^2-b^2*c^2)*Cosh[u]*Sinh[u])/(b*c*(1+b*c)+(1-a^2*c^2-b^2*c^2)*Cosh[u]^2-2*a*b*c^2*Cosh[u]*Sinh[u])]]] /;
+FreeQ[{a,b,c},x] *)
+
+
+(* ::Subsection::Closed:: *)
+(*RectifyCotangent*)
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcCot[I a Cot[f[x]]]==-I ArcCoth[a Cot[f[x]]]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCoth[(c/e)*Cot[f[x]]], x] == D[Log[c*Cos[f[x]] + e*Sin[f[x]]]/2 - Log[c*Cos[f[x]] - e*Sin[f[x]]]/2, x]*)
+
+
+(* ::Item:: *)
+(*Note: Note unlike the above, the log terms in the following two identities are real-valued when c, e and f[x] are real.*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[(c/e)*Cot[f[x]]], x] == D[Log[c^2 + e^2 + (c^2 - e^2)*Cos[2*f[x]] + 2*c*e*Sin[2*f[x]]]/4 - Log[c^2 + e^2 + (c^2 - e^2)*Cos[2*f[x]] - 2*c*e*Sin[2*f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[(c/e)*Cot[f[x]]], x] == D[Log[e^2 + (c^2 - e^2)*Cos[f[x]]^2 + 2*c*e*Cos[f[x]]*Sin[f[x]]]/4 - Log[e^2 + (c^2 - e^2)*Cos[f[x]]^2 - 2*c*e*Cos[f[x]]*Sin[f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCot[a*Cot[f[x]]], x] == D[f[x] + ArcTan[Sin[2*f[x]]/((1 + a)/(1 - a) - Cos[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcCot[a*Cot[f[x]]], x] == D[f[x] - ArcTan[(Cos[f[x]]*Sin[f[x]])/(1/(a - 1) + Cos[f[x]]^2)], x] == D[f[x] + ArcTan[(Cos[f[x]]*Sin[f[x]])/(a/(1 - a) + Sin[f[x]]^2)], x]*)
+
+
+(* RectifyCotangent[u,a,b,x] returns an expression whose derivative equals the derivative of b*ArcCot[a*Cot[u]] wrt x. *)
+RectifyCotangent[u_,a_,b_,x_Symbol] :=
+  If[MatchQ[Together[a],d_.*Complex[0,c_]],
+    Module[{c=a/I,e},
+    If[NegativeQ[c],
+      RectifyCotangent[u,-a,-b,x],
+    If[EqQ[c,1],
+      If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+        -I*b*ArcTanh[Sin[2*u]]/2,
+      -I*b*ArcTanh[2*Cos[u]*Sin[u]]/2],
+    e=SmartDenominator[c];
+    c=c*e;
+(*  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+      -I*b*Log[RemoveContent[c^2+e^2+(c^2-e^2)*Cos[2*u]+2*c*e*Sin[2*u],x]]/4 + 
+       I*b*Log[RemoveContent[c^2+e^2+(c^2-e^2)*Cos[2*u]-2*c*e*Sin[2*u],x]]/4,
+    -I*b*Log[RemoveContent[e^2+(c^2-e^2)*Cos[u]^2+2*c*e*Cos[u]*Sin[u],x]]/4 + 
+     I*b*Log[RemoveContent[e^2+(c^2-e^2)*Cos[u]^2-2*c*e*Cos[u]*Sin[u],x]]/4]]]], *)
+    -I*b*Log[RemoveContent[c*Cos[u]+e*Sin[u],x]]/2 + 
+    I*b*Log[RemoveContent[c*Cos[u]-e*Sin[u],x]]/2]]],
+  If[NegativeQ[a],
+    RectifyCotangent[u,-a,-b,x],
+  If[EqQ[a,1],
+    b*SimplifyAntiderivative[u,x],
+  Module[{c,numr,denr},
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    c=Simplify[(1+a)/(1-a)];
+    numr=SmartNumerator[c];
+    denr=SmartDenominator[c];
+    b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Sin[2*u]/(numr-denr*Cos[2*u])]],
+  If[PositiveQ[a-1],
+    c=Simplify[1/(a-1)];
+    numr=SmartNumerator[c];
+    denr=SmartDenominator[c];
+    b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Cos[u]^2)]],
+  c=Simplify[a/(1-a)];
+  numr=SmartNumerator[c];
+  denr=SmartDenominator[c];
+  b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Sin[u]^2)]]]]]]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item::Closed:: *)
+(*Basis: ArcTan[I a+I b Cot[f[x]]]==I ArcTanh[a+b Cot[f[x]]]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[c/e + (d/e)*Cot[f[x]]], x] == D[Log[(c + e)^2 + d^2 - ((c + e)^2 - d^2)*Cos[2*f[x]] + 2*(c + e)*d*Sin[2*f[x]]]/4 - Log[(c - e)^2 + d^2 - ((c - e)^2 - d^2)*Cos[2*f[x]] + 2*(c - e)*d*Sin[2*f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[c/e + (d/e)*Cot[f[x]]], x] == D[Log[(c + e)^2 - ((c + e)^2 - d^2)*Cos[f[x]]^2 + 2*(c + e)*d*Cos[f[x]]*Sin[f[x]]]/4 - Log[(c - e)^2 - ((c - e)^2 - d^2)*Cos[f[x]]^2 + 2*(c - e)*d*Cos[f[x]]*Sin[f[x]]]/4, x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + b*Cot[f[x]]], x] == D[-f[x] - ArcTan[(2*a*b*Cos[2*f[x]] + (1 + a^2 - b^2)*Sin[2*f[x]])/(a^2 + (1 + b)^2 - (1 + a^2 - b^2)*Cos[2*f[x]] + 2*a*b*Sin[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTan[a + b*Cot[f[x]]], x] == D[-f[x] - ArcTan[(a*b - 2*a*b*Sin[f[x]]^2 + (1 + a^2 - b^2)*Cos[f[x]]*Sin[f[x]])/(b*(1 + b) + (1 + a^2 - b^2)*Sin[f[x]]^2 + 2*a*b*Cos[f[x]]*Sin[f[x]])], x]*)
+
+
+(* RectifyCotangent[u,a,b,r,x] returns an expression whose derivative equals the derivative of r*ArcTan[a+b*Cot[u]] wrt x. *)
+RectifyCotangent[u_,a_,b_,r_,x_Symbol] :=
+  If[MatchQ[Together[a],d_.*Complex[0,c_]] && MatchQ[Together[b],d_.*Complex[0,c_]],
+    Module[{c=a/I,d=b/I,e},
+    If[NegativeQ[d],
+      RectifyTangent[u,-a,-b,-r,x],
+    e=SmartDenominator[Together[c+d*x]];
+    c=c*e;
+    d=d*e;
+    If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+      I*r*Log[RemoveContent[Simplify[(c+e)^2+d^2]-Simplify[(c+e)^2-d^2]*Cos[2*u]+Simplify[2*(c+e)*d]*Sin[2*u],x]]/4 - 
+      I*r*Log[RemoveContent[Simplify[(c-e)^2+d^2]-Simplify[(c-e)^2-d^2]*Cos[2*u]+Simplify[2*(c-e)*d]*Sin[2*u],x]]/4,
+    I*r*Log[RemoveContent[Simplify[(c+e)^2]-Simplify[(c+e)^2-d^2]*Cos[u]^2+Simplify[2*(c+e)*d]*Cos[u]*Sin[u],x]]/4 - 
+    I*r*Log[RemoveContent[Simplify[(c-e)^2]-Simplify[(c-e)^2-d^2]*Cos[u]^2+Simplify[2*(c-e)*d]*Cos[u]*Sin[u],x]]/4]]],
+  If[NegativeQ[b],
+    RectifyCotangent[u,-a,-b,-r,x],
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    -r*SimplifyAntiderivative[u,x] - 
+    r*ArcTan[Simplify[(2*a*b*Cos[2*u]+(1+a^2-b^2)*Sin[2*u])/(a^2+(1+b)^2-(1+a^2-b^2)*Cos[2*u]+2*a*b*Sin[2*u])]],
+  -r*SimplifyAntiderivative[u,x] - 
+  r*ArcTan[ActivateTrig[Simplify[(a*b-2*a*b*sin[u]^2+(1+a^2-b^2)*cos[u]*sin[u])/(b*(1+b)+(1+a^2-b^2)*sin[u]^2+2*a*b*cos[u]*sin[u])]]]]]]
+
+
+(* ::Input:: *)
+(* *)
+
+
+(* ::Item::Closed:: *)
+(*Basis: D[ArcTanh[a + b*Coth[f[x]]], x] == D[f[x] - ArcTanh[(2*a*b*Cosh[2*f[x]] - (1 - a^2 - b^2)*Sinh[2*f[x]])/(-a^2 + (1 + b)^2 - (1 - a^2 - b^2)*Cosh[2*f[x]] + 2*a*b*Sinh[2*f[x]])], x]*)
+
+
+(* ::Item:: *)
+(*Basis: D[ArcTanh[a + b*Coth[f[x]]], x] == D[f[x] - ArcTanh[(a*b + 2*a*b*Sinh[f[x]]^2 - (1 - a^2 - b^2)*Cosh[f[x]]*Sinh[f[x]])/(b*(1 + b) - (1 - a^2 - b^2)*Sinh[f[x]]^2 + 2*a*b*Cosh[f[x]]*Sinh[f[x]])], x]*)
+
+
+(* SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Coth[u_])],x_Symbol] :=
+  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
+    SimplifyAntiderivative[u,x] - 
+    ArcTanh[NormalizeTogether[(2*a*b*c^2*Cosh[2*u]-(1-a^2*c^2-b^2*c^2)*Sinh[2*u])/(-a^2*c^2+(1+b*c)^2-(1-a^2*c^2-b^2*c^2)*Cosh[2*u]+2*a*b*c^2*Sinh[2*u])]],
+  SimplifyAntiderivative[u,x] - 
+  ArcTanh[NormalizeTogether[(a*b*c^2+2*a*b*c^2*Sinh[u]^2-(1-a^2*c^2-b^2*c^2)*Cosh[u]*Sinh[u])/(b*c*(1+b*c)-(1-a^2*c^2-b^2*c^2)*Sinh[u]^2+2*a*b*c^2*Cosh[u]*Sinh[u])]]] /;
+FreeQ[{a,b,c},x] *)
+
+
+SmartNumerator[u_^n_] := SmartDenominator[u^(-n)] /; RationalQ[n] && n<0
+
+SmartNumerator[u_*v_] := SmartNumerator[u]*SmartNumerator[v]
+
+SmartNumerator[u_] := Numerator[u]
+
+
+SmartDenominator[u_^n_] := SmartNumerator[u^(-n)] /; RationalQ[n] && n<0
+
+SmartDenominator[u_*v_] := SmartDenominator[u]*SmartDenominator[v]
+
+SmartDenominator[u_] := Denominator[u]
+
+
+(* ::Subsection::Closed:: *)
+(*SubstFor*)
+
+
+(* u is a function of v.  SubstFor[w,v,u,x] returns w times u with v replaced by x. *)
+SubstFor[w_,v_,u_,x_] :=
+  SimplifyIntegrand[w*SubstFor[v,u,x],x]
+
+
+(* u is a function of v.  SubstFor[v,u,x] returns u with v replaced by x. *)
+SubstFor[v_,u_,x_] :=
+  If[AtomQ[v],
+    Subst[u,v,x],
+  If[Not[InertTrigFreeQ[u]],
+    SubstFor[v,ActivateTrig[u],x],
+  If[NeQ[FreeFactors[v,x],1],
+    SubstFor[NonfreeFactors[v,x],u,x/FreeFactors[v,x]],
+
+  If[SinQ[v],
+    SubstForTrig[u,x,Sqrt[1-x^2],v[[1]],x],
+  If[CosQ[v],
+    SubstForTrig[u,Sqrt[1-x^2],x,v[[1]],x],
+  If[TanQ[v],
+    SubstForTrig[u,x/Sqrt[1+x^2],1/Sqrt[1+x^2],v[[1]],x],
+  If[CotQ[v],
+    SubstForTrig[u,1/Sqrt[1+x^2],x/Sqrt[1+x^2],v[[1]],x],
+  If[SecQ[v],
+    SubstForTrig[u,1/Sqrt[1-x^2],1/x,v[[1]],x],
+  If[CscQ[v],
+    SubstForTrig[u,1/x,1/Sqrt[1-x^2],v[[1]],x],
+
+  If[SinhQ[v],
+    SubstForHyperbolic[u,x,Sqrt[1+x^2],v[[1]],x],
+  If[CoshQ[v],
+    SubstForHyperbolic[u,Sqrt[-1+x^2],x,v[[1]],x],
+  If[TanhQ[v],
+    SubstForHyperbolic[u,x/Sqrt[1-x^2],1/Sqrt[1-x^2],v[[1]],x],
+  If[CothQ[v],
+    SubstForHyperbolic[u,1/Sqrt[-1+x^2],x/Sqrt[-1+x^2],v[[1]],x],
+  If[SechQ[v],
+    SubstForHyperbolic[u,1/Sqrt[-1+x^2],1/x,v[[1]],x],
+  If[CschQ[v],
+    SubstForHyperbolic[u,1/x,1/Sqrt[1+x^2],v[[1]],x],
+
+  SubstForAux[u,v,x]]]]]]]]]]]]]]]]
+
+
+(* u is a function of v.  SubstForAux[u,v,x] returns u with v replaced by x. *)
+SubstForAux[u_,v_,x_] :=
+  If[u===v,
+    x,
+  If[AtomQ[u],
+    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u,v[[1]]],
+      x^Simplify[1/v[[2]]],
+    u],
+  If[PowerQ[u] && FreeQ[u[[2]],x],
+    If[EqQ[u[[1]],v],
+      x^u[[2]],
+    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u[[1]],v[[1]]],
+      x^Simplify[u[[2]]/v[[2]]],
+    SubstForAux[u[[1]],v,x]^u[[2]]]],
+  If[ProductQ[u] && NeQ[FreeFactors[u,x],1],
+    FreeFactors[u,x]*SubstForAux[NonfreeFactors[u,x],v,x],
+  If[ProductQ[u] && ProductQ[v],
+    SubstForAux[First[u],First[v],x],
+  Map[Function[SubstForAux[#,v,x]],u]]]]]]
+
+
+(* u (v) is an expression of the form f (Sin[v],Cos[v],Tan[v],Cot[v],Sec[v],Csc[v]). *)
+(* SubstForTrig[u,sin,cos,v,x] returns the expression f (sin,cos,sin/cos,cos/sin,1/cos,1/sin). *)
+SubstForTrig[u_,sin_,cos_,v_,x_] :=
+  If[AtomQ[u],
+    u,
+  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[u[[1]]===v || EqQ[u[[1]],v],
+      If[SinQ[u],
+        sin,
+      If[CosQ[u],
+        cos,
+      If[TanQ[u],
+        sin/cos,
+      If[CotQ[u],
+        cos/sin,
+      If[SecQ[u],
+        1/cos,
+      1/sin]]]]],
+    Map[Function[SubstForTrig[#,sin,cos,v,x]],
+			ReplaceAll[TrigExpand[Head[u][Simplify[u[[1]]/v]*x]],x->v]]],
+  If[ProductQ[u] && CosQ[u[[1]]] && SinQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
+    sin/2*SubstForTrig[Drop[u,2],sin,cos,v,x],
+  Map[Function[SubstForTrig[#,sin,cos,v,x]],u]]]]
+
+
+(* u (v) is an expression of the form f (Sinh[v],Cosh[v],Tanh[v],Coth[v],Sech[v],Csch[v]). *)
+(* SubstForHyperbolic[u,sinh,cosh,v,x] returns the expression
+		f (sinh,cosh,sinh/cosh,cosh/sinh,1/cosh,1/sinh). *)
+SubstForHyperbolic[u_,sinh_,cosh_,v_,x_] :=
+  If[AtomQ[u],
+    u,
+  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
+    If[u[[1]]===v || EqQ[u[[1]],v],
+      If[SinhQ[u],
+        sinh,
+      If[CoshQ[u],
+        cosh,
+      If[TanhQ[u],
+        sinh/cosh,
+      If[CothQ[u],
+        cosh/sinh,
+      If[SechQ[u],
+        1/cosh,
+      1/sinh]]]]],
+    Map[Function[SubstForHyperbolic[#,sinh,cosh,v,x]],
+			ReplaceAll[TrigExpand[Head[u][Simplify[u[[1]]/v]*x]],x->v]]],
+  If[ProductQ[u] && CoshQ[u[[1]]] && SinhQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
+    sinh/2*SubstForHyperbolic[Drop[u,2],sinh,cosh,v,x],
+  Map[Function[SubstForHyperbolic[#,sinh,cosh,v,x]],u]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SubstForFractionalPowerOfLinear*)
+
+
+(* If u has a subexpression of the form (a+b*x)^(m/n) where m and n>1 are integers, 
+	SubstForFractionalPowerOfLinear[u,x] returns the list {v,n,a+b*x,1/b} where v is u
+	with subexpressions of the form (a+b*x)^(m/n) replaced by x^m and x replaced
+	by -a/b+x^n/b, and all times x^(n-1); else it returns False. *)
+SubstForFractionalPowerOfLinear[u_,x_Symbol] :=
+  With[{lst=FractionalPowerOfLinear[u,1,False,x]},
+  If[AtomQ[lst] || FalseQ[lst[[2]]],
+    False,
+  With[{n=lst[[1]], a=Coefficient[lst[[2]],x,0], b=Coefficient[lst[[2]],x,1]},
+  With[{tmp=Simplify[x^(n-1)*SubstForFractionalPower[u,lst[[2]],n,-a/b+x^n/b,x]]},
+  {NonfreeFactors[tmp,x],n,lst[[2]],FreeFactors[tmp,x]/b}]]]]
+
+
+(* If u has a subexpression of the form (a+b*x)^(m/n), 
+	FractionalPowerOfLinear[u,1,False,x] returns {n,a+b*x}; else it returns False. *)
+FractionalPowerOfLinear[u_,n_,v_,x_] :=
+  If[AtomQ[u] || FreeQ[u,x],
+    {n,v},
+  If[CalculusQ[u],
+    False,
+  If[FractionalPowerQ[u] && LinearQ[u[[1]],x] && (FalseQ[v] || EqQ[u[[1]],v]),
+    {LCM[Denominator[u[[2]]],n],u[[1]]},
+  Catch[Module[{lst={n,v}},
+    Scan[Function[If[AtomQ[lst=FractionalPowerOfLinear[#,lst[[1]],lst[[2]],x]],Throw[False]]],u];
+    lst]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*InverseFunctionOfLinear*)
+
+
+(* If u has a subexpression of the form g[a+b*x] where g is an inverse function, 
+	InverseFunctionOfLinear[u,x] returns g[a+b*x]; else it returns False. *)
+InverseFunctionOfLinear[u_,x_Symbol] :=
+  If[AtomQ[u] || CalculusQ[u] || FreeQ[u,x],
+    False,
+  If[InverseFunctionQ[u] && LinearQ[u[[1]],x],
+    u,
+  Module[{tmp},
+  Catch[
+    Scan[Function[If[Not[AtomQ[tmp=InverseFunctionOfLinear[#,x]]],Throw[tmp]]],u];
+    False]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TryPureTanSubst*)
+
+
+TryPureTanSubst[u_,x_Symbol] :=
+(*  Not[MatchQ[u,Log[v_]]] &&
+  Not[MatchQ[u,f_[v_]^2 /; LinearQ[v,x]]] &&
+  Not[MatchQ[u,ArcTan[a_.*Tan[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcTan[a_.*Cot[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcCot[a_.*Tan[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcCot[a_.*Cot[v_]] /; FreeQ[a,x]]] &&
+  u===ExpandIntegrand[u,x] *)
+  Not[MatchQ[u,F_[c_.*(a_.+b_.*G_[v_])] /; FreeQ[{a,b,c},x] && MemberQ[{ArcTan,ArcCot,ArcTanh,ArcCoth},F] && MemberQ[{Tan,Cot,Tanh,Coth},G] && LinearQ[v,x]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TryPureTanhSubst*)
+
+
+TryTanhSubst[u_,x_Symbol] :=
+  FalseQ[FunctionOfLinear[u,x]] &&
+  Not[MatchQ[u,r_.*(s_+t_)^n_. /; IntegerQ[n] && n>0]] &&
+(*Not[MatchQ[u,Log[f_[x]^2] /; SinhCoshQ[f]]]  && *)
+  Not[MatchQ[u,Log[v_]]]  &&
+  Not[MatchQ[u,1/(a_+b_.*f_[x]^n_) /; SinhCoshQ[f] && IntegerQ[n] && n>2]] &&
+  Not[MatchQ[u,f_[m_.*x]*g_[n_.*x] /; IntegersQ[m,n] && SinhCoshQ[f] && SinhCoshQ[g]]] &&
+  Not[MatchQ[u,r_.*(a_.*s_^m_)^p_ /; FreeQ[{a,m,p},x] && Not[m===2 && (s===Sech[x] || s===Csch[x])]]] &&
+  u===ExpandIntegrand[u,x]
+
+
+TryPureTanhSubst[u_,x_Symbol] :=
+  Not[MatchQ[u,Log[v_]]]  &&
+  Not[MatchQ[u,ArcTanh[a_.*Tanh[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcTanh[a_.*Coth[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcCoth[a_.*Tanh[v_]] /; FreeQ[a,x]]] &&
+  Not[MatchQ[u,ArcCoth[a_.*Coth[v_]] /; FreeQ[a,x]]] &&
+  u===ExpandIntegrand[u,x]
+
+
+(* ::Section::Closed:: *)
+(*Inert trig functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*InertTrigQ*)
+
+
+InertTrigQ[f_] := MemberQ[{sin,cos,tan,cot,sec,csc},f]
+
+InertTrigQ[f_,g_] := 
+  If[f===g,
+    InertTrigQ[f],
+  InertReciprocalQ[f,g] || InertReciprocalQ[g,f]]
+
+InertTrigQ[f_,g_,h_] := InertTrigQ[f,g] && InertTrigQ[g,h]
+
+
+InertReciprocalQ[f_,g_] := f===sin && g===csc || f===cos && g===sec || f===tan && g===cot
+
+
+InertTrigFreeQ[u_] := FreeQ[u,sin] && FreeQ[u,cos] && FreeQ[u,tan] && FreeQ[u,cot] && FreeQ[u,sec] && FreeQ[u,csc]
+
+
+(* ::Subsection::Closed:: *)
+(*ActivateTrig[u]*)
+
+
+ActivateTrig[u_] :=
+  ReplaceAll[u,{sin->Sin,cos->Cos,tan->Tan,cot->Cot,sec->Sec,csc->Csc}]
+
+
+(* ::Subsection::Closed:: *)
+(*DeactivateTrig[u,x]*)
+
+
+(* u is a function of trig functions of a linear function of x. *)
+(* DeactivateTrig[u,x] returns u with the trig functions replaced with inert trig functions. *)
+
+
+DeactivateTrig[(c_.+d_.*x_)^m_.*(a_.+b_.*trig_[e_.+f_.*x_])^n_.,x_] :=
+  (c+d*x)^m*(a+b*DeactivateTrig[trig[e+f*x],x])^n /;
+FreeQ[{a,b,c,d,e,f,m,n},x] && (TrigQ[trig] || HyperbolicQ[trig])
+
+
+DeactivateTrig[u_,x_] :=
+  UnifyInertTrigFunction[FixInertTrigFunction[DeactivateTrigAux[u,x],x],x]
+
+
+DeactivateTrigAux[u_,x_] :=
+  If[AtomQ[u],
+    u,
+  If[TrigQ[u] && LinearQ[u[[1]],x],
+    With[{v=ExpandToSum[u[[1]],x]},
+    Switch[Head[u],
+	  Sin, ReduceInertTrig[sin,v],
+	  Cos, ReduceInertTrig[cos,v],
+	  Tan, ReduceInertTrig[tan,v],
+	  Cot, ReduceInertTrig[cot,v],
+	  Sec, ReduceInertTrig[sec,v],
+	  Csc, ReduceInertTrig[csc,v]]],
+  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
+    With[{v=ExpandToSum[I*u[[1]],x]},
+    Switch[Head[u],
+	  Sinh, -I*ReduceInertTrig[sin,v],
+	  Cosh, ReduceInertTrig[cos,v],
+	  Tanh, -I*ReduceInertTrig[tan,v],
+	  Coth, I*ReduceInertTrig[cot,v],
+	  Sech, ReduceInertTrig[sec,v],
+	  Csch, I*ReduceInertTrig[csc,v]]],
+  Map[Function[DeactivateTrigAux[#,x]],u]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*FixInertTrigFunction[u,x]*)
+
+
+Clear[FixInertTrigFunction]
+
+FixInertTrigFunction[a_*u_,x_] :=
+  a*FixInertTrigFunction[u,x] /;
+FreeQ[a,x]
+
+FixInertTrigFunction[u_.*(a_*(b_+v_))^n_,x_] :=
+  FixInertTrigFunction[u*(a*b+a*v)^n,x] /;
+FreeQ[{a,b,n},x] && Not[FreeQ[v,x]]
+
+
+FixInertTrigFunction[csc[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
+  sin[v]^(-m)*(c*sin[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[sec[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
+  cos[v]^(-m)*(c*cos[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[cot[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
+  tan[v]^(-m)*(c*tan[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[tan[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
+  cot[v]^(-m)*(c*cot[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[cos[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
+  sec[v]^(-m)*(c*sec[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[sin[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
+  csc[v]^(-m)*(c*csc[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[sec[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
+  cos[v]^(-m)*(c*sin[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[csc[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
+  sin[v]^(-m)*(c*cos[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[cos[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
+  sec[v]^(-m)*(c*tan[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[sin[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
+  csc[v]^(-m)*(c*cot[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[sin[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
+  csc[v]^(-m)*(c*sec[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[cos[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
+  sec[v]^(-m)*(c*csc[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[cot[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
+  tan[v]^(-m)*(c*sin[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[tan[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
+  cot[v]^(-m)*(c*cos[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[csc[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
+  sin[v]^(-m)*(c*tan[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[sec[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
+  cos[v]^(-m)*(c*cot[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[cot[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
+  tan[v]^(-m)*(c*sec[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[tan[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
+  cot[v]^(-m)*(c*csc[w])^n /;
+FreeQ[{c,n},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[sec[v_]^m_.*sec[w_]^n_.,x_] :=
+  cos[v]^(-m)*cos[w]^(-n) /;
+IntegersQ[m,n]
+
+FixInertTrigFunction[csc[v_]^m_.*csc[w_]^n_.,x_] :=
+  sin[v]^(-m)*sin[w]^(-n) /;
+IntegersQ[m,n]
+
+
+FixInertTrigFunction[u_*tan[v_]^m_.*(a_+b_.*sin[w_])^n_.,x_] :=
+  sin[v]^m/cos[v]^m*FixInertTrigFunction[u*(a+b*sin[w])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_*cot[v_]^m_.*(a_+b_.*sin[w_])^n_.,x_] :=
+  cos[v]^m/sin[v]^m*FixInertTrigFunction[u*(a+b*sin[w])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_*tan[v_]^m_.*(a_+b_.*cos[w_])^n_.,x_] :=
+  sin[v]^m/cos[v]^m*FixInertTrigFunction[u*(a+b*cos[w])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_*cot[v_]^m_.*(a_+b_.*cos[w_])^n_.,x_] :=
+  cos[v]^m/sin[v]^m*FixInertTrigFunction[u*(a+b*cos[w])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[cot[v_]^m_.*(a_.+b_.*(c_.*sin[w_])^p_.)^n_.,x_] :=
+  tan[v]^(-m)*(a+b*(c*sin[w])^p)^n /;
+FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
+
+FixInertTrigFunction[tan[v_]^m_.*(a_.+b_.*(c_.*cos[w_])^p_.)^n_.,x_] :=
+  cot[v]^(-m)*(a+b*(c*cos[w])^p)^n /;
+FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[u_.*(c_.*sin[v_]^n_.)^p_.*w_,x_] :=
+  (c*sin[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,sin,x]
+
+FixInertTrigFunction[u_.*(c_.*cos[v_]^n_.)^p_.*w_,x_] :=
+  (c*cos[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,cos,x]
+
+FixInertTrigFunction[u_.*(c_.*tan[v_]^n_.)^p_.*w_,x_] :=
+  (c*tan[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,tan,x]
+
+FixInertTrigFunction[u_.*(c_.*cot[v_]^n_.)^p_.*w_,x_] :=
+  (c*cot[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,cot,x]
+
+FixInertTrigFunction[u_.*(c_.*sec[v_]^n_.)^p_.*w_,x_] :=
+  (c*sec[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,sec,x]
+
+FixInertTrigFunction[u_.*(c_.*csc[v_]^n_.)^p_.*w_,x_] :=
+  (c*csc[v]^n)^p*FixInertTrigFunction[u*w,x] /;
+FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,csc,x]
+
+
+FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
+  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cos,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
+  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,sin,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
+  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,sin,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
+  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cos,x] && IntegerQ[n]
+
+
+FixInertTrigFunction[u_.*cot[v_]^n_.*w_,x_] :=
+  tan[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*cos[v_]^n_.*w_,x_] :=
+  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*cos[v_]^n_*w_,x_] :=
+  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
+  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
+
+
+FixInertTrigFunction[u_.*tan[v_]^n_.*w_,x_] :=
+  cot[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
+  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
+  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
+  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
+
+
+FixInertTrigFunction[u_.*cos[v_]^n_.*w_,x_] :=
+  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*cot[v_]^n_.*w_,x_] :=
+  tan[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
+  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
+
+
+FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
+  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*tan[v_]^n_.*w_,x_] :=
+  cot[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
+
+FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
+  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
+PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
+
+
+FixInertTrigFunction[u_.*tan[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
+  sin[v]^m*cos[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_.*cot[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
+  cos[v]^m*sin[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_.*sec[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
+  cos[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+FixInertTrigFunction[u_.*csc[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
+  sin[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
+FreeQ[{a,b,n},x] && IntegerQ[m]
+
+
+FixInertTrigFunction[f_[v_]^m_.*(A_.+B_.*g_[v_]+C_.*g_[v_]^2),x_] :=
+  g[v]^(-m)*(A+B*g[v]+C*g[v]^2) /;
+FreeQ[{A,B,C},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
+
+FixInertTrigFunction[f_[v_]^m_.*(A_.+C_.*g_[v_]^2),x_] :=
+  g[v]^(-m)*(A+C*g[v]^2) /;
+FreeQ[{A,C},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
+
+
+FixInertTrigFunction[f_[v_]^m_.*(A_.+B_.*g_[v_]+C_.*g_[v_]^2)*(a_.+b_.*g_[v_])^n_.,x_] :=
+  g[v]^(-m)*(A+B*g[v]+C*g[v]^2)*(a+b*g[v])^n /;
+FreeQ[{a,b,A,B,C,n},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
+
+FixInertTrigFunction[f_[v_]^m_.*(A_.+C_.*g_[v_]^2)*(a_.+b_.*g_[v_])^n_.,x_] :=
+  g[v]^(-m)*(A+C*g[v]^2)*(a+b*g[v])^n /;
+FreeQ[{a,b,A,C,n},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
+
+
+FixInertTrigFunction[u_,x_] := u
+
+
+PowerOfInertTrigSumQ[u_,func_,x_] :=
+  MatchQ[u, (a_.+b_.*(c_.*func[w_])^n_.)^p_. /; FreeQ[{a,b,c,n,p},x] && Not[EqQ[a,0] && (IntegerQ[p] || EqQ[n,1])]] || 
+  MatchQ[u, (a_.+b_.*(d_.*func[w_])^p_.+c_.*(d_.*func[w_])^q_.)^n_. /; FreeQ[{a,b,c,d,n,p,q},x]]
+
+
+(* ::Subsection::Closed:: *)
+(*ReduceInertTrig[func,a,b,x]*)
+
+
+ReduceInertTrig[func_,m_.*(n_.*Pi+u_.)+v_.] :=
+  ReduceInertTrig[func,m*n,m*u+v] /;
+RationalQ[m,n]
+
+ReduceInertTrig[func_,m_.*Complex[0,mz_]*(n_.*Complex[0,nz_]*Pi+u_.)+v_.] :=
+  ReduceInertTrig[func,-m*mz*n*nz,m*mz*I*u+v] /;
+RationalQ[m,mz,n,nz]
+
+ReduceInertTrig[func_,u_] :=
+  func[u]
+
+
+(* func is an inert function and m is rational *)
+(* ReduceInertTrig[func,m_,u_] returns func[m*Pi+u] with m reduced 0<=m<1/2. *)
+ReduceInertTrig[func_,m_,u_] :=
+  If[m<0,
+    If[m>=-1/4,
+      func[m*Pi+u],
+    Switch[func,
+	  sin, -ReduceInertTrig[sin,-m,-u],
+	  cos, ReduceInertTrig[cos,-m,-u],
+	  tan, -ReduceInertTrig[tan,-m,-u],
+	  cot, -ReduceInertTrig[cot,-m,-u],
+	  sec, ReduceInertTrig[sec,-m,-u],
+	  csc, -ReduceInertTrig[csc,-m,-u]]],
+  If[m>=2,
+    ReduceInertTrig[func,Mod[m,2],u],
+  If[m>=1,
+    Switch[func,
+	  sin, -ReduceInertTrig[sin,m-1,u],
+	  cos, -ReduceInertTrig[cos,m-1,u],
+	  tan, ReduceInertTrig[tan,m-1,u],
+	  cot, ReduceInertTrig[cot,m-1,u],
+	  sec, -ReduceInertTrig[sec,m-1,u],
+	  csc, -ReduceInertTrig[csc,m-1,u]],
+  If[m>=1/2,
+    Switch[func,
+	  sin, ReduceInertTrig[cos,m-1/2,u],
+	  cos, -ReduceInertTrig[sin,m-1/2,u],
+	  tan, -ReduceInertTrig[cot,m-1/2,u],
+	  cot, -ReduceInertTrig[tan,m-1/2,u],
+	  sec, -ReduceInertTrig[csc,m-1/2,u],
+	  csc, ReduceInertTrig[sec,m-1/2,u]],
+  func[m*Pi+u]]]]] /;
+RationalQ[m]
+
+
+(* ::Subsection::Closed:: *)
+(*UnifyInertTrigFunction[u,x]*)
+
+
+Clear[UnifyInertTrigFunction]
+
+
+UnifyInertTrigFunction[a_*u_,x_] :=
+  a*UnifyInertTrigFunction[u,x] /;
+FreeQ[a,x]
+
+
+(* ::Subsubsection:: *)
+(*Cosine to sine*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.0 (a sin)^m (b trg)^n*)
+
+
+(* ::Text:: *)
+(*(a Cos[e+f x])^m (b Csc[e+f x])^n == (a Sin[e+Pi/2+f x])^m (-b Sec[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*csc[e_.+f_.*x_])^n_.,x_] :=
+  (a*sin[e+Pi/2+f*x])^m*(-b*sec[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(a Cos[e+f x])^m (b Sec[e+f x])^n == (a Sin[e+Pi/2+f x])^m (b Csc[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (a*sin[e+Pi/2+f*x])^m*(b*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.1.1 (a+b sin)^n*)
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^n == (a+b Sin[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  (a+b*sin[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.1.2 (g cos)^p (a+b sin)^m*)
+
+
+(* ::Text:: *)
+(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m == (g Cos[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
+
+
+UnifyInertTrigFunction[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
+  (g*cos[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+(* ::Text:: *)
+(*(g Csc[e+f x])^p (a+b Cos[e+f x])^m == (g Sec[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
+
+
+UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
+  (g*sec[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.1.3 (g tan)^p (a+b sin)^m*)
+
+
+(* ::Text:: *)
+(*(g Cot[e+f x])^p (a+b Cos[e+f x])^m == (-g Tan[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
+
+
+(* ::Text:: *)
+(*(g Cot[e+f x])^p (a+b Cos[e+f x])^m == (-g Tan[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m*)
+
+
+UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
+  If[True,
+    (-g*tan[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m,
+  (-g*tan[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m] /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+(* ::Text:: *)
+(*(g Tan[e+f x])^p (a+b Cos[e+f x])^m == (-g Cot[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m*)
+
+
+UnifyInertTrigFunction[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
+  (-g*cot[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.2.1 (a+b sin)^m (c+d sin)^n*)
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.2.2 (g cos)^p (a+b sin)^m (c+d sin)^n*)
+
+
+(* ::Text:: *)
+(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Cos[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m (c-d Sin[e-Pi/2+f x])^n*)
+
+
+(* ::Text:: *)
+(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (-g Cos[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*sin[e_.+f_. x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  If[IntegerQ[2*p] && p<0 && IntegerQ[2*n],
+    (g*cos[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m*(c-d*sin[e-Pi/2+f*x])^n,
+  (-g*cos[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n] /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Text:: *)
+(*(g Csc[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Sec[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m (c-d Sin[e-Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  (g*sec[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m*(c-d*sin[e-Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.2.3 (g sin)^p (a+b sin)^m (c+d sin)^n*)
+
+
+(* ::Text:: *)
+(*(g Cos[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  (g*sin[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Text:: *)
+(*(g Cos[e+f x])^p (a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (g*sin[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Text:: *)
+(*(g Sec[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
+  (g*csc[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Text:: *)
+(*(g Sec[e+f x])^p (a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (g*csc[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.3.1 (a+b sin)^m (c+d sin)^n (A+B sin)*)
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+B Cos[e+f x]) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+B Sin[e+Pi/2+f x])*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]),x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+B*sin[e+Pi/2+f*x]) /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.4.1 (a+b sin)^m (A+B sin+C sin^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (A+B Cos[e+f x]+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (A+B Sin[e+Pi/2+f x]+C Sin[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(A+B*sin[e+Pi/2+f*x]+C*sin[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,e,f,A,B,C,m},x]
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (A+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (A+C Sin[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(A+C*sin[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,e,f,A,C,m},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.4.2 (a+b sin)^m (c+d sin)^n (A+B sin+C sin^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+B Cos[e+f x]+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+B Sin[e+Pi/2+f x]+C Sin[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+B*sin[e+Pi/2+f*x]+C*sin[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x]
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+C Sin[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_] :=
+  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+C*sin[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*1.7 (d trig)^m (a+b (c sin)^n)^p*)
+
+
+(* ::Text:: *)
+(*(a+b (c Cos[e+f x])^n)^p == (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_,x_] :=
+  (a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cos[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*sin[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sin[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cos[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cot[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*tan[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Tan[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cot[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Csc[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*sec[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sec[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*csc[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(a+b Cos[e+f x]^n)^m (A+B Cos[e+f x]^n) == (a+b Sin[e+Pi/2+f x]^n)^m (A+B Sin[e+Pi/2+f x]^n)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_]^n_)^m_.*(A_.+B_.*cos[e_.+f_.*x_]^n_),x_] :=
+  (a+b*sin[e+Pi/2+f*x]^n)^m*(A+B*sin[e+Pi/2+f*x]^n) /;
+FreeQ[{a,b,e,f,A,B,m,n},x] && Not[EqQ[a,0] && IntegerQ[m]]
+
+
+(* ::Subsubsection:: *)
+(*Cotangent to tangent*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.0 (a trg)^m (b tan)^n*)
+
+
+(* ::Text:: *)
+(*(a Cos[e+f x])^m (b Cot[e+f x])^n == (a Sin[e+Pi/2+f x])^m (-b Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a*sin[e+Pi/2+f*x])^m*(-b*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(a Sin[e+f x])^m (b Cot[e+f x])^n == (a Cos[e-Pi/2+f x])^m (-b Tan[e-Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a*cos[e-Pi/2+f*x])^m*(-b*tan[e-Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(a Csc[e+f x])^m (b Cot[e+f x])^n == (a Sec[e-Pi/2+f x])^m (-b Tan[e-Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a*sec[e-Pi/2+f*x])^m*(-b*tan[e-Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(a Sec[e+f x])^m (b Cot[e+f x])^n == (a Csc[e+Pi/2+f x])^m (-b Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a*csc[e+Pi/2+f*x])^m*(-b*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.1.1 (a+b tan)^n*)
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^n == (a-b Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a-b*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.1.2 (d sec)^m (a+b tan)^n*)
+
+
+(* ::Text:: *)
+(*(d Csc[e+f x])^m (a+b Cot[e+f x])^n == (d Sec[e-Pi/2+f x])^m (a-b Tan[e-Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (d*sec[e-Pi/2+f*x])^m*(a-b*tan[e-Pi/2+f*x])^n /;
+FreeQ[{a,b,d,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(d Sin[e+f x])^m (a+b Cot[e+f x])^n == (d Cos[e-Pi/2+f x])^m (a-b Tan[e-Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (d*cos[e-Pi/2+f*x])^m*(a-b*tan[e-Pi/2+f*x])^n /;
+FreeQ[{a,b,d,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.1.3 (d sin)^m (a+b tan)^n*)
+
+
+(* ::Text:: *)
+(*(d Cos[e+f x])^m (a+b Cot[e+f x])^n == (d Sin[e+Pi/2+f x])^m (a-b Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (d*sin[e+Pi/2+f*x])^m*(a-b*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,d,e,f,m,n},x]
+
+
+(* ::Text:: *)
+(*(d Sec[e+f x])^m (a+b Cot[e+f x])^n == (d Csc[e+Pi/2+f x])^m (a-b Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (d*csc[e+Pi/2+f*x])^m*(a-b*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,d,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.2.1 (a+b tan)^m (c+d tan)^n*)
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.2.3 (g tan)^p (a+b tan)^m (c+d tan)^n*)
+
+
+(* ::Text:: *)
+(*(g Cot[e+f x])^p (a+b Cot[e+f x])^m (c+d Cot[e+f x])^n == (-g Tan[e+Pi/2+f x])^p (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.,x_] :=
+  (-g*tan[e+Pi/2+f*x])^p*(a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Text:: *)
+(*(g Cot[e+f x])^p (a+b Cot[e+f x])^m (c+d Tan[e+f x])^n == (-g Tan[e+Pi/2+f x])^p (a-b Tan[e+Pi/2+f x])^m (c-d Cot[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.,x_] :=
+  (-g*tan[e+Pi/2+f*x])^p*(a-b*tan[e+Pi/2+f*x])^m*(c-d*cot[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.3.1 (a+b tan)^m (c+d tan)^n (A+B tan)*)
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+B Cot[e+f x]) == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A-B Tan[e+Pi/2+f x])*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+B_.*cot[e_.+f_.*x_]),x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A-B*tan[e+Pi/2+f*x]) /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.4.1 (a+b tan)^m (A+B tan+C tan^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (A+B Cot[e+f x]+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (A-B Tan[e+Pi/2+f x]+C Tan[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_.+B_.*cot[e_.+f_.*x_]+C_.*cot[e_.+f_.*x_]^2),x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(A-B*tan[e+Pi/2+f*x]+C*tan[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,e,f,A,B,C,m},x]
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (A+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (A+C Tan[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_.+C_.*cot[e_.+f_.*x_]^2),x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(A+C*tan[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,e,f,A,C,m},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.4.2 (a+b tan)^m (c+d tan)^n (A+B tan+C tan^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+B Cot[e+f x]+C Cot[e+f x]^2) == *)
+(*		(a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A-B Tan[e+Pi/2+f x]+C Tan[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+B_.*cot[e_.+f_.*x_]+C_.*cot[e_.+f_.*x_]^2),x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A-B*tan[e+Pi/2+f*x]+C*tan[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x]
+
+
+(* ::Text:: *)
+(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A+C Tan[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+C_.*cot[e_.+f_.*x_]^2),x_] :=
+  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A+C*tan[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,c,d,e,f,A,C,m,n},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*2.7 trig^m (a+b (c tan)^n)^p*)
+
+
+(* ::Text:: *)
+(*(a+b (c Cot[e+f x])^n)^p == (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_,x_] :=
+  (a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cos[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*sin[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sin[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cos[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cot[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*tan[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Tan[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cot[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Csc[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*sec[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sec[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*csc[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Subsubsection:: *)
+(*Cosecant to secant*)
+
+
+(* ::Subsubsection::Closed:: *)
+(*3.1.1 (a+b sec)^n*)
+
+
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^n == (a+b Csc[e+Pi/2+f x])^n*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (a+b*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,e,f,n},x]
+
 
-func resourcesRubi111LinearBinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi111LinearBinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Subsubsection::Closed:: *)
+(*3.1.2 (d sec)^n (a+b sec)^m*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.1.1 Linear binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi113GeneralBinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.1.3 General Binomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.1 (a+b x^n)^p*)
-
-
-Int[(b_.*x_^n_)^p_,x_Symbol] :=
-  b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(n*p),x] /;
-FreeQ[{b,n,p},x]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,p},x] && FractionQ[n] && IntegerQ[1/n]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  x*(a+b*x^n)^(p+1)/a /;
-FreeQ[{a,b,n,p},x] && EqQ[1/n+p+1,0]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -x*(a+b*x^n)^(p+1)/(a*n*(p+1)) +
-  (n*(p+1)+1)/(a*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,n,p},x] && ILtQ[Simplify[1/n+p+1],0] && NeQ[p,-1]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[x^(n*p)*(b+a*x^(-n))^p,x] /;
-FreeQ[{a,b},x] && LtQ[n,0] && IntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b},x] && IGtQ[n,0] && IGtQ[p,0]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  x*(a+b*x^n)^p/(n*p+1) +
-  a*n*p/(n*p+1)*Int[(a+b*x^n)^(p-1),x] /;
-FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,0] && 
-  (IntegerQ[2*p] || n==2 && IntegerQ[4*p] || n==2 && IntegerQ[3*p] || Denominator[p+1/n]<Denominator[p])
-
-
-Int[1/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
-  2/(a^(5/4)*Rt[b/a,2])*EllipticE[1/2*ArcTan[Rt[b/a,2]*x],2] /;
-FreeQ[{a,b},x] && PosQ[b/a] && PositiveQ[a]
-
-
-Int[1/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
-  (1+b*x^2/a)^(1/4)/(a*(a+b*x^2)^(1/4))*Int[1/(1+b*x^2/a)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a] && Not[PositiveQ[a]]
-
-
-Int[1/(a_+b_.*x_^2)^(7/6),x_Symbol] :=
-  1/((a +b*x^2)^(2/3)*(a/(a+b*x^2))^(2/3))*Subst[Int[1/(1-b*x^2)^(1/3),x],x,x/Sqrt[a+b*x^2]] /;
-FreeQ[{a,b},x]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -x*(a+b*x^n)^(p+1)/(a*n*(p+1)) +
-  (n*(p+1)+1)/(a*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b},x] && IGtQ[n,0] && LtQ[p,-1] && 
-  (IntegerQ[2*p] || n==2 && IntegerQ[4*p] || n==2 && IntegerQ[3*p] || Denominator[p+1/n]<Denominator[p])
-
-
-Int[1/(a_+b_.*x_^3),x_Symbol] :=
-  1/(3*Rt[a,3]^2)*Int[1/(Rt[a,3]+Rt[b,3]*x),x] + 
-  1/(3*Rt[a,3]^2)*Int[(2*Rt[a,3]-Rt[b,3]*x)/(Rt[a,3]^2-Rt[a,3]*Rt[b,3]*x+Rt[b,3]^2*x^2),x] /;
-FreeQ[{a,b},x]
-
-
-(* Int[1/(a_+b_.*x_^5),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,5]], s=Denominator[Rt[a/b,5]]},
-  r/(5*a)*Int[1/(r+s*x),x] + 
-  2*r/(5*a)*Int[(r-1/4*(1-Sqrt[5])*s*x)/(r^2-1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x] + 
-  2*r/(5*a)*Int[(r-1/4*(1+Sqrt[5])*s*x)/(r^2-1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b},x] && PosQ[a/b] *)
-
-
-(* Int[1/(a_+b_.*x_^5),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,5]], s=Denominator[Rt[-a/b,5]]},
-  r/(5*a)*Int[1/(r-s*x),x] + 
-  2*r/(5*a)*Int[(r+1/4*(1-Sqrt[5])*s*x)/(r^2+1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x] + 
-  2*r/(5*a)*Int[(r+1/4*(1+Sqrt[5])*s*x)/(r^2+1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b},x] && NegQ[a/b] *)
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
-  u=Int[(r-s*Cos[(2*k-1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  r/(a*n)*Int[1/(r+s*x),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-1)/2}],x]] /;
-FreeQ[{a,b},x] && IGtQ[(n-3)/2,0] && PosQ[a/b]
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
-  u=Int[(r+s*Cos[(2*k-1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  r/(a*n)*Int[1/(r-s*x),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-1)/2}],x]] /;
-FreeQ[{a,b},x] && IGtQ[(n-3)/2,0] && NegQ[a/b]
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-  1/(Rt[a,2]*Rt[b,2])*ArcTan[Rt[b,2]*x/Rt[a,2]] /;
-FreeQ[{a,b},x] && PosQ[a/b] && (PositiveQ[a] || PositiveQ[b])
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-  -1/(Rt[-a,2]*Rt[-b,2])*ArcTan[Rt[-b,2]*x/Rt[-a,2]] /;
-FreeQ[{a,b},x] && PosQ[a/b] && (NegativeQ[a] || NegativeQ[b])
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-(*Rt[b/a,2]/b*ArcTan[Rt[b/a,2]*x] /; *)
-  Rt[a/b,2]/a*ArcTan[x/Rt[a/b,2]] /;
-FreeQ[{a,b},x] && PosQ[a/b]
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-  1/(Rt[a,2]*Rt[-b,2])*ArcTanh[Rt[-b,2]*x/Rt[a,2]] /;
-FreeQ[{a,b},x] && NegQ[a/b] && (PositiveQ[a] || NegativeQ[b])
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-  -1/(Rt[-a,2]*Rt[b,2])*ArcTanh[Rt[b,2]*x/Rt[-a,2]] /;
-FreeQ[{a,b},x] && NegQ[a/b] && (NegativeQ[a] || PositiveQ[b])
-
-
-Int[1/(a_+b_.*x_^2),x_Symbol] :=
-(*-Rt[-b/a,2]/b*ArcTanh[Rt[-b/a,2]*x] /; *)
-  Rt[-a/b,2]/a*ArcTanh[x/Rt[-a/b,2]] /;
-FreeQ[{a,b},x] && NegQ[a/b]
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u, v},
-  u=Int[(r-s*Cos[(2*k-1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x] + 
-    Int[(r+s*Cos[(2*k-1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  2*r^2/(a*n)*Int[1/(r^2+s^2*x^2),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-2)/4}],x]] /;
-FreeQ[{a,b},x] && IGtQ[(n-2)/4,0] && PosQ[a/b]
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
-  u=Int[(r-s*Cos[(2*k*Pi)/n]*x)/(r^2-2*r*s*Cos[(2*k*Pi)/n]*x+s^2*x^2),x] + 
-    Int[(r+s*Cos[(2*k*Pi)/n]*x)/(r^2+2*r*s*Cos[(2*k*Pi)/n]*x+s^2*x^2),x];
-  2*r^2/(a*n)*Int[1/(r^2-s^2*x^2),x] + Dist[2*r/(a*n),Sum[u,{k,1,(n-2)/4}],x]] /;
-FreeQ[{a,b},x] && IGtQ[(n-2)/4,0] && NegQ[a/b]
-
-
-Int[1/(a_+b_.*x_^4),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,2]], s=Denominator[Rt[a/b,2]]},
-  1/(2*r)*Int[(r-s*x^2)/(a+b*x^4),x] + 1/(2*r)*Int[(r+s*x^2)/(a+b*x^4),x]] /;
-FreeQ[{a,b},x] && (PositiveQ[a/b] || PosQ[a/b] && AtomQ[SplitProduct[SumBaseQ,a]] && AtomQ[SplitProduct[SumBaseQ,b]])
-
-
-Int[1/(a_+b_.*x_^4),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  r/(2*a)*Int[1/(r-s*x^2),x] + r/(2*a)*Int[1/(r+s*x^2),x]] /;
-FreeQ[{a,b},x] && Not[PositiveQ[a/b]]
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,4]], s=Denominator[Rt[a/b,4]]},
-  r/(2*Sqrt[2]*a)*Int[(Sqrt[2]*r-s*x^(n/4))/(r^2-Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x] + 
-  r/(2*Sqrt[2]*a)*Int[(Sqrt[2]*r+s*x^(n/4))/(r^2+Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x]] /;
-FreeQ[{a,b},x] && IGtQ[n/4,1] && PositiveQ[a/b]
-
-
-Int[1/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  r/(2*a)*Int[1/(r-s*x^(n/2)),x] + r/(2*a)*Int[1/(r+s*x^(n/2)),x]] /;
-FreeQ[{a,b},x] && IGtQ[n/4,1] && Not[PositiveQ[a/b]]
-
-
-Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
-  ArcSinh[Rt[b,2]*x/Sqrt[a]]/Rt[b,2] /;
-FreeQ[{a,b},x] && PositiveQ[a] && PosQ[b]
-
-
-Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
-  ArcSin[Rt[-b,2]*x/Sqrt[a]]/Rt[-b,2] /;
-FreeQ[{a,b},x] && PositiveQ[a] && NegQ[b]
-
-
-Int[1/Sqrt[a_+b_.*x_^2],x_Symbol] :=
-  Subst[Int[1/(1-b*x^2),x],x,x/Sqrt[a+b*x^2]] /;
-FreeQ[{a,b},x] && Not[PositiveQ[a]]
-
-
-(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -Sqrt[2]*(1+Sqrt[3])*(1+Sqrt[3]+q*x)^2*Sqrt[(1+q^3*x^3)/(1+Sqrt[3]+q*x)^4]/(3^(1/4)*q*Sqrt[a+b*x^3])*
-    EllipticF[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && PosQ[a] *)
-
-
-(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[a/b,3]},
-  2*Sqrt[2+Sqrt[3]]*(q+x)*Sqrt[(q^2-q*x+x^2)/((1+Sqrt[3])*q+x)^2]/
-    (3^(1/4)*Sqrt[a+b*x^3]*Sqrt[q*(q+x)/((1+Sqrt[3])*q+x)^2])*
-    EllipticF[ArcSin[((1-Sqrt[3])*q+x)/((1+Sqrt[3])*q+x)],-7-4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && PosQ[a] && EqQ[b^2,1] *)
-
-
-(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -2*Sqrt[2+Sqrt[3]]*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/
-    (3^(1/4)*q*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
-    EllipticF[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && PosQ[a] *)
-
-
-Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  2*Sqrt[2+Sqrt[3]]*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1+Sqrt[3])*s+r*x)^2]/
-    (3^(1/4)*r*Sqrt[a+b*x^3]*Sqrt[s*(s+r*x)/((1+Sqrt[3])*s+r*x)^2])*
-    EllipticF[ArcSin[((1-Sqrt[3])*s+r*x)/((1+Sqrt[3])*s+r*x)],-7-4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && PosQ[a]
-
-
-(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[a/b,3]},
-  2*Sqrt[2-Sqrt[3]]*(q+x)*Sqrt[(q^2-q*x+x^2)/((1-Sqrt[3])*q+x)^2]/
-    (3^(1/4)*Sqrt[a+b*x^3]*Sqrt[-q*(q+x)/((1-Sqrt[3])*q+x)^2])*
-    EllipticF[ArcSin[((1+Sqrt[3])*q+x)/((1-Sqrt[3])*q+x)],-7+4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && NegQ[a] && EqQ[b^2,1] *)
-
-
-(* Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -2*Sqrt[2-Sqrt[3]]*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1-Sqrt[3]+q*x)^2]/
-    (3^(1/4)*q*Sqrt[a+b*x^3]*Sqrt[-(1+q*x)/(1-Sqrt[3]+q*x)^2])*
-    EllipticF[ArcSin[(1+Sqrt[3]+q*x)/(-1+Sqrt[3]-q*x)],-7+4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && NegQ[a] *)
-
-
-Int[1/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  2*Sqrt[2-Sqrt[3]]*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1-Sqrt[3])*s+r*x)^2]/
-    (3^(1/4)*r*Sqrt[a+b*x^3]*Sqrt[-s*(s+r*x)/((1-Sqrt[3])*s+r*x)^2])*
-    EllipticF[ArcSin[((1+Sqrt[3])*s+r*x)/((1-Sqrt[3])*s+r*x)],-7+4*Sqrt[3]]] /;
-FreeQ[{a,b},x] && NegQ[a]
-
-
-Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b/a,4]},
-  (1+q^2*x^2)*Sqrt[(a+b*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^4])*EllipticF[2*ArcTan[q*x],1/2]] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  EllipticF[ArcSin[Rt[-b,4]*x/Rt[a,4]],-1]/(Rt[a,4]*Rt[-b,4]) /;
-FreeQ[{a,b},x] && NegQ[b/a] && PositiveQ[a]
-
-
-Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*b,2]},
-  Sqrt[-a+q*x^2]*Sqrt[(a+q*x^2)/q]/(Sqrt[2]*Sqrt[-a]*Sqrt[a+b*x^4])*
-    EllipticF[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
-  IntegerQ[q]] /;
-FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
-
-
-Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*b,2]},
-  Sqrt[(a-q*x^2)/(a+q*x^2)]*Sqrt[(a+q*x^2)/q]/(Sqrt[2]*Sqrt[a+b*x^4]*Sqrt[a/(a+q*x^2)])*
-    EllipticF[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2]] /;
-FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
-
-
-Int[1/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  Sqrt[1+b*x^4/a]/Sqrt[a+b*x^4]*Int[1/Sqrt[1+b*x^4/a],x] /;
-FreeQ[{a,b},x] && NegQ[b/a] && Not[PositiveQ[a]]
-
-
-Int[1/Sqrt[a_+b_.*x_^6],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
-    (2*3^(1/4)*s*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
-    EllipticF[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
-FreeQ[{a,b},x]
-
-
-Int[1/Sqrt[a_+b_.*x_^8],x_Symbol] :=
-  1/2*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] + 
-  1/2*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
-FreeQ[{a,b},x]
-
-
-Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
-  2*x/(a+b*x^2)^(1/4) - a*Int[1/(a+b*x^2)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
-  2/(a^(1/4)*Rt[-b/a,2])*EllipticE[1/2*ArcSin[Rt[-b/a,2]*x],2] /;
-FreeQ[{a,b},x] && NegQ[b/a] && PositiveQ[a]
-
-
-Int[1/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
-  (1+b*x^2/a)^(1/4)/(a+b*x^2)^(1/4)*Int[1/(1+b*x^2/a)^(1/4),x] /;
-FreeQ[{a,b},x] && NegQ[b/a] && Not[PositiveQ[a]]
-
-
-Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
-  2/(a^(3/4)*Rt[b/a,2])*EllipticF[1/2*ArcTan[Rt[b/a,2]*x],2] /;
-FreeQ[{a,b},x] && PositiveQ[a] && PosQ[b/a]
-
-
-Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
-  2/(a^(3/4)*Rt[-b/a,2])*EllipticF[1/2*ArcSin[Rt[-b/a,2]*x],2] /;
-FreeQ[{a,b},x] && PositiveQ[a] && NegQ[b/a]
-
-
-Int[1/(a_+b_.*x_^2)^(3/4),x_Symbol] :=
-  (1+b*x^2/a)^(3/4)/(a+b*x^2)^(3/4)*Int[1/(1+b*x^2/a)^(3/4),x] /;
-FreeQ[{a,b},x] && Not[PositiveQ[a]]
-
-
-Int[1/(a_+b_.*x_^2)^(1/3),x_Symbol] :=
-  3*Sqrt[b*x^2]/(2*b*x)*Subst[Int[x/Sqrt[-a+x^3],x],x,(a+b*x^2)^(1/3)] /;
-FreeQ[{a,b},x]
-
-
-Int[1/(a_+b_.*x_^2)^(2/3),x_Symbol] :=
-  3*Sqrt[b*x^2]/(2*b*x)*Subst[Int[1/Sqrt[-a+x^3],x],x,(a+b*x^2)^(1/3)] /;
-FreeQ[{a,b},x]
-
-
-Int[1/(a_+b_.*x_^4)^(3/4),x_Symbol] :=
-  x^3*(1+a/(b*x^4))^(3/4)/(a+b*x^4)^(3/4)*Int[1/(x^3*(1+a/(b*x^4))^(3/4)),x] /;
-FreeQ[{a,b},x]
-
-
-Int[1/(a_+b_.*x_^2)^(1/6),x_Symbol] :=
-  3*x/(2*(a+b*x^2)^(1/6)) - a/2*Int[1/(a+b*x^2)^(7/6),x] /;
-FreeQ[{a,b},x]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^(p+1/n)*Subst[Int[1/(1-b*x^n)^(p+1/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
-FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,-1] && LtQ[p,0] && NeQ[p,-1/2] && IntegerQ[p+1/n]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (a/(a+b*x^n))^(p+1/n)*(a+b*x^n)^(p+1/n)*Subst[Int[1/(1-b*x^n)^(p+1/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
-FreeQ[{a,b},x] && IGtQ[n,0] && GtQ[p,-1] && LtQ[p,0] && NeQ[p,-1/2] && Denominator[p+1/n]<Denominator[p]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,p},x] && ILtQ[n,0]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*x^(k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,p},x] && FractionQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,n},x] && IGtQ[p,0]
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^p*x*Hypergeometric2F1[-p,1/n,1/n+1,-b*x^n/a] /;
-FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && Not[ILtQ[Simplify[1/n+p],0]] && 
-  (IntegerQ[p] || PositiveQ[a])
-
-
-(* Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  x*(a+b*x^n)^(p+1)/a*Hypergeometric2F1[1,1/n+p+1,1/n+1,-b*x^n/a] /;
-FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && Not[ILtQ[Simplify[1/n+p],0]] && 
-  Not[IntegerQ[p] || PositiveQ[a]] *)
-
-
-Int[(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(1+b*x^n/a)^p,x] /;
-FreeQ[{a,b,n,p},x] && Not[IGtQ[p,0]] && Not[IntegerQ[1/n]] && 
-  Not[ILtQ[Simplify[1/n+p],0]] && Not[IntegerQ[p] || PositiveQ[a]]
-
-
-Int[(a_.+b_.*u_^n_)^p_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p,x],x,u] /;
-FreeQ[{a,b,n,p},x] && LinearQ[u,x] && NeQ[u,x]
-
-
-Int[(a1_.+b1_.*x_^n_)^p_.*(a2_.+b2_.*x_^n_)^p_.,x_Symbol] :=
-  Int[(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,n,p},x] && EqQ[a2*b1+a1*b2,0] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
-  x*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(2*n*p+1) + 
-  2*a1*a2*n*p/(2*n*p+1)*Int[(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
-FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2,0] && IGtQ[2*n,0] && GtQ[p,0] && (IntegerQ[2*p] || Denominator[p+1/n]<Denominator[p])
-
-
-Int[(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
-  -x*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*n*(p+1)) + 
-  (2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2,0] && IGtQ[2*n,0] && LtQ[p,-1] && (IntegerQ[2*p] || Denominator[p+1/n]<Denominator[p])
-
-
-Int[(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^2,x],x,1/x] /;
-FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2,0] && ILtQ[2*n,0]
-
-
-Int[(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[2*n]},
-  k*Subst[Int[x^(k-1)*(a1+b1*x^(k*n))^p*(a2+b2*x^(k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2,0] && FractionQ[2*n]
-
-
-Int[(a1_.+b1_.*x_^n_)^p_*(a2_.+b2_.*x_^n_)^p_,x_Symbol] :=
-  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*Int[(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,n,p},x] && EqQ[a2*b1+a1*b2,0] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.2 (c x)^m (a+b x^n)^p*)
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  Int[(c*x)^m*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[(c_.*x_)^m_.*(b_.*x_^n_)^p_,x_Symbol] :=
-  c^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1),x],x,x^n] /;
-FreeQ[{b,c,m,n,p},x] && (IntegerQ[m] || PositiveQ[c]) && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(c_.*x_)^m_.*(b_.*x_^n_.)^p_,x_Symbol] :=
-  c^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p),x] /;
-FreeQ[{b,c,m,n,p},x] && (IntegerQ[m] || PositiveQ[c]) && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[(c_*x_)^m_*(b_.*x_^n_.)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p,x] /;
-FreeQ[{b,c,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  Log[RemoveContent[a+b*x^n,x]]/(b*n) /;
-FreeQ[{a,b,m,n},x] && EqQ[m,n-1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (a+b*x^n)^(p+1)/(b*n*(p+1)) /;
-FreeQ[{a,b,m,n,p},x] && EqQ[m,n-1] && NeQ[p,-1]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
-  (a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) /;
-FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2,0] && EqQ[m,2*n-1] && NeQ[p,-1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[x^(m+n*p)*(b+a*x^(-n))^p,x] /;
-FreeQ[{a,b,m,n},x] && IntegerQ[p] && NegQ[n]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[(m+1)/n+p+1] && NeQ[m+1]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p+1] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a1+b1*x)^p*(a2+b2*x)^p,x],x,x^n] /;
-FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[(m+1)/(2*n)]]
-
-
-Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[(m+1)/(2*n)]]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[x_^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  x^(m+1)*(a+b*x^n)^(p+1)/(a*(m+1)) - 
-  b*(m+n*(p+1)+1)/(a*(m+1))*Int[x^(m+n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,m,n,p},x] && NegativeIntegerQ[Simplify[(m+1)/n+p+1]] && NeQ[m+1]
-
-
-Int[x_^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  x^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*(m+1)) - 
-  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*(m+1))*Int[x^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[Simplify[(m+1)/(2*n)+p+1]] && NeQ[m+1]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
-  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,m,n,p},x] && NegativeIntegerQ[Simplify[(m+1)/n+p+1]] && NeQ[p+1]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) +
-  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[Simplify[(m+1)/(2*n)+p+1]] && NeQ[p+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,b,p},x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=GCD[m+1,2*n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(a1+b1*x^(n/k))^p*(a2+b2*x^(n/k))^p,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && IntegerQ[m]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+1)) - 
-  b*n*p/(c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && Not[NegativeIntegerQ[(m+n*p+n+1)/n]] && 
-  IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+1)) - 
-  2*b1*b2*n*p/(c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p>0 && NeQ[m+2*n*p+1] && 
-  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+n*p+1)) +
-  a*n*p/(m+n*p+1)*Int[(c*x)^m*(a+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c,m},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && NeQ[m+n*p+1] && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+2*n*p+1)) + 
-  2*a1*a2*n*p/(m+2*n*p+1)*Int[(c*x)^m*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p>0 && NeQ[m+2*n*p+1] && 
-  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[x_^2/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
-  x*(1+a/(b*x^4))^(1/4)/(b*(a+b*x^4)^(1/4))*Int[1/(x^3*(1+a/(b*x^4))^(5/4)),x] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[x_^m_/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
-  x^(m-3)/(b*(m-4)*(a+b*x^4)^(1/4)) - a*(m-3)/(b*(m-4))*Int[x^(m-4)/(a+b*x^4)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a] && PositiveIntegerQ[(m-2)/4]
-
-
-Int[x_^m_/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
-  x^(m+1)/(a*(m+1)*(a+b*x^4)^(1/4)) - b*m/(a*(m+1))*Int[x^(m+4)/(a+b*x^4)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a] && NegativeIntegerQ[(m-2)/4]
-
-
-Int[Sqrt[c_.*x_]/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
-  Sqrt[c*x]*(1+a/(b*x^2))^(1/4)/(b*(a+b*x^2)^(1/4))*Int[1/(x^2*(1+a/(b*x^2))^(5/4)),x] /;
-FreeQ[{a,b,c},x] && PosQ[b/a]
-
-
-Int[(c_.*x_)^m_/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
-  2*c*(c*x)^(m-1)/(b*(2*m-3)*(a+b*x^2)^(1/4)) - 2*a*c^2*(m-1)/(b*(2*m-3))*Int[(c*x)^(m-2)/(a+b*x^2)^(5/4),x] /;
-FreeQ[{a,b,c},x] && PosQ[b/a] && IntegerQ[2*m] && m>3/2 
-
-
-Int[(c_.*x_)^m_/(a_+b_.*x_^2)^(5/4),x_Symbol] :=
-  (c*x)^(m+1)/(a*c*(m+1)*(a+b*x^2)^(1/4)) - b*(2*m+1)/(2*a*c^2*(m+1))*Int[(c*x)^(m+2)/(a+b*x^2)^(5/4),x] /;
-FreeQ[{a,b,c},x] && PosQ[b/a] && IntegerQ[2*m] && m<-1
-
-
-Int[x_^2/(a_+b_.*x_^4)^(5/4),x_Symbol] :=
-  -1/(b*x*(a+b*x^4)^(1/4)) - 1/b*Int[1/(x^2*(a+b*x^4)^(1/4)),x] /;
-FreeQ[{a,b},x] && NegQ[b/a]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*n*(p+1)) -
-  c^n*(m-n+1)/(b*n*(p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m+1>n && 
-  Not[NegativeIntegerQ[(m+n*(p+1)+1)/n]] && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-(* Int[(c_.*x_)^m_.*u_^p_*v_^p_,x_Symbol] :=
-  With[{a=BinomialParts[u,x][[1]],b=BinomialParts[u,x][[2]],n=BinomialParts[u,x][[3]]},
-  c^(n-1)*(c*x)^(m-n+1)*u^(p+1)*v^(p+1)/(b*n*(p+1)) -
-  c^n*(m-n+1)/(b*n*(p+1))*Int[(c*x)^(m-n)*u^(p+1)*v^(p+1),x] /;
- PositiveIntegerQ[n] && m+1>n && Not[NegativeIntegerQ[(m+n*(p+1)+1)/n]] && 
-   IntBinomialQ[a,b,c,n,m,p,x]] /;
-FreeQ[c,x] && BinomialQ[u*v,x] && RationalQ[m,p] && p<-1 *)
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) - 
-  c^(2*n)*(m-2*n+1)/(2*b1*b2*n*(p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p<-1 && m+1>2*n && 
-  Not[NegativeIntegerQ[(m+2*n*(p+1)+1)/(2*n)]] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
-  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,m},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) + 
-  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m,p] && p<-1 && 
-  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[x_/(a_+b_.*x_^3),x_Symbol] :=
-  -1/(3*Rt[a,3]*Rt[b,3])*Int[1/(Rt[a,3]+Rt[b,3]*x),x] + 
-  1/(3*Rt[a,3]*Rt[b,3])*Int[(Rt[a,3]+Rt[b,3]*x)/(Rt[a,3]^2-Rt[a,3]*Rt[b,3]*x+Rt[b,3]^2*x^2),x] /;
-FreeQ[{a,b},x]
-
-
-(* Int[x_^m_./(a_+b_.*x_^5),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,5]], s=Denominator[Rt[a/b,5]]},
-  (-1)^m*r^(m+1)/(5*a*s^m)*Int[1/(r+s*x),x] + 
-  2*r^(m+1)/(5*a*s^m)*Int[(r*Cos[m*Pi/5]-s*Cos[(m+1)*Pi/5]*x)/(r^2-1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x] + 
-  2*r^(m+1)/(5*a*s^m)*Int[(r*Cos[3*m*Pi/5]-s*Cos[3*(m+1)*Pi/5]*x)/(r^2-1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m] && m<4 && PosQ[a/b] *)
-
-
-(* Int[x_^m_./(a_+b_.*x_^5),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,5]], s=Denominator[Rt[-a/b,5]]},
-  (r^(m+1)/(5*a*s^m))*Int[1/(r-s*x),x] + 
-  2*(-1)^m*r^(m+1)/(5*a*s^m)*Int[(r*Cos[m*Pi/5]+s*Cos[(m+1)*Pi/5]*x)/(r^2+1/2*(1+Sqrt[5])*r*s*x+s^2*x^2),x] + 
-  2*(-1)^m*r^(m+1)/(5*a*s^m)*Int[(r*Cos[3*m*Pi/5]+s*Cos[3*(m+1)*Pi/5]*x)/(r^2+1/2*(1-Sqrt[5])*r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m] && m<4 && NegQ[a/b] *)
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
-  u=Int[(r*Cos[(2*k-1)*m*Pi/n]-s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  -(-r)^(m+1)/(a*n*s^m)*Int[1/(r+s*x),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-1)/2}],x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[(n-1)/2] && PositiveIntegerQ[m] && m<n-1 && PosQ[a/b]
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
-  u=Int[(r*Cos[(2*k-1)*m*Pi/n]+s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  r^(m+1)/(a*n*s^m)*Int[1/(r-s*x),x] - Dist[2*(-r)^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-1)/2}],x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-1)/2] && PositiveIntegerQ[m] && m<n-1 && NegQ[a/b]
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[a/b,n]], s=Denominator[Rt[a/b,n]], k, u},
-  u=Int[(r*Cos[(2*k-1)*m*Pi/n]-s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x] + 
-    Int[(r*Cos[(2*k-1)*m*Pi/n]+s*Cos[(2*k-1)*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[(2*k-1)*Pi/n]*x+s^2*x^2),x];
-  2*(-1)^(m/2)*r^(m+2)/(a*n*s^m)*Int[1/(r^2+s^2*x^2),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-2)/4}],x]] /;
- FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-2)/4] && PositiveIntegerQ[m] && m<n-1 && PosQ[a/b]
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  Module[{r=Numerator[Rt[-a/b,n]], s=Denominator[Rt[-a/b,n]], k, u},
-  u=Int[(r*Cos[2*k*m*Pi/n]-s*Cos[2*k*(m+1)*Pi/n]*x)/(r^2-2*r*s*Cos[2*k*Pi/n]*x+s^2*x^2),x] + 
-    Int[(r*Cos[2*k*m*Pi/n]+s*Cos[2*k*(m+1)*Pi/n]*x)/(r^2+2*r*s*Cos[2*k*Pi/n]*x+s^2*x^2),x];
-  2*r^(m+2)/(a*n*s^m)*Int[1/(r^2-s^2*x^2),x] + Dist[2*r^(m+1)/(a*n*s^m),Sum[u,{k,1,(n-2)/4}],x]] /;
- FreeQ[{a,b},x] && PositiveIntegerQ[m,(n-2)/4] && PositiveIntegerQ[m] && m<n-1 && NegQ[a/b]
-
-
-Int[x_^2/(a_+b_.*x_^4),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,2]], s=Denominator[Rt[a/b,2]]},
-  1/(2*s)*Int[(r+s*x^2)/(a+b*x^4),x] - 
-  1/(2*s)*Int[(r-s*x^2)/(a+b*x^4),x]] /;
-FreeQ[{a,b},x] && (PositiveQ[a/b] || PosQ[a/b] && AtomQ[SplitProduct[SumBaseQ,a]] && AtomQ[SplitProduct[SumBaseQ,b]])
-
-
-Int[x_^2/(a_+b_.*x_^4),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  s/(2*b)*Int[1/(r+s*x^2),x] -
-  s/(2*b)*Int[1/(r-s*x^2),x]] /;
-FreeQ[{a,b},x] && Not[PositiveQ[a/b]]
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,4]], s=Denominator[Rt[a/b,4]]},
-  s^3/(2*Sqrt[2]*b*r)*Int[x^(m-n/4)/(r^2-Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x] -
-  s^3/(2*Sqrt[2]*b*r)*Int[x^(m-n/4)/(r^2+Sqrt[2]*r*s*x^(n/4)+s^2*x^(n/2)),x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && m<n-1 && PositiveQ[a/b]
-
-
-Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  r/(2*a)*Int[x^m/(r+s*x^(n/2)),x] +
-  r/(2*a)*Int[x^m/(r-s*x^(n/2)),x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && m<n/2 && Not[PositiveQ[a/b]]
-
-
-Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  s/(2*b)*Int[x^(m-n/2)/(r+s*x^(n/2)),x] -
-  s/(2*b)*Int[x^(m-n/2)/(r-s*x^(n/2)),x]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m,n/4] && PositiveIntegerQ[m] && n/2<=m<n && Not[PositiveQ[a/b]]
-
-
-Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
-  Int[PolynomialDivide[x^m,(a+b*x^n),x],x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m,n] && m>2*n-1
-
-
-Int[x_/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  Sqrt[2]*s/(Sqrt[2+Sqrt[3]]*r)*Int[1/Sqrt[a+b*x^3],x] + 1/r*Int[((1-Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
-FreeQ[{a,b},x] && PosQ[a]
-
-
-Int[x_/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  -Sqrt[2]*s/(Sqrt[2-Sqrt[3]]*r)*Int[1/Sqrt[a+b*x^3],x] + 1/r*Int[((1+Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
-FreeQ[{a,b},x] && NegQ[a]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b/a,2]},
-  1/q*Int[1/Sqrt[a+b*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^4],x]] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-b/a,2]},
-  1/q*Int[1/Sqrt[a+b*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^4],x]] /;
-FreeQ[{a,b},x] && NegativeQ[a] && PositiveQ[b]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-b/a,2]},
-  -1/q*Int[1/Sqrt[a+b*x^4],x] + 1/q*Int[(1+q*x^2)/Sqrt[a+b*x^4],x]] /;
-FreeQ[{a,b},x] && NegQ[b/a]
-
-
-Int[x_^4/Sqrt[a_+b_.*x_^6],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  (Sqrt[3]-1)*s^2/(2*r^2)*Int[1/Sqrt[a+b*x^6],x] - 1/(2*r^2)*Int[((Sqrt[3]-1)*s^2-2*r^2*x^4)/Sqrt[a+b*x^6],x]] /;
-FreeQ[{a,b},x]
-
-
-(* Int[x_^4/Sqrt[a_+b_.*x_^6],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  (1+Sqrt[3])*r*x*Sqrt[a+b*x^6]/(2*b*(s+(1+Sqrt[3])*r*x^2)) - 
-  3^(1/4)*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
-    (2*r^2*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
-    EllipticE[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4] - 
-  (1-Sqrt[3])*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
-    (4*3^(1/4)*r^2*Sqrt[a+b*x^6]*Sqrt[r*x^2*(s+r*x^2)/(s+(1+Sqrt[3])*r*x^2)^2])*
-    EllipticF[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
-FreeQ[{a,b},x] *)
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^8],x_Symbol] :=
-  1/(2*Rt[b/a,4])*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] - 
-  1/(2*Rt[b/a,4])*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^2/(a_+b_.*x_^4)^(1/4),x_Symbol] :=
-  x^3/(2*(a+b*x^4)^(1/4)) - a/2*Int[x^2/(a+b*x^4)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[x_^2/(a_+b_.*x_^4)^(1/4),x_Symbol] :=
-  (a+b*x^4)^(3/4)/(2*b*x) + a/(2*b)*Int[1/(x^2*(a+b*x^4)^(1/4)),x] /;
-FreeQ[{a,b},x] && NegQ[b/a]
-
-
-Int[1/(x_^2*(a_+b_.*x_^4)^(1/4)),x_Symbol] :=
-  -1/(x*(a+b*x^4)^(1/4)) - b*Int[x^2/(a+b*x^4)^(5/4),x] /;
-FreeQ[{a,b},x] && PosQ[b/a]
-
-
-Int[1/(x_^2*(a_+b_.*x_^4)^(1/4)),x_Symbol] :=
-  x*(1+a/(b*x^4))^(1/4)/(a+b*x^4)^(1/4)*Int[1/(x^3*(1+a/(b*x^4))^(1/4)),x] /;
-FreeQ[{a,b},x] && NegQ[b/a]
-
-
-Int[Sqrt[c_*x_]/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
-  x*Sqrt[c*x]/(a+b*x^2)^(1/4) - a/2*Int[Sqrt[c*x]/(a+b*x^2)^(5/4),x] /;
-FreeQ[{a,b,c},x] && PosQ[b/a]
-
-
-Int[Sqrt[c_*x_]/(a_+b_.*x_^2)^(1/4),x_Symbol] :=
-  c*(a+b*x^2)^(3/4)/(b*Sqrt[c*x]) + a*c^2/(2*b)*Int[1/((c*x)^(3/2)*(a+b*x^2)^(1/4)),x] /;
-FreeQ[{a,b,c},x] && NegQ[b/a]
-
-
-Int[1/((c_.*x_)^(3/2)*(a_+b_.*x_^2)^(1/4)),x_Symbol] :=
-  -2/(c*Sqrt[c*x]*(a+b*x^2)^(1/4)) - b/c^2*Int[Sqrt[c*x]/(a+b*x^2)^(5/4),x] /;
-FreeQ[{a,b,c},x] && PosQ[b/a]
-
-
-Int[1/((c_.*x_)^(3/2)*(a_+b_.*x_^2)^(1/4)),x_Symbol] :=
-  Sqrt[c*x]*(1+a/(b*x^2))^(1/4)/(c^2*(a+b*x^2)^(1/4))*Int[1/(x^2*(1+a/(b*x^2))^(1/4)),x] /;
-FreeQ[{a,b,c},x] && NegQ[b/a]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*(m+n*p+1)) -
-  a*c^n*(m-n+1)/(b*(m+n*p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && NeQ[m+n*p+1] && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^(n-1)*(c*x)^(m-n+1)*(a+b*x^n)^(p+1)/(b*(m+n*p+1)) -
-  a*c^n*(m-n+1)/(b*(m+n*p+1))*Int[(c*x)^(m-n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && PositiveIntegerQ[n] && SumSimplerQ[m,-n] && NeQ[m+n*p+1] && NegativeIntegerQ[Simplify[(m+1)/n+p]]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(b1*b2*(m+2*n*p+1)) - 
-  a1*a2*c^(2*n)*(m-2*n+1)/(b1*b2*(m+2*n*p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m] && m>2*n-1 && 
-  NeQ[m+2*n*p+1] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^(2*n-1)*(c*x)^(m-2*n+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(b1*b2*(m+2*n*p+1)) - 
-  a1*a2*c^(2*n)*(m-2*n+1)/(b1*b2*(m+2*n*p+1))*Int[(c*x)^(m-2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && SumSimplerQ[m,-2*n] && NeQ[m+2*n*p+1] && 
-  NegativeIntegerQ[Simplify[(m+1)/(2*n)+p]]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) -
-  b*(m+n*(p+1)+1)/(a*c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) -
-  b*(m+n*(p+1)+1)/(a*c^n*(m+1))*Int[(c*x)^(m+n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && PositiveIntegerQ[n] && SumSimplerQ[m,n] && NegativeIntegerQ[Simplify[(m+1)/n+p]]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) - 
-  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[m] && m<-1 && 
-  IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(a1*a2*c*(m+1)) - 
-  b1*b2*(m+2*n*(p+1)+1)/(a1*a2*c^(2*n)*(m+1))*Int[(c*x)^(m+2*n)*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && SumSimplerQ[m,2*n] && 
-  NegativeIntegerQ[Simplify[(m+1)/(2*n)+p]]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/c*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/c^n)^p,x],x,(c*x)^(1/k)]] /;
-FreeQ[{a,b,c,p},x] && PositiveIntegerQ[n] && FractionQ[m] && IntBinomialQ[a,b,c,n,m,p,x]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/c*Subst[Int[x^(k*(m+1)-1)*(a1+b1*x^(k*n)/c^n)^p*(a2+b2*x^(k*n)/c^n)^p,x],x,(c*x)^(1/k)]] /;
-FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && FractionQ[m] && IntBinomialQ[a1*a2,b1*b2,c,n,m,p,x]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^(p+(m+1)/n)*Subst[Int[x^m/(1-b*x^n)^(p+(m+1)/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[n] && RationalQ[p] && -1<p<0 && p!=-1/2 && IntegersQ[m,p+(m+1)/n]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (a1*a2)^(p+(m+1)/(2*n))*
-    Subst[Int[x^m/((1-b1*x^n)^(p+(m+1)/(2*n)+1)*(1-b2*x^n)^(p+(m+1)/(2*n)+1)),x],x,
-      x/((a1+b1*x^n)^(1/(2*n))*(a2+b2*x^n)^(1/(2*n)))] /;
-FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[p] && -1<p<0 && p!=-1/2 && 
-  IntegersQ[m,p+(m+1)/(2*n)]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (a/(a+b*x^n))^(p+(m+1)/n)*(a+b*x^n)^(p+(m+1)/n)*Subst[Int[x^m/(1-b*x^n)^(p+(m+1)/n+1),x],x,x/(a+b*x^n)^(1/n)] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[n] && RationalQ[p] && -1<p<0 && p!=-1/2 && IntegerQ[m] && 
-  Denominator[p+(m+1)/n]<Denominator[p]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (a1/(a1+b1*x^n))^(p+(m+1)/(2*n))*(a1+b1*x^n)^(p+(m+1)/(2*n))*(a2/(a2+b2*x^n))^(p+(m+1)/(2*n))*(a2+b2*x^n)^(p+(m+1)/(2*n))*
-    Subst[Int[x^m/((1-b1*x^n)^(p+(m+1)/(2*n)+1)*(1-b2*x^n)^(p+(m+1)/(2*n)+1)),x],x,
-      x/((a1+b1*x^n)^(1/(2*n))*(a2+b2*x^n)^(1/(2*n)))] /;
-FreeQ[{a1,b1,a2,b2},x] && EqQ[a2*b1+a1*b2] && PositiveIntegerQ[2*n] && RationalQ[p] && -1<p<0 && p!=-1/2 && 
-  IntegerQ[m] && Denominator[p+(m+1)/(2*n)]<Denominator[p]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,p},x] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a1,b1,a2,b2,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && IntegerQ[m]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/c*Subst[Int[(a+b*c^(-n)*x^(-k*n))^p/x^(k*(m+1)+1),x],x,1/(c*x)^(1/k)]] /;
-FreeQ[{a,b,c,p},x] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/c*Subst[Int[(a1+b1*c^(-n)*x^(-k*n))^p*(a2+b2*c^(-n)*x^(-k*n))^p/x^(k*(m+1)+1),x],x,1/(c*x)^(1/k)]] /;
-FreeQ[{a1,b1,a2,b2,c,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && FractionQ[m]
-
-
-Int[(c_.*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,m,p},x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[(c_.*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^m*(x^(-1))^m*Subst[Int[(a1+b1*x^(-n))^p*(a2+b2*x^(-n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && NegativeIntegerQ[2*n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,m,p},x] && FractionQ[n]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[2*n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a1+b1*x^(k*n))^p*(a2+b2*x^(k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a1,b1,a2,b2,m,p},x] && EqQ[a2*b1+a1*b2] && FractionQ[2*n]
-
-
-Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && FractionQ[n]
-
-
-Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,p},x] && EqQ[a2*b1+a1*b2] && FractionQ[2*n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,m,n,p},x] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a1+b1*x^Simplify[n/(m+1)])^p*(a2+b2*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[2*n/(m+1)]] && Not[IntegerQ[2*n]]
-
-
-Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && IntegerQ[Simplify[2*n/(m+1)]] && Not[IntegerQ[2*n]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  x^(m+1)*(a+b*x^n)^p/(m+1) - 
-  b*n*p/(m+1)*Int[x^(m+n)*(a+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[(m+1)/n+p] && RationalQ[p] && p>0
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  x^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(m+1) - 
-  2*b1*b2*n*p/(m+1)*Int[x^(m+n)*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
-FreeQ[{a1,b1,a2,b2,m,n},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p] && RationalQ[p] && p>0
-
-
-Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[(m+1)/n+p] && RationalQ[p] && p>0
-
-
-Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && EqQ[(m+1)/(2*n)+p] && RationalQ[p] && p>0
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^p/(c*(m+n*p+1)) +
-  a*n*p/(m+n*p+1)*Int[(c*x)^m*(a+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p>0 && NeQ[m+n*p+1]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a1+b1*x^n)^p*(a2+b2*x^n)^p/(c*(m+2*n*p+1)) +
-  2*a1*a2*n*p/(m+2*n*p+1)*Int[(c*x)^m*(a1+b1*x^n)^(p-1)*(a2+b2*x^n)^(p-1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && p>0 && 
-  NeQ[m+2*n*p+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[p]},
-  k*a^(p+Simplify[(m+1)/n])/n*
-	Subst[Int[x^(k*Simplify[(m+1)/n]-1)/(1-b*x^k)^(p+Simplify[(m+1)/n]+1),x],x,x^(n/k)/(a+b*x^n)^(1/k)]] /;
-FreeQ[{a,b,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && -1<p<0
-
-
-Int[x_^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[p]},
-  k*(a1*a2)^(p+Simplify[(m+1)/(2*n)])/(2*n)*
-	Subst[Int[x^(k*Simplify[(m+1)/(2*n)]-1)/((1-b1*x^k)^(p+Simplify[(m+1)/(2*n)]+1)*(1-b2*x^k)^(p+Simplify[(m+1)/(2*n)]+1)),x],x,
-      x^(2*n/k)/((a1+b1*x^n)^(1/k)*(a2+b2*x^n)^(1/k))]] /;
-FreeQ[{a1,b1,a2,b2,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && -1<p<0
-
-
-Int[(c_*x_)^m_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && -1<p<0
-
-
-Int[(c_*x_)^m_*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a1+b1*x^n)^p*(a2+b2*x^n)^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/(2*n)]] && RationalQ[p] && -1<p<0
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*n*(p+1)) +
-  (m+n*(p+1)+1)/(a*n*(p+1))*Int[(c*x)^m*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,m,n},x] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p<-1
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  -(c*x)^(m+1)*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*a1*a2*c*n*(p+1)) +
-  (m+2*n*(p+1)+1)/(2*a1*a2*n*(p+1))*Int[(c*x)^m*(a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n},x] && EqQ[a2*b1+a1*b2] && IntegerQ[p+Simplify[(m+1)/n]] && RationalQ[p] && p<-1
-
-
-Int[x_^m_./(a_+b_.*x_^n_),x_Symbol] :=
-  With[{mn=Simplify[m-n]},
-  x^(mn+1)/(b*(mn+1)) -
-  a/b*Int[x^mn/(a+b*x^n),x]] /;
-FreeQ[{a,b,m,n},x] && FractionQ[Simplify[(m+1)/n]] && SumSimplerQ[m,-n]
-
-
-Int[x_^m_/(a_+b_.*x_^n_),x_Symbol] :=
-  x^(m+1)/(a*(m+1)) -
-  b/a*Int[x^Simplify[m+n]/(a+b*x^n),x] /;
-FreeQ[{a,b,m,n},x] && FractionQ[Simplify[(m+1)/n]] && SumSimplerQ[m,n]
-
-
-Int[(c_*x_)^m_/(a_+b_.*x_^n_),x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m/(a+b*x^n),x] /;
-FreeQ[{a,b,c,m,n},x] && FractionQ[Simplify[(m+1)/n]] && (SumSimplerQ[m,n] || SumSimplerQ[m,-n])
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^p*(c*x)^(m+1)/(c*(m+1))*Hypergeometric2F1[-p,(m+1)/n,(m+1)/n+1,-b*x^n/a] /;
-FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && (NegativeIntegerQ[p] || PositiveQ[a])
-
-
-(* Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1))*Hypergeometric2F1[1,(m+1)/n+p+1,(m+1)/n+1,-b*x^n/a] /;
-FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && Not[NegativeIntegerQ[p] || PositiveQ[a]] *)
-
-
-Int[(c_.*x_)^m_.*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(c*x)^m*(1+b*x^n/a)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && Not[PositiveIntegerQ[p]] && Not[NegativeIntegerQ[p] || PositiveQ[a]]
-
-
-Int[x_^m_.*(a_+b_.*v_^n_)^p_.,x_Symbol] :=
-  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n)^p,x],x],x,v] /;
-FreeQ[{a,b,n,p},x] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
-
-
-Int[u_^m_.*(a_+b_.*v_^n_)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p,x],x,v] /;
-FreeQ[{a,b,m,n,p},x] && LinearPairQ[u,v,x]
-
-
-Int[(c_.*x_)^m_.*(a1_+b1_.*x_^n_)^p_*(a2_+b2_.*x_^n_)^p_,x_Symbol] :=
-  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*Int[(c*x)^m*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && EqQ[a2*b1+a1*b2] && Not[IntegerQ[p]]
-
-
-(* IntBinomialQ[a,b,c,n,m,p,x] returns True iff (c*x)^m*(a+b*x^n)^p is integrable wrt x in terms of non-hypergeometric functions. *)
-IntBinomialQ[a_,b_,c_,n_,m_,p_,x_] :=
-  IntegerQ[2*p] || IntegerQ[(m+1)/n+p] || 
-  (EqQ[n-2] || EqQ[n-4]) && IntegersQ[2*m,4*p] || 
-  EqQ[n-2] && IntegerQ[6*p] && (IntegerQ[m] || IntegerQ[m-p])
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.3 (a+b x^n)^p (c+d x^n)^q*)
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[p,q]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  Int[x^(n*(p+q))*(b+a*x^(-n))^p*(d+c*x^(-n))^q,x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d,0] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g-1)*(a+b*x^(g*n))^p*(c+d*x^(g*n))^q,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d,0] && FractionQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_/(c_+d_.*x_^n_),x_Symbol] :=
-  Subst[Int[1/(c-(b*c-a*d)*x^n),x],x,x/(a+b*x^n)^(1/n)] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[n*p+1] && IntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  -x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*n*(p+1)) - 
-  c*q/(a*(p+1))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1),x] /;
-FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1] && RationalQ[q] && q>0 && NeQ[p+1]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  a^p*x/(c^(p+1)*(c+d*x^n)^(1/n))*Hypergeometric2F1[1/n,-p,1+1/n,-(b*c-a*d)*x^n/(a*(c+d*x^n))] /;
-FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1] && NegativeIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  x*(a+b*x^n)^p/(c*(c*(a+b*x^n)/(a*(c+d*x^n)))^p*(c+d*x^n)^(1/n+p))*
-    Hypergeometric2F1[1/n,-p,1+1/n,-(b*c-a*d)*x^n/(a*(c+d*x^n))] /;
-FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+1)+1]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c) /;
-FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+2)+1] && EqQ[a*d*(p+1)+b*c*(q+1)]
-
-
-(* Int[(a1_+b1_.*x_^n2_.)^p_*(a2_+b2_.*x_^n2_.)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)*(c+d*x^n)^(q+1)/(a1*a2*c) /;
-FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[n2-n/2] && EqQ[a2*b1+a1*b2] && EqQ[n*(p+q+2)+1] && EqQ[a1*a2*d*(p+1)+b1*b2*c*(q+1)] *)
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -b*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(p+1)*(b*c-a*d)) + 
-  (b*c+n*(p+1)*(b*c-a*d))/(a*n*(p+1)*(b*c-a*d))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && EqQ[n*(p+q+2)+1] && (RationalQ[p] && p<-1 || Not[RationalQ[q] && q<-1]) && NeQ[p+1]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*x*(a+b*x^n)^(p+1)/a /;
-FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && EqQ[a*d-b*c*(n*(p+1)+1),0]
-
-
-Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2) /;
-FreeQ[{a1,b1,a2,b2,c,d,n,p},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && EqQ[a1*a2*d-b1*b2*c*(n*(p+1)+1),0]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_),x_Symbol] :=
-  -(b*c-a*d)*x*(a+b*x^n)^(p+1)/(a*b*n*(p+1)) - 
-  (a*d-b*c*(n*(p+1)+1))/(a*b*n*(p+1))*Int[(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && (LtQ[p,-1] || ILtQ[1/n+p,0])
-
-
-Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  -(b1*b2*c-a1*a2*d)*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*b1*b2*n*(p+1)) - 
-  (a1*a2*d-b1*b2*c*(n*(p+1)+1))/(a1*a2*b1*b2*n*(p+1))*Int[(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c,d,n},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && (LtQ[p,-1] || ILtQ[1/n+p,0])
-
-
-Int[(c_+d_.*x_^n_)/(a_+b_.*x_^n_),x_Symbol] :=
-  c*x/a - (b*c-a*d)/a*Int[1/(b+a*x^(-n)),x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[n] && n<0
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_),x_Symbol] :=
-  d*x*(a+b*x^n)^(p+1)/(b*(n*(p+1)+1)) - 
-  (a*d-b*c*(n*(p+1)+1))/(b*(n*(p+1)+1))*Int[(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && NeQ[n*(p+1)+1,0]
-
-
-Int[(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  d*x*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(b1*b2*(n*(p+1)+1)) - 
-  (a1*a2*d-b1*b2*c*(n*(p+1)+1))/(b1*b2*(n*(p+1)+1))*Int[(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,n,p},x] && EqQ[non2,n/2] && EqQ[a2*b1+a1*b2,0] && NeQ[n*(p+1)+1,0]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  Int[PolynomialDivide[(a+b*x^n)^p,(c+d*x^n)^(-q),x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[n,p] && NegativeIntegerQ[q] && p>=-q
-
-
-Int[1/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(a+b*x^n),x] - d/(b*c-a*d)*Int[1/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0]
-
-
-Int[1/((a_+b_.*x_^2)^(1/3)*(c_+d_.*x_^2)),x_Symbol] :=
-  Sqrt[3]/(2*c)*Int[1/((a+b*x^2)^(1/3)*(Sqrt[3]-Rt[b/a,2]*x)),x] + 
-  Sqrt[3]/(2*c)*Int[1/((a+b*x^2)^(1/3)*(Sqrt[3]+Rt[b/a,2]*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d] && PosQ[b/a]
-
-
-Int[1/((a_+b_.*x_^2)^(1/3)*(c_+d_.*x_^2)),x_Symbol] :=
-  1/6*Int[(3+Rt[-b/a,2]*x)/((a+b*x^2)^(1/3)*(c+d*x^2)),x] + 
-  1/6*Int[(3-Rt[-b/a,2]*x)/((a+b*x^2)^(1/3)*(c+d*x^2)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d] && NegQ[b/a]
-
-
-Int[(a_+b_.*x_^2)^(2/3)/(c_+d_.*x_^2),x_Symbol] :=
-  b/d*Int[1/(a+b*x^2)^(1/3),x] - (b*c-a*d)/d*Int[1/((a+b*x^2)^(1/3)*(c+d*x^2)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && EqQ[b*c+3*a*d]
-
-
-Int[1/((a_+b_.*x_^2)^(1/4)*(c_+d_.*x_^2)),x_Symbol] :=
-  Sqrt[-b*x^2/a]/(2*x)*Subst[Int[1/(Sqrt[-b*x/a]*(a+b*x)^(1/4)*(c+d*x)),x],x,x^2] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[1/((a_+b_.*x_^2)^(3/4)*(c_+d_.*x_^2)),x_Symbol] :=
-  Sqrt[-b*x^2/a]/(2*x)*Subst[Int[1/(Sqrt[-b*x/a]*(a+b*x)^(3/4)*(c+d*x)),x],x,x^2] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[(a_+b_.*x_^2)^p_./(c_+d_.*x_^2),x_Symbol] :=
-  b/d*Int[(a+b*x^2)^(p-1),x] - (b*c-a*d)/d*Int[(a+b*x^2)^(p-1)/(c+d*x^2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p>0 && (p==1/2 || Denominator[p]==4)
-
-
-Int[(a_+b_.*x_^2)^p_/(c_+d_.*x_^2),x_Symbol] :=
-  b/(b*c-a*d)*Int[(a+b*x^2)^p,x] - d/(b*c-a*d)*Int[(a+b*x^2)^(p+1)/(c+d*x^2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p<-1 && Denominator[p]==4 && (p==-5/4 || p==-7/4)
-
-
-Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
-  a/c*Subst[Int[1/(1-4*a*b*x^4),x],x,x/Sqrt[a+b*x^4]] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d] && PosQ[a*b]
-
-
-Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-a*b,4]},
-  a/(2*c*q)*ArcTan[q*x*(a+q^2*x^2)/(a*Sqrt[a+b*x^4])] + a/(2*c*q)*ArcTanh[q*x*(a-q^2*x^2)/(a*Sqrt[a+b*x^4])]] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c+a*d] && NegQ[a*b]
-
-
-Int[Sqrt[a_+b_.*x_^4]/(c_+d_.*x_^4),x_Symbol] :=
-  b/d*Int[1/Sqrt[a+b*x^4],x] - (b*c-a*d)/d*Int[1/(Sqrt[a+b*x^4]*(c+d*x^4)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[(a_+b_.*x_^4)^(1/4)/(c_+d_.*x_^4),x_Symbol] :=
-  Sqrt[a+b*x^4]*Sqrt[a/(a+b*x^4)]*Subst[Int[1/(Sqrt[1-b*x^4]*(c-(b*c-a*d)*x^4)),x],x,x/(a+b*x^4)^(1/4)] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[(a_+b_.*x_^4)^p_/(c_+d_.*x_^4),x_Symbol] :=
-  b/d*Int[(a+b*x^4)^(p-1),x] - (b*c-a*d)/d*Int[(a+b*x^4)^(p-1)/(c+d*x^4),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && RationalQ[p] && (p==3/4 || p==5/4)
-
-
-Int[1/(Sqrt[a_+b_.*x_^4]*(c_+d_.*x_^4)),x_Symbol] :=
-  1/(2*c)*Int[1/(Sqrt[a+b*x^4]*(1-Rt[-d/c,2]*x^2)),x] + 1/(2*c)*Int[1/(Sqrt[a+b*x^4]*(1+Rt[-d/c,2]*x^2)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[1/((a_+b_.*x_^4)^(3/4)*(c_+d_.*x_^4)),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(a+b*x^4)^(3/4),x] - d/(b*c-a*d)*Int[(a+b*x^4)^(1/4)/(c+d*x^4),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]
-
-
-Int[Sqrt[a_+b_.*x_^2]/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  Sqrt[a+b*x^2]/(c*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))])*EllipticE[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && PosQ[b/a] && PosQ[d/c]
-
-
-(* Int[Sqrt[a_+b_.*x_^2]/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  a*Sqrt[c+d*x^2]*Sqrt[(c*(a+b*x^2))/(a*(c+d*x^2))]/(c^2*Rt[d/c,2]*Sqrt[a+b*x^2])*EllipticE[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && PosQ[b/a] && PosQ[d/c] *)
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*n*(p+1)) + 
-  1/(a*n*(p+1))*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(n*(p+1)+1)+d*(n*(p+q+1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && p<-1 && 0<q<1 && IntBinomialQ[a,b,c,d,n,p,q,x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (a*d-c*b)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*n*(p+1)) - 
-  1/(a*b*n*(p+1))*
-    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*Simp[c*(a*d-c*b*(n*(p+1)+1))+d*(a*d*(n*(q-1)+1)-b*c*(n*(p+q)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && p<-1 && q>1 && IntBinomialQ[a,b,c,d,n,p,q,x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -b*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(p+1)*(b*c-a*d)) + 
-  1/(a*n*(p+1)*(b*c-a*d))*
-    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[b*c+n*(p+1)*(b*c-a*d)+d*b*(n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && RationalQ[p] && p<-1 && Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1] && 
-  IntBinomialQ[a,b,c,d,n,p,q,x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[n] && IntegersQ[p,q] && p+q>0
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  d*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*(n*(p+q)+1)) + 
-  1/(b*(n*(p+q)+1))*
-    Int[(a+b*x^n)^p*(c+d*x^n)^(q-2)*Simp[c*(b*c*(n*(p+q)+1)-a*d)+d*(b*c*(n*(p+2*q-1)+1)-a*d*(n*(q-1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,n,p},x] && NeQ[b*c-a*d,0] && RationalQ[q] && q>1 && NeQ[n*(p+q)+1] && Not[IntegerQ[p] && p>1] && 
-  IntBinomialQ[a,b,c,d,n,p,q,x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  x*(a+b*x^n)^p*(c+d*x^n)^q/(n*(p+q)+1) + 
-  n/(n*(p+q)+1)*Int[(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[b*c-a*d,0] && RationalQ[p,q] && q>0 && p>0 && IntBinomialQ[a,b,c,d,n,p,q,x]
-
-
-Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  Sqrt[a+b*x^2]/(a*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))])*EllipticF[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a] && Not[SimplerSqrtQ[b/a,d/c]]
-
-
-(* Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  Sqrt[c+d*x^2]*Sqrt[c*(a+b*x^2)/(a*(c+d*x^2))]/(c*Rt[d/c,2]*Sqrt[a+b*x^2])*EllipticF[ArcTan[Rt[d/c,2]*x],1-b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a] && Not[SimplerSqrtQ[b/a,d/c]] *)
-
-
-Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  1/(Sqrt[a]*Sqrt[c]*Rt[-d/c,2])*EllipticF[ArcSin[Rt[-d/c,2]*x],b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a] && Not[NegQ[b/a] && SimplerSqrtQ[-b/a,-d/c]]
-
-
-Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  -1/(Sqrt[c]*Rt[-d/c,2]*Sqrt[a-b*c/d])*EllipticF[ArcCos[Rt[-d/c,2]*x],b*c/(b*c-a*d)] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a-b*c/d]
-
-
-Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[1/(Sqrt[a+b*x^2]*Sqrt[1+d/c*x^2]),x] /;
-FreeQ[{a,b,c,d},x] && Not[PositiveQ[c]]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  a*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] + b*Int[x^2/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d},x] && PosQ[d/c] && PosQ[b/a]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  b/d*Int[Sqrt[c+d*x^2]/Sqrt[a+b*x^2],x] - (b*c-a*d)/d*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d},x] && PosQ[d/c] && NegQ[b/a]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  Sqrt[a]/(Sqrt[c]*Rt[-d/c,2])*EllipticE[ArcSin[Rt[-d/c,2]*x],b*c/(a*d)] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  -Sqrt[a-b*c/d]/(Sqrt[c]*Rt[-d/c,2])*EllipticE[ArcCos[Rt[-d/c,2]*x],b*c/(b*c-a*d)] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[a-b*c/d]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2]/Sqrt[1+b/a*x^2]*Int[Sqrt[1+b/a*x^2]/Sqrt[c+d*x^2],x] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && PositiveQ[c] && Not[PositiveQ[a]]
-
-
-Int[Sqrt[a_+b_.*x_^2]/Sqrt[c_+d_.*x_^2],x_Symbol] :=
-  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[Sqrt[a+b*x^2]/Sqrt[1+d/c*x^2],x] /;
-FreeQ[{a,b,c,d},x] && NegQ[d/c] && Not[PositiveQ[c]]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d,n,q},x] && NeQ[b*c-a*d,0] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  a^p*c^q*x*AppellF1[1/n,-p,-q,1+1/n,-b*x^n/a,-d*x^n/c] /;
-FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && NeQ[n+1] && PositiveQ[a] && PositiveQ[c]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(1+b*x^n/a)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,n,p,q},x] && NeQ[b*c-a*d,0] && NeQ[n+1] && Not[PositiveQ[a]]
-
-
-Int[(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
-  Int[(a+b*x^n)^p*(d+c*x^n)^q/x^(n*q),x] /;
-FreeQ[{a,b,c,d,n,p},x] && EqQ[mn,-n] && IntegerQ[q] && (PosQ[n] || Not[IntegerQ[p]])
-
-
-Int[(a_+b_.*x_^n_.)^p_*(c_+d_.*x_^mn_.)^q_,x_Symbol] :=
-  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[(a+b*x^n)^p*(d+c*x^n)^q/x^(n*q),x] /;
-FreeQ[{a,b,c,d,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
-
-
-Int[(a_.+b_.*u_^n_)^p_.*(c_.+d_.*u_^n_)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p*(c+d*x^n)^q,x],x,u] /;
-FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[u_^p_.*v_^q_.,x_Symbol] :=
-  Int[NormalizePseudoBinomial[u,x]^p*NormalizePseudoBinomial[v,x]^q,x] /;
-FreeQ[{p,q},x] && PseudoBinomialPairQ[u,v,x]
-
-
-Int[x_^m_.*u_^p_.*v_^q_.,x_Symbol] :=
-  Int[NormalizePseudoBinomial[x^(m/p)*u,x]^p*NormalizePseudoBinomial[v,x]^q,x] /;
-FreeQ[{p,q},x] && IntegersQ[p,m/p] && PseudoBinomialPairQ[x^(m/p)*u,v,x]
-
-
-(* IntBinomialQ[a,b,c,d,n,p,q,x] returns True iff (a+b*x^n)^p*(c+d*x^n)^q is integrable wrt x in terms of non-Appell functions. *)
-IntBinomialQ[a_,b_,c_,d_,n_,p_,q_,x_Symbol] :=
-  IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q] || 
-  (EqQ[n-2] || EqQ[n-4]) && (IntegersQ[p,4*q] || IntegersQ[4*p,q]) || 
-  EqQ[n-2] && (IntegersQ[2*p,2*q] || IntegersQ[3*p,q] && EqQ[b*c+3*a*d] || IntegersQ[p,3*q] && EqQ[3*b*c+a*d])
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.4 (e x)^m (a+b x^n)^p (c+d x^n)^q*)
-
-
-Int[(e_.*x_)^m_.*(b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  e^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1)*(c+d*x)^q,x],x,x^n] /;
-FreeQ[{b,c,d,e,m,n,p,q},x] && (IntegerQ[m] || PositiveQ[e]) && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_.*x_)^m_.*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  e^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p)*(c+d*x^n)^q,x] /;
-FreeQ[{b,c,d,e,m,n,p,q},x] && (IntegerQ[m] || PositiveQ[e]) && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[(e_*x_)^m_*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{b,c,d,e,m,n,p,q},x] && Not[IntegerQ[m]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  1/n*Subst[Int[(a+b*x)^p*(c+d*x)^q,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && EqQ[m-n+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  Int[x^(m+n*(p+q))*(b+a*x^(-n))^p*(d+c*x^(-n))^q,x] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p*(c+d*x)^q,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[p,q]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a*d*(m+1)-b*c*(m+n*(p+1)+1)] && NeQ[m+1]
-
-
-Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*e*(m+1)) /;
-FreeQ[{a1,b1,a2,b2,c,d,e,m,n,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && EqQ[a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1)] && 
-  NeQ[m+1]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) + d/e^n*Int[(e*x)^(m+n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && EqQ[m+n*(p+1)+1] && (IntegerQ[n] || PositiveQ[e]) && 
-  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1)
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  (b*c-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b*e*(m+1)) + d/b*Int[(e*x)^m*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n*(p+1)+1] && NeQ[m+1]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) + 
-  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && (IntegerQ[n] || PositiveQ[e]) && 
-  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1) && Not[IntegerQ[p] && p<-1]
-
-
-Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  c*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*e*(m+1)) + 
-  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(a1*a2*e^n*(m+1))*Int[(e*x)^(m+n)*(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,e,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && (IntegerQ[n] || PositiveQ[e]) && 
-  RationalQ[m,n] && (n>0 && m<-1 || n<0 && m+n>-1) && Not[IntegerQ[p] && p<-1]
-
-
-Int[x_^m_*(a_+b_.*x_^2)^p_*(c_+d_.*x_^2),x_Symbol] :=
-  (-a)^(m/2-1)*(b*c-a*d)*x*(a+b*x^2)^(p+1)/(2*b^(m/2+1)*(p+1)) + 
-  1/(2*b^(m/2+1)*(p+1))*Int[(a+b*x^2)^(p+1)*
-    ExpandToSum[2*b*(p+1)*x^2*Together[(b^(m/2)*x^(m-2)*(c+d*x^2)-(-a)^(m/2-1)*(b*c-a*d))/(a+b*x^2)]-(-a)^(m/2-1)*(b*c-a*d),x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && PositiveIntegerQ[m/2] && (IntegerQ[p] || m+2*p+1==0)
-
-
-Int[x_^m_*(a_+b_.*x_^2)^p_*(c_+d_.*x_^2),x_Symbol] :=
-  (-a)^(m/2-1)*(b*c-a*d)*x*(a+b*x^2)^(p+1)/(2*b^(m/2+1)*(p+1)) + 
-  1/(2*b^(m/2+1)*(p+1))*Int[x^m*(a+b*x^2)^(p+1)*
-    ExpandToSum[2*b*(p+1)*Together[(b^(m/2)*(c+d*x^2)-(-a)^(m/2-1)*(b*c-a*d)*x^(-m+2))/(a+b*x^2)]-
-      (-a)^(m/2-1)*(b*c-a*d)*x^(-m),x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && NegativeIntegerQ[m/2] && (IntegerQ[p] || m+2*p+1==0)
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  -(b*c-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b*e*n*(p+1)) - 
-  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && 
-  (IntegerQ[p] || Not[RationalQ[m]] || PositiveIntegerQ[n] && NegativeIntegerQ[p+1/2] && -1<=m<=-n*(p+1))
-
-
-Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  -(b1*b2*c-a1*a2*d)*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(a1*a2*b1*b2*e*n*(p+1)) - 
-  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(a1*a2*b1*b2*n*(p+1))*Int[(e*x)^m*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1),x] /;
-FreeQ[{a1,b1,a2,b2,c,d,e,m,n},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && RationalQ[p] && p<-1 && 
-  (IntegerQ[p] || Not[RationalQ[m]] || PositiveIntegerQ[n] && NegativeIntegerQ[p+1/2] && -1<=m<=-n*(p+1))
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(b*e*(m+n*(p+1)+1)) - 
-  (a*d*(m+1)-b*c*(m+n*(p+1)+1))/(b*(m+n*(p+1)+1))*Int[(e*x)^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && NeQ[m+n*(p+1)+1]
-
-
-Int[(e_.*x_)^m_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_),x_Symbol] :=
-  d*(e*x)^(m+1)*(a1+b1*x^(n/2))^(p+1)*(a2+b2*x^(n/2))^(p+1)/(b1*b2*e*(m+n*(p+1)+1)) - 
-  (a1*a2*d*(m+1)-b1*b2*c*(m+n*(p+1)+1))/(b1*b2*(m+n*(p+1)+1))*Int[(e*x)^m*(a1+b1*x^(n/2))^p*(a2+b2*x^(n/2))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,e,m,n,p},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && NeQ[m+n*(p+1)+1]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_/(c_+d_.*x_^n_),x_Symbol] :=
-  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p/(c+d*x^n),x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && PositiveIntegerQ[p] && 
-  (IntegerQ[m] || PositiveIntegerQ[2*(m+1)] || Not[RationalQ[m]])
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
-  c^2*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*e*(m+1)) - 
-  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*Simp[b*c^2*n*(p+1)+c*(b*c-2*a*d)*(m+1)-a*(m+1)*d^2*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,n] && m<-1 && n>0
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
-  -(b*c-a*d)^2*(e*x)^(m+1)*(a+b*x^n)^(p+1)/(a*b^2*e*n*(p+1)) + 
-  1/(a*b^2*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*Simp[(b*c-a*d)^2*(m+1)+b^2*c^2*n*(p+1)+a*b*d^2*n*(p+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^2,x_Symbol] :=
-  d^2*(e*x)^(m+n+1)*(a+b*x^n)^(p+1)/(b*e^(n+1)*(m+n*(p+2)+1)) + 
-  1/(b*(m+n*(p+2)+1))*Int[(e*x)^m*(a+b*x^n)^p*Simp[b*c^2*(m+n*(p+2)+1)+d*((2*b*c-a*d)*(m+n+1)+2*b*c*n*(p+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && NeQ[m+n*(p+2)+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p*(c+d*x^(n/k))^q,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/e^n)^p*(c+d*x^(k*n)/e^n)^q,x],x,(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*n*(p+1)) - 
-  e^n/(b*n*(p+1))*Int[(e*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m-n+1)+d*(m+n*(q-1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p,q] && p<-1 && q>0 && m-n+1>0 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -(c*b-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*e*n*(p+1)) + 
-  1/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*
-    Simp[c*(c*b*n*(p+1)+(c*b-a*d)*(m+1))+d*(c*b*n*(p+1)+(c*b-a*d)*(m+n*(q-1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && q>1 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*n*(p+1)) + 
-  1/(a*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m+n*(p+1)+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && 0<q<1 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -a*e^(2*n-1)*(e*x)^(m-2*n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*n*(b*c-a*d)*(p+1)) + 
-  e^(2*n)/(b*n*(b*c-a*d)*(p+1))*Int[(e*x)^(m-2*n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
-    Simp[a*c*(m-2*n+1)+(a*d*(m-n+n*q+1)+b*c*n*(p+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m-n+1>n && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(n*(b*c-a*d)*(p+1)) - 
-  e^n/(n*(b*c-a*d)*(p+1))*Int[(e*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*(m-n+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && n>=m-n+1>0 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -b*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*e*n*(b*c-a*d)*(p+1)) + 
-  1/(a*n*(b*c-a*d)*(p+1))*
-    Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*b*(m+1)+n*(b*c-a*d)*(p+1)+d*b*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+1)) - 
-  n/(e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[b*c*p+a*d*q+b*d*(p+q)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,p,q] && q>0 && m<-1 && p>0 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  c*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*e*(m+1)) - 
-  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
-    Simp[c*(c*b-a*d)*(m+1)+c*n*(b*c*(p+1)+a*d*(q-1))+d*((c*b-a*d)*(m+1)+c*b*n*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && q>1 && m<-1 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*(m+1)) - 
-  1/(a*e^n*(m+1))*Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
-    Simp[c*b*(m+1)+n*(b*c*(p+1)+a*d*q)+d*(b*(m+1)+b*n*(p+q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && 0<q<1 && m<-1 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+n*(p+q)+1)) + 
-  n/(m+n*(p+q)+1)*Int[(e*x)^m*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[p,q] && q>0 && p>0 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*e*(m+n*(p+q)+1)) + 
-  1/(b*(m+n*(p+q)+1))*Int[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
-    Simp[c*((c*b-a*d)*(m+1)+c*b*n*(p+q))+(d*(c*b-a*d)*(m+1)+d*n*(q-1)*(b*c-a*d)+c*b*d*n*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[q] && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*(m+n*(p+q)+1)) - 
-  e^n/(b*(m+n*(p+q)+1))*
-    Int[(e*x)^(m-n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*Simp[a*c*(m-n+1)+(a*d*(m-n+1)-n*q*(b*c-a*d))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m,q] && q>0 && m-n+1>0 && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^(2*n-1)*(e*x)^(m-2*n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*d*(m+n*(p+q)+1)) - 
-  e^(2*n)/(b*d*(m+n*(p+q)+1))*
-    Int[(e*x)^(m-2*n)*(a+b*x^n)^p*(c+d*x^n)^q*Simp[a*c*(m-2*n+1)+(a*d*(m+n*(q-1)+1)+b*c*(m+n*(p-1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && m-n+1>n && 
-  IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c*e*(m+1)) - 
-  1/(a*c*e^n*(m+1))*
-    Int[(e*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*Simp[(b*c+a*d)*(m+n+1)+n*(b*c*p+a*d*q)+b*d*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  -a*e^n/(b*c-a*d)*Int[(e*x)^(m-n)/(a+b*x^n),x] + c*e^n/(b*c-a*d)*Int[(e*x)^(m-n)/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n] && RationalQ[m] && n<=m<=2*n-1
-
-
-Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  b/(b*c-a*d)*Int[(e*x)^m/(a+b*x^n),x] - d/(b*c-a*d)*Int[(e*x)^m/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b*c-a*d] && PositiveIntegerQ[n]
-
-
-Int[x_^m_/((a_+b_.*x_^n_)*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
-  1/b*Int[x^(m-n)/Sqrt[c+d*x^n],x] - a/b*Int[x^(m-n)/((a+b*x^n)*Sqrt[c+d*x^n]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && IntegersQ[m/2,n/2] && 0<m-n+1<n && n<=4
-
-
-Int[x_^2/((a_+b_.*x_^4)*Sqrt[c_+d_.*x_^4]),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]], s=Denominator[Rt[-a/b,2]]},
-  s/(2*b)*Int[1/((r+s*x^2)*Sqrt[c+d*x^4]),x] - s/(2*b)*Int[1/((r-s*x^2)*Sqrt[c+d*x^4]),x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d]
-
-
-Int[x_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[d/c,3]},
-  -q*ArcTan[1/Sqrt[3]+2^(2/3)*(Sqrt[c]-Sqrt[c+d*x^3])/(Sqrt[3]*Sqrt[c]*q*x)]/(3*2^(2/3)*Sqrt[3]*b*Sqrt[c]) + 
-  q*ArcTan[1/Sqrt[3]+2^(2/3)*(Sqrt[c]+Sqrt[c+d*x^3])/(Sqrt[3]*Sqrt[c]*q*x)]/(3*2^(2/3)*Sqrt[3]*b*Sqrt[c]) + 
-  q*ArcTanh[Sqrt[c+d*x^3]/Sqrt[c]]/(9*2^(2/3)*b*Sqrt[c]) + 
-  q*Log[1-2^(1/3)*q*x-Sqrt[c+d*x^3]/Sqrt[c]]/(6*2^(2/3)*b*Sqrt[c]) - 
-  q*Log[1-2^(1/3)*q*x+Sqrt[c+d*x^3]/Sqrt[c]]/(6*2^(2/3)*b*Sqrt[c])] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d]
-
-
-Int[x_^m_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
-  1/b*Int[x^(m-3)/Sqrt[c+d*x^3],x] - a/b*Int[x^(m-3)/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && PositiveIntegerQ[(m-1)/3]
-
-
-Int[x_^m_/((a_+b_.*x_^3)*Sqrt[c_+d_.*x_^3]),x_Symbol] :=
-  1/a*Int[x^m/Sqrt[c+d*x^3],x] - b/a*Int[x^(m+3)/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && NegativeIntegerQ[(m-1)/3]
-
-
-Int[x_^2*Sqrt[c_+d_.*x_^4]/(a_+b_.*x_^4),x_Symbol] :=
-  d/b*Int[x^2/Sqrt[c+d*x^4],x] + (b*c-a*d)/b*Int[x^2/((a+b*x^4)*Sqrt[c+d*x^4]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d]
-
-
-Int[x_^m_.*Sqrt[c_+d_.*x_^3]/(a_+b_.*x_^3),x_Symbol] :=
-  d/b*Int[x^m/Sqrt[c+d*x^3],x] + (b*c-a*d)/b*Int[x^m/((a+b*x^3)*Sqrt[c+d*x^3]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && EqQ[4*b*c-a*d] && IntegerQ[(m-1)/3]
-
-
-Int[x_^2/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  x*Sqrt[a+b*x^2]/(b*Sqrt[c+d*x^2]) - c/b*Int[Sqrt[a+b*x^2]/(c+d*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && PosQ[b/a] && PosQ[d/c] && Not[SimplerSqrtQ[b/a,d/c]]
-
-
-Int[x_^n_/(Sqrt[a_+b_.*x_^n_]*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
-  1/b*Int[Sqrt[a+b*x^n]/Sqrt[c+d*x^n],x] - a/b*Int[1/(Sqrt[a+b*x^n]*Sqrt[c+d*x^n]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && (EqQ[n,2] || EqQ[n,4]) && Not[EqQ[n,2] && SimplerSqrtQ[-b/a,-d/c]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  With[{k=Denominator[p]},
-  k*a^(p+(m+1)/n)/n*
-	Subst[Int[x^(k*(m+1)/n-1)*(c-(b*c-a*d)*x^k)^q/(1-b*x^k)^(p+q+(m+1)/n+1),x],x,x^(n/k)/(a+b*x^n)^(1/k)]] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && RationalQ[m,p] && IntegersQ[p+(m+1)/n,q] && -1<p<0
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,p,q},x] && NeQ[b*c-a*d] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  With[{g=Denominator[m]},
-  -g/e*Subst[Int[(a+b*e^(-n)*x^(-g*n))^p*(c+d*e^(-n)*x^(-g*n))^q/x^(g*(m+1)+1),x],x,1/(e*x)^(1/g)]] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,m,p,q},x] && NeQ[b*c-a*d] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g*(m+1)-1)*(a+b*x^(g*n))^p*(c+d*x^(g*n))^q,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,d,m,p,q},x] && NeQ[b*c-a*d] && FractionQ[n]
-
-
-Int[(e_*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,m,p,q},x] && NeQ[b*c-a*d] && FractionQ[n]
-
-
-(* Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -1/(m+1)*Subst[Int[(a+b*x^Simplify[-n/(m+1)])^p*(c+d*x^Simplify[-n/(m+1)])^q/x^2,x],x,x^(-(m+1))] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && NeQ[m+1] && NegativeIntegerQ[Simplify[n/(m+1)+1]] && 
-  RationalQ[p,q] && -1<=p<0 && -1<=q<0 && Not[IntegerQ[n]] *)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -(c*b-a*d)*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(a*b*e*n*(p+1)) + 
-  1/(a*b*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-2)*
-    Simp[c*(c*b*n*(p+1)+(c*b-a*d)*(m+1))+d*(c*b*n*(p+1)+(c*b-a*d)*(m+n*(q-1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && p<-1 && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*e*n*(p+1)) + 
-  1/(a*n*(p+1))*Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(m+n*(p+1)+1)+d*(m+n*(p+q+1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && p<-1 && 0<q<1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  -b*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*e*n*(b*c-a*d)*(p+1)) + 
-  1/(a*n*(b*c-a*d)*(p+1))*
-    Int[(e*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*b*(m+1)+n*(b*c-a*d)*(p+1)+d*b*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n,q},x] && NeQ[b*c-a*d] && RationalQ[p] && p<-1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  (e*x)^(m+1)*(a+b*x^n)^p*(c+d*x^n)^q/(e*(m+n*(p+q)+1)) + 
-  n/(m+n*(p+q)+1)*Int[(e*x)^m*(a+b*x^n)^(p-1)*(c+d*x^n)^(q-1)*Simp[a*c*(p+q)+(q*(b*c-a*d)+a*d*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && RationalQ[p,q] && q>0 && p>0 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  d*(e*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)/(b*e*(m+n*(p+q)+1)) + 
-  1/(b*(m+n*(p+q)+1))*Int[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-2)*
-    Simp[c*((c*b-a*d)*(m+1)+c*b*n*(p+q))+(d*(c*b-a*d)*(m+1)+d*n*(q-1)*(b*c-a*d)+c*b*d*n*(p+q))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && NeQ[b*c-a*d] && RationalQ[q] && q>1 && IntBinomialQ[a,b,c,d,e,m,n,p,q,x]
-
-
-Int[x_^m_/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  -a/(b*c-a*d)*Int[x^(m-n)/(a+b*x^n),x] + c/(b*c-a*d)*Int[x^(m-n)/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && NeQ[b*c-a*d] && (EqQ[m-n] || EqQ[m-2*n+1])
-
-
-Int[(e_.*x_)^m_./((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  b/(b*c-a*d)*Int[(e*x)^m/(a+b*x^n),x] - d/(b*c-a*d)*Int[(e*x)^m/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,e,n,m},x] && NeQ[b*c-a*d]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  Int[ExpandIntegrand[(e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && NeQ[b*c-a*d] && IntegersQ[m,p,q] && p>=-2 && (q>=-2 || q==-3 && IntegerQ[(m-1)/2])
-
-
-Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
-  Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[mn,-n] && IntegerQ[q] && (PosQ[n] || Not[IntegerQ[p]])
-
-
-Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_,x_Symbol] :=
-  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q,x] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^(-n))^q,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[mn,-n]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  a^p*c^q*(e*x)^(m+1)/(e*(m+1))*AppellF1[(m+1)/n,-p,-q,1+(m+1)/n,-b*x^n/a,-d*x^n/c] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && NeQ[m+1] && NeQ[m-n+1] && PositiveQ[a] && PositiveQ[c]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n)^FracPart[p]/(1+b*x^n/a)^FracPart[p]*Int[(e*x)^m*(1+b*x^n/a)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && NeQ[b*c-a*d] && NeQ[m+1] && NeQ[m-n+1] && Not[PositiveQ[a]]
-
-
-Int[x_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.,x_Symbol] :=
-  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x],x,v] /;
-FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
-
-
-Int[u_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x],x,v] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && LinearPairQ[u,v,x]
-
-
-(* IntBinomialQ[a,b,c,d,e,m,n,p,q,x] returns True iff (e*x)^m*(a+b*x^n)^p*(c+d*x^n)^q is integrable wrt x in terms of non-Appell functions. *)
-IntBinomialQ[a_,b_,c_,d_,e_,m_,n_,p_,q_,x_Symbol] :=
-  IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q] || 
-  EqQ[n-2] && IntegerQ[m] && IntegersQ[2*p,2*q] || 
-  EqQ[n-4] && (IntegersQ[m,p,2*q] || IntegersQ[m,2*p,q])
-
-
-Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.+e_.*x_^n2_.)^q_.,x_Symbol] :=
-  Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n+e*x^(2*n))^q,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,e,n,p,q},x] && EqQ[non2-n/2] && EqQ[n2-2*n] && EqQ[a2*b1+a1*b2] && 
-  (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[u_.*(a1_+b1_.*x_^non2_.)^p_*(a2_+b2_.*x_^non2_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  (a1+b1*x^(n/2))^FracPart[p]*(a2+b2*x^(n/2))^FracPart[p]/(a1*a2+b1*b2*x^n)^FracPart[p]*
-    Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,n,p,q},x] && EqQ[non2-n/2] && EqQ[a2*b1+a1*b2]
-
-
-Int[u_.*(a1_+b1_.*x_^non2_.)^p_.*(a2_+b2_.*x_^non2_.)^p_.*(c_+d_.*x_^n_.+e_.*x_^n2_.)^q_.,x_Symbol] :=
-  (a1+b1*x^(n/2))^FracPart[p]*(a2+b2*x^(n/2))^FracPart[p]/(a1*a2+b1*b2*x^n)^FracPart[p]*
-    Int[u*(a1*a2+b1*b2*x^n)^p*(c+d*x^n+e*x^(2*n))^q,x] /;
-FreeQ[{a1,b1,a2,b2,c,d,e,n,p,q},x] && EqQ[non2-n/2] && EqQ[n2-2*n] && EqQ[a2*b1+a1*b2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.5 (a+b x^n)^p (c+d x^n)^q (e+f x^n)^r*)
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[p,q,r]
-
-
-Int[(e_+f_.*x_^n_)/((a_+b_.*x_^n_)*(c_+d_.*x_^n_)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[1/(a+b*x^n),x] - 
-  (d*e-c*f)/(b*c-a*d)*Int[1/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,e,f,n},x]
-
-
-Int[(e_+f_.*x_^n_)/((a_+b_.*x_^n_)*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
-  f/b*Int[1/Sqrt[c+d*x^n],x] + 
-  (b*e-a*f)/b*Int[1/((a+b*x^n)*Sqrt[c+d*x^n]),x] /;
-FreeQ[{a,b,c,d,e,f,n},x]
-
-
-Int[(e_+f_.*x_^n_)/(Sqrt[a_+b_.*x_^n_]*Sqrt[c_+d_.*x_^n_]),x_Symbol] :=
-  f/b*Int[Sqrt[a+b*x^n]/Sqrt[c+d*x^n],x] + 
-  (b*e-a*f)/b*Int[1/(Sqrt[a+b*x^n]*Sqrt[c+d*x^n]),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && 
-  Not[EqQ[n-2] && (PosQ[b/a] && PosQ[d/c] || NegQ[b/a] && (PosQ[d/c] || PositiveQ[a] && (Not[PositiveQ[c]] || SimplerSqrtQ[-b/a,-d/c])))]
-
-
-Int[(e_+f_.*x_^2)/(Sqrt[a_+b_.*x_^2]*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] - 
-  (d*e-c*f)/(b*c-a*d)*Int[Sqrt[a+b*x^2]/(c+d*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[b/a] && PosQ[d/c]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*n*(p+1)) + 
-  1/(a*b*n*(p+1))*
-    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*Simp[c*(b*e*n*(p+1)+b*e-a*f)+d*(b*e*n*(p+1)+(b*e-a*f)*(n*q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && RationalQ[p,q] && p<-1 && q>0
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*n*(b*c-a*d)*(p+1)) + 
-  1/(a*n*(b*c-a*d)*(p+1))*
-    Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*Simp[c*(b*e-a*f)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,q},x] && RationalQ[p] && p<-1
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  f*x*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*(n*(p+q+1)+1)) + 
-  1/(b*(n*(p+q+1)+1))*
-    Int[(a+b*x^n)^p*(c+d*x^n)^(q-1)*Simp[c*(b*e-a*f+b*e*n*(p+q+1))+(d*(b*e-a*f)+f*n*q*(b*c-a*d)+b*d*e*n*(p+q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && RationalQ[q] && q>0 && NeQ[n*(p+q+1)+1]
-
-
-Int[(e_+f_.*x_^4)/((a_+b_.*x_^4)^(3/4)*(c_+d_.*x_^4)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[1/(a+b*x^4)^(3/4),x] - (d*e-c*f)/(b*c-a*d)*Int[(a+b*x^4)^(1/4)/(c+d*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
-  f/d*Int[(a+b*x^n)^p,x] + (d*e-c*f)/d*Int[(a+b*x^n)^p/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,e,f,p,n},x]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  e*Int[(a+b*x^n)^p*(c+d*x^n)^q,x] + f*Int[x^n*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q},x]
-
-
-Int[1/((a_+b_.*x_^2)*(c_+d_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/((a+b*x^2)*Sqrt[e+f*x^2]),x] - 
-  d/(b*c-a*d)*Int[1/((c+d*x^2)*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[1/(x_^2*(c_+d_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  1/c*Int[1/(x^2*Sqrt[e+f*x^2]),x] - 
-  d/c*Int[1/((c+d*x^2)*Sqrt[e+f*x^2]),x] /;
-FreeQ[{c,d,e,f},x] && NeQ[d*e-c*f]
-
-
-Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
-  d/b*Int[Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] + (b*c-a*d)/b*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveQ[d/c] && PositiveQ[f/e] && Not[SimplerSqrtQ[d/c,f/e]]
-
-
-Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
-  d/b*Int[Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] + (b*c-a*d)/b*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[SimplerSqrtQ[-f/e,-d/c]]
-
-
-Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  -f/(b*e-a*f)*Int[1/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
-  b/(b*e-a*f)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e] && Not[SimplerSqrtQ[d/c,f/e]]
-
-
-Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  1/(a*Sqrt[c]*Sqrt[e]*Rt[-d/c,2])*EllipticPi[b*c/(a*d), ArcSin[Rt[-d/c,2]*x], c*f/(d*e)] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[d/c] && PositiveQ[c] && PositiveQ[e] && Not[NegQ[f/e] && SimplerSqrtQ[-f/e,-d/c]]
-
-
-Int[1/((a_+b_.*x_^2)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  Sqrt[1+d/c*x^2]/Sqrt[c+d*x^2]*Int[1/((a+b*x^2)*Sqrt[1+d/c*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && Not[PositiveQ[c]]
-
-
-Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  c*Sqrt[e+f*x^2]/(a*e*Rt[d/c,2]*Sqrt[c+d*x^2]*Sqrt[c*(e+f*x^2)/(e*(c+d*x^2))])*
-    EllipticPi[1-b*c/(a*d),ArcTan[Rt[d/c,2]*x],1-c*f/(d*e)] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c]
-
-
-(* Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  Sqrt[c+d*x^2]*Sqrt[c*(e+f*x^2)/(e*(c+d*x^2))]/(a*Rt[d/c,2]*Sqrt[e+f*x^2])*
-    EllipticPi[1-b*c/(a*d),ArcTan[Rt[d/c,2]*x],1-c*f/(d*e)] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] *)
-
-
-Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  d/b*Int[1/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
-  (b*c-a*d)/b*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[d/c]
-
-
-Int[Sqrt[e_+f_.*x_^2]/((a_+b_.*x_^2)*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
-  b/(b*c-a*d)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] - 
-  d/(b*c-a*d)*Int[Sqrt[e+f*x^2]/(c+d*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
-
-
-Int[(e_+f_.*x_^2)^(3/2)/((a_+b_.*x_^2)*(c_+d_.*x_^2)^(3/2)),x_Symbol] :=
-  (b*e-a*f)/(b*c-a*d)*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] - 
-  (d*e-c*f)/(b*c-a*d)*Int[Sqrt[e+f*x^2]/(c+d*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
-
-
-Int[(c_+d_.*x_^2)^(3/2)*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2),x_Symbol] :=
-  (b*c-a*d)^2/b^2*Int[Sqrt[e+f*x^2]/((a+b*x^2)*Sqrt[c+d*x^2]),x] + 
-  d/b^2*Int[(2*b*c-a*d+b*d*x^2)*Sqrt[e+f*x^2]/Sqrt[c+d*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[d/c] && PosQ[f/e]
-
-
-Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
-  b*(b*e-a*f)/(b*c-a*d)^2*Int[(c+d*x^2)^(q+2)*(e+f*x^2)^(r-1)/(a+b*x^2),x] - 
-  1/(b*c-a*d)^2*Int[(c+d*x^2)^q*(e+f*x^2)^(r-1)*(2*b*c*d*e-a*d^2*e-b*c^2*f+d^2*(b*e-a*f)*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[q,r] && q<-1 && r>1
-
-
-Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
-  d/b*Int[(c+d*x^2)^(q-1)*(e+f*x^2)^r,x] + 
-  (b*c-a*d)/b*Int[(c+d*x^2)^(q-1)*(e+f*x^2)^r/(a+b*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q>1
-
-
-Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
-  b^2/(b*c-a*d)^2*Int[(c+d*x^2)^(q+2)*(e+f*x^2)^r/(a+b*x^2),x] - 
-  d/(b*c-a*d)^2*Int[(c+d*x^2)^q*(e+f*x^2)^r*(2*b*c-a*d+b*d*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q<-1
-
-
-Int[(c_+d_.*x_^2)^q_*(e_+f_.*x_^2)^r_/(a_+b_.*x_^2),x_Symbol] :=
-  -d/(b*c-a*d)*Int[(c+d*x^2)^q*(e+f*x^2)^r,x] + 
-  b/(b*c-a*d)*Int[(c+d*x^2)^(q+1)*(e+f*x^2)^r/(a+b*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,r},x] && RationalQ[q] && q<=-1
-
-
-Int[Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]/(a_+b_.*x_^2)^2,x_Symbol] :=
-  x*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]/(2*a*(a+b*x^2)) + 
-  d*f/(2*a*b^2)*Int[(a-b*x^2)/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
-  (b^2*c*e-a^2*d*f)/(2*a*b^2)*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[1/((a_+b_.*x_^2)^2*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  b^2*x*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]/(2*a*(b*c-a*d)*(b*e-a*f)*(a+b*x^2)) - 
-  d*f/(2*a*(b*c-a*d)*(b*e-a*f))*Int[(a+b*x^2)/(Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] + 
-  (b^2*c*e+3*a^2*d*f-2*a*b*(d*e+c*f))/(2*a*(b*c-a*d)*(b*e-a*f))*Int[1/((a+b*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
-  d/b*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*(e+f*x^n)^r,x] + 
-  (b*c-a*d)/b*Int[(a+b*x^n)^p*(c+d*x^n)^(q-1)*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,n,r},x] && NegativeIntegerQ[p] && RationalQ[q] && q>0
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
-  b/(b*c-a*d)*Int[(a+b*x^n)^p*(c+d*x^n)^(q+1)*(e+f*x^n)^r,x] - 
-  d/(b*c-a*d)*Int[(a+b*x^n)^(p+1)*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,n,q},x] && NegativeIntegerQ[p] && RationalQ[q] && q<=-1
-
-
-Int[1/(Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(c*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
-    Subst[Int[1/(Sqrt[1-(b*c-a*d)*x^2/c]*Sqrt[1-(b*e-a*f)*x^2/e]),x],x,x/Sqrt[a+b*x^2]] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[Sqrt[a_+b_.*x_^2]/(Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  a*Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(c*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
-    Subst[Int[1/((1-b*x^2)*Sqrt[1-(b*c-a*d)*x^2/c]*Sqrt[1-(b*e-a*f)*x^2/e]),x],x,x/Sqrt[a+b*x^2]] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[Sqrt[c_+d_.*x_^2]/((a_+b_.*x_^2)^(3/2)*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  Sqrt[c+d*x^2]*Sqrt[a*(e+f*x^2)/(e*(a+b*x^2))]/(a*Sqrt[e+f*x^2]*Sqrt[a*(c+d*x^2)/(c*(a+b*x^2))])*
-    Subst[Int[Sqrt[1-(b*c-a*d)*x^2/c]/Sqrt[1-(b*e-a*f)*x^2/e],x],x,x/Sqrt[a+b*x^2]] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/Sqrt[e_+f_.*x_^2],x_Symbol] :=
-  d*x*Sqrt[a+b*x^2]*Sqrt[e+f*x^2]/(2*f*Sqrt[c+d*x^2]) - 
-  c*(d*e-c*f)/(2*f)*Int[Sqrt[a+b*x^2]/((c+d*x^2)^(3/2)*Sqrt[e+f*x^2]),x] + 
-  b*c*(d*e-c*f)/(2*d*f)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - 
-  (b*d*e-b*c*f-a*d*f)/(2*d*f)*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[(d*e-c*f)/c]
-
-
-Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/Sqrt[e_+f_.*x_^2],x_Symbol] :=
-  x*Sqrt[a+b*x^2]*Sqrt[c+d*x^2]/(2*Sqrt[e+f*x^2]) + 
-  e*(b*e-a*f)/(2*f)*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*(e+f*x^2)^(3/2)),x] + 
-  (b*e-a*f)*(d*e-2*c*f)/(2*f^2)*Int[1/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - 
-  (b*d*e-b*c*f-a*d*f)/(2*f^2)*Int[Sqrt[e+f*x^2]/(Sqrt[a+b*x^2]*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[(d*e-c*f)/c]
-
-
-Int[Sqrt[a_+b_.*x_^2]*Sqrt[c_+d_.*x_^2]/(e_+f_.*x_^2)^(3/2),x_Symbol] :=
-  b/f*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*Sqrt[e+f*x^2]),x] - 
-  (b*e-a*f)/f*Int[Sqrt[c+d*x^2]/(Sqrt[a+b*x^2]*(e+f*x^2)^(3/2)),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
-  With[{u=ExpandIntegrand[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && PositiveIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  Defer[Int][(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q,r},x]
-
-
-Int[(a_.+b_.*u_^n_)^p_.*(c_.+d_.*v_^n_)^q_.*(e_.+f_.*w_^n_)^r_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,p,n,q,r},x] && EqQ[u-v] && EqQ[u-w] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  Int[(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r/x^(n*q),x] /;
-FreeQ[{a,b,c,d,e,f,n,p,r},x] && EqQ[mn,-n] && IntegerQ[q]
-
-
-Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  Int[x^(n*(p+r))*(b+a*x^(-n))^p*(c+d*x^(-n))^q*(f+e*x^(-n))^r,x] /;
-FreeQ[{a,b,c,d,e,f,n,q},x] && EqQ[mn,-n] && IntegerQ[p] && IntegerQ[r]
-
-
-Int[(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r/x^(n*q),x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q,r},x] && EqQ[mn,-n] && Not[IntegerQ[q]]
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
-  Int[(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e1,f1,e2,f2,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2] && (IntegerQ[r] || PositiveQ[e1] && PositiveQ[e2])
-
-
-Int[(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
-  (e1+f1*x^(n/2))^FracPart[r]*(e2+f2*x^(n/2))^FracPart[r]/(e1*e2+f1*f2*x^n)^FracPart[r]*
-    Int[(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e1,f1,e2,f2,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.6 (g x)^m (a+b x^n)^p (c+d x^n)^q (e+f x^n)^r*)
-
-
-Int[(g_.*x_)^m_.*(b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^m/(n*b^(Simplify[(m+1)/n]-1))*Subst[Int[(b*x)^(p+Simplify[(m+1)/n]-1)*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
-FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && (IntegerQ[m] || PositiveQ[g]) && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(g_.*x_)^m_.*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^m*b^IntPart[p]*(b*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[x^(m+n*p)*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && (IntegerQ[m] || PositiveQ[g]) && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[(g_*x_)^m_*(b_.*x_^n_.)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{b,c,d,e,f,g,m,n,p,q,r},x] && Not[IntegerQ[m]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && PositiveIntegerQ[p+2,q,r]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  1/n*Subst[Int[(a+b*x)^p*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && EqQ[m-n+1]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  Int[x^(m+n*(p+q+r))*(b+a*x^(-n))^p*(d+c*x^(-n))^q*(f+e*x^(-n))^r,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IntegersQ[p,q,r] && NegQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x)^p*(c+d*x)^q*(e+f*x)^r,x],x,x^n] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(g_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k))^p*(c+d*x^(n/k))^q*(e+f*x^(n/k))^r,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_)^r_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/g*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/g^n)^p*(c+d*x^(k*n)/g^n)^q*(e+f*x^(k*n)/g^n)^r,x],x,(g*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,g,p,q,r},x] && PositiveIntegerQ[n] && FractionQ[m]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*g*n*(p+1)) + 
-  1/(a*b*n*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*
-    Simp[c*(b*e*n*(p+1)+(b*e-a*f)*(m+1))+d*(b*e*n*(p+1)+(b*e-a*f)*(m+n*q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && PositiveIntegerQ[n] && RationalQ[p,q] && p<-1 && q>0 && Not[q==1 && SimplerQ[b*c-a*d,b*e-a*f]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
-  g^(n-1)*(b*e-a*f)*(g*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*n*(b*c-a*d)*(p+1)) - 
-  g^n/(b*n*(b*c-a*d)*(p+1))*Int[(g*x)^(m-n)*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
-    Simp[c*(b*e-a*f)*(m-n+1)+(d*(b*e-a*f)*(m+n*q+1)-b*n*(c*f-d*e)*(p+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,q},x] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m-n+1>0
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*g*n*(b*c-a*d)*(p+1)) + 
-  1/(a*n*(b*c-a*d)*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
-    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,q},x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  e*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*g*(m+1)) - 
-  1/(a*g^n*(m+1))*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
-    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c*(p+1)+a*d*q)+d*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && PositiveIntegerQ[n] && RationalQ[m,q] && q>0 && m<-1 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  f*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*g*(m+n*(p+q+1)+1)) + 
-  1/(b*(m+n*(p+q+1)+1))*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
-    Simp[c*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))+(d*(b*e-a*f)*(m+1)+f*n*q*(b*c-a*d)+b*e*d*n*(p+q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && PositiveIntegerQ[n] && RationalQ[q] && q>0 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  f*g^(n-1)*(g*x)^(m-n+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(b*d*(m+n*(p+q+1)+1)) - 
-  g^n/(b*d*(m+n*(p+q+1)+1))*Int[(g*x)^(m-n)*(a+b*x^n)^p*(c+d*x^n)^q*
-    Simp[a*f*c*(m-n+1)+(a*f*d*(m+n*q+1)+b*(f*c*(m+n*p+1)-e*d*(m+n*(p+q+1)+1)))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p,q},x] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1
-
-
-Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  e*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*c*g*(m+1)) + 
-  1/(a*c*g^n*(m+1))*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*
-    Simp[a*f*c*(m+1)-e*(b*c+a*d)*(m+n+1)-e*n*(b*c*p+a*d*q)-b*e*d*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p,q},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
-  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(e+f*x^n)/(c+d*x^n),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && PositiveIntegerQ[n]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x] + 
-  f/e^n*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p,q},x] && PositiveIntegerQ[n]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^(r-1),x] + 
-  f/e^n*Int[(g*x)^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^(r-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p,q},x] && PositiveIntegerQ[n] && PositiveIntegerQ[r]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/g*Subst[Int[(a+b*g^(-n)*x^(-k*n))^p*(c+d*g^(-n)*x^(-k*n))^q*(e+f*g^(-n)*x^(-k*n))^r/x^(k*(m+1)+1),x],x,1/(g*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,g,p,q,r},x] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(g_.*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  -(g*x)^m*(x^(-1))^m*Subst[Int[(a+b*x^(-n))^p*(c+d*x^(-n))^q*(e+f*x^(-n))^r/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p,q,r},x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n))^p*(c+d*x^(k*n))^q*(e+f*x^(k*n))^r,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,m,p,q,r},x] && FractionQ[n]
-
-
-Int[(g_*x_)^m_*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p,q,r},x] && FractionQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q*(e+f*x^Simplify[n/(m+1)])^r,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && IntegerQ[Simplify[n/(m+1)]]
-
-
-Int[(g_*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && IntegerQ[Simplify[n/(m+1)]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(a*b*g*n*(p+1)) + 
-  1/(a*b*n*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^(q-1)*
-    Simp[c*(b*e*n*(p+1)+(b*e-a*f)*(m+1))+d*(b*e*n*(p+1)+(b*e-a*f)*(m+n*q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && RationalQ[p,q] && p<-1 && q>0 && Not[q==1 && SimplerQ[b*c-a*d,b*e-a*f]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
-  -(b*e-a*f)*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(q+1)/(a*g*n*(b*c-a*d)*(p+1)) + 
-  1/(a*n*(b*c-a*d)*(p+1))*Int[(g*x)^m*(a+b*x^n)^(p+1)*(c+d*x^n)^q*
-    Simp[c*(b*e-a*f)*(m+1)+e*n*(b*c-a*d)*(p+1)+d*(b*e-a*f)*(m+n*(p+q+2)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,q},x] && RationalQ[p] && p<-1
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_),x_Symbol] :=
-  f*(g*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^q/(b*g*(m+n*(p+q+1)+1)) + 
-  1/(b*(m+n*(p+q+1)+1))*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^(q-1)*
-    Simp[c*((b*e-a*f)*(m+1)+b*e*n*(p+q+1))+(d*(b*e-a*f)*(m+1)+f*n*q*(b*c-a*d)+b*e*d*n*(p+q+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && RationalQ[q] && q>0 && Not[q==1 && SimplerQ[e+f*x^n,c+d*x^n]]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(e_+f_.*x_^n_)/(c_+d_.*x_^n_),x_Symbol] :=
-  Int[ExpandIntegrand[(g*x)^m*(a+b*x^n)^p*(e+f*x^n)/(c+d*x^n),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_*(c_+d_.*x_^n_)^q_*(e_+f_.*x_^n_),x_Symbol] :=
-  e*Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q,x] + 
-  f*(g*x)^m/x^m*Int[x^(m+n)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q},x]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,r},x] && EqQ[mn,-n] && IntegerQ[q]
-
-
-Int[x_^m_.*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  Int[x^(m+n*(p+r))*(b+a*x^(-n))^p*(c+d*x^(-n))^q*(f+e*x^(-n))^r,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[mn,-n] && IntegerQ[p] && IntegerQ[r]
-
-
-Int[x_^m_.*(a_.+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  x^(n*FracPart[q])*(c+d*x^(-n))^FracPart[q]/(d+c*x^n)^FracPart[q]*Int[x^(m-n*q)*(a+b*x^n)^p*(d+c*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && EqQ[mn,-n] && Not[IntegerQ[q]]
-
-
-Int[(g_*x_)^m_*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^mn_.)^q_.*(e_+f_.*x_^n_.)^r_.,x_Symbol] :=
-  g^IntPart[m]*(g*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n)^p*(c+d*x^(-n))^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x] && EqQ[mn,-n]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e_+f_.*x_^n_)^r_.,x_Symbol] :=
-  Defer[Int][(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q,r},x]
-
-
-Int[u_^m_.*(a_.+b_.*v_^n_)^p_.*(c_.+d_.*v_^n_)^q_.*(e_+f_.*v_^n_)^r_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q*(e+f*x^n)^r,x],x,v] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && LinearPairQ[u,v,x]
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
-  Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e1,f1,e2,f2,g,m,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2] && (IntegerQ[r] || PositiveQ[e1] && PositiveQ[e2])
-
-
-Int[(g_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.*(e1_+f1_.*x_^n2_.)^r_.*(e2_+f2_.*x_^n2_.)^r_.,x_Symbol] :=
-  (e1+f1*x^(n/2))^FracPart[r]*(e2+f2*x^(n/2))^FracPart[r]/(e1*e2+f1*f2*x^n)^FracPart[r]*
-    Int[(g*x)^m*(a+b*x^n)^p*(c+d*x^n)^q*(e1*e2+f1*f2*x^n)^r,x] /;
-FreeQ[{a,b,c,d,e1,f1,e2,f2,g,m,n,p,q,r},x] && EqQ[n2-n/2] && EqQ[e2*f1+e1*f2]
-
-
-
-`)
+(* ::Text:: *)
+(*(g Sec[e+f x])^p (a+b Sec[e+f x])^m == (g Csc[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m*)
 
-func resourcesRubi113GeneralBinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi113GeneralBinomialProductsM, nil
-}
 
-func resourcesRubi113GeneralBinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi113GeneralBinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
+  (g*csc[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
 
-	info := bindataFileInfo{name: "resources/rubi/1.1.3 General binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi114ImproperBinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.3.4 Normalizing algebraic functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.3.4 Normalizing algebraic functions*)
-
-
-Int[(a_.+b_.*(c_.*x_^n_)^q_)^p_.,x_Symbol] :=
-  x/(c*x^n)^(1/n)*Subst[Int[(a+b*x^(n*q))^p,x],x,(c*x^n)^(1/n)] /;
-FreeQ[{a,b,c,q,n,p},x] && IntegerQ[n*q]
-
-
-Int[x_^m_.*(a_.+b_.*(c_.*x_^n_)^q_)^p_.,x_Symbol] :=
-  x^(m+1)/(c*x^n)^((m+1)/n)*Subst[Int[x^m*(a+b*x^(n*q))^p,x],x,(c*x^n)^(1/n)] /;
-FreeQ[{a,b,c,m,n,p,q},x] && IntegerQ[n*q] && IntegerQ[m]
-
-
-Int[x_^m_.*(e_.*(a_+b_.*x_^n_.)^r_.)^p_*(f_.*(c_+d_.*x_^n_.)^s_)^q_,x_Symbol] :=
-  (e*(a+b*x^n)^r)^p*(f*(c+d*x^n)^s)^q/((a+b*x^n)^(p*r)*(c+d*x^n)^(q*s))*
-    Int[x^m*(a+b*x^n)^(p*r)*(c+d*x^n)^(q*s),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r,s},x]
-
-
-Int[u_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  (b*e/d)^p*Int[u,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*c-a*d]
-
-
-Int[u_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  Int[u*(e*(a+b*x^n))^p/(c+d*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && PositiveQ[b*d*e] && PositiveQ[c-a*d/b]
-
-
-Int[(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  With[{q=Denominator[p]},
-  q*e*(b*c-a*d)/n*Subst[
-    Int[x^(q*(p+1)-1)*(-a*e+c*x^q)^(1/n-1)/(b*e-d*x^q)^(1/n+1),x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
-FreeQ[{a,b,c,d,e},x] && FractionQ[p] && IntegerQ[1/n]
-
-
-Int[x_^m_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  With[{q=Denominator[p]},
-  q*e*(b*c-a*d)/n*Subst[
-    Int[x^(q*(p+1)-1)*(-a*e+c*x^q)^(Simplify[(m+1)/n]-1)/(b*e-d*x^q)^(Simplify[(m+1)/n]+1),x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
-FreeQ[{a,b,c,d,e,m,n},x] && FractionQ[p] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[u_^r_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  With[{q=Denominator[p]},
-  q*e*(b*c-a*d)/n*Subst[Int[SimplifyIntegrand[x^(q*(p+1)-1)*(-a*e+c*x^q)^(1/n-1)/(b*e-d*x^q)^(1/n+1)*
-    ReplaceAll[u,x->(-a*e+c*x^q)^(1/n)/(b*e-d*x^q)^(1/n)]^r,x],x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[u,x] && FractionQ[p] && IntegerQ[1/n] && IntegerQ[r]
-
-
-Int[x_^m_.*u_^r_.*(e_.*(a_.+b_.*x_^n_.)/(c_+d_.*x_^n_.))^p_,x_Symbol] :=
-  With[{q=Denominator[p]},
-  q*e*(b*c-a*d)/n*Subst[Int[SimplifyIntegrand[x^(q*(p+1)-1)*(-a*e+c*x^q)^((m+1)/n-1)/(b*e-d*x^q)^((m+1)/n+1)*
-    ReplaceAll[u,x->(-a*e+c*x^q)^(1/n)/(b*e-d*x^q)^(1/n)]^r,x],x],x,(e*(a+b*x^n)/(c+d*x^n))^(1/q)]] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[u,x] && FractionQ[p] && IntegerQ[1/n] && IntegersQ[m,r]
-
-
-Int[(a_.+b_.*(c_./x_)^n_)^p_,x_Symbol] :=
-  -c*Subst[Int[(a+b*x^n)^p/x^2,x],x,c/x] /;
-FreeQ[{a,b,c,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*(c_./x_)^n_)^p_.,x_Symbol] :=
-  -c^(m+1)*Subst[Int[(a+b*x^n)^p/x^(m+2),x],x,c/x] /;
-FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
-
-
-Int[(d_.*x_)^m_*(a_.+b_.*(c_./x_)^n_)^p_.,x_Symbol] :=
-  -c*(d*x)^m*(c/x)^m*Subst[Int[(a+b*x^n)^p/x^(m+2),x],x,c/x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(a_.+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
-  -d*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^2,x],x,d/x] /;
-FreeQ[{a,b,c,d,n,p},x] && EqQ[n2-2*n]
-
-
-Int[x_^m_.*(a_+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
-  -d^(m+1)*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^(m+2),x],x,d/x] /;
-FreeQ[{a,b,c,d,n,p},x] && EqQ[n2-2*n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*(d_./x_)^n_+c_.*(d_./x_)^n2_.)^p_.,x_Symbol] :=
-  -d*(e*x)^m*(d/x)^m*Subst[Int[(a+b*x^n+c*x^(2*n))^p/x^(m+2),x],x,d/x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
-
-
-Int[(a_.+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  -d*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^2,x],x,d/x] /;
-FreeQ[{a,b,c,d,n,p},x] && EqQ[n2+2*n] && IntegerQ[2*n]
-
-
-Int[x_^m_.*(a_+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  -d^(m+1)*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^(m+2),x],x,d/x] /;
-FreeQ[{a,b,c,d,n,p},x] && EqQ[n2+2*n] && IntegerQ[2*n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_+b_.*(d_./x_)^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  -d*(e*x)^m*(d/x)^m*Subst[Int[(a+b*x^n+c/d^(2*n)*x^(2*n))^p/x^(m+2),x],x,d/x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2+2*n] && Not[IntegerQ[m]] && IntegerQ[2*n]
-
-
-Int[u_^m_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m,x] /;
-FreeQ[m,x] && LinearQ[u,x] && Not[LinearMatchQ[u,x]]
-
-
-Int[u_^m_.*v_^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n,x] /;
-FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
-FreeQ[{m,n,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
-
-
-Int[u_^m_.*v_^n_.*w_^p_.*z_^q_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p*ExpandToSum[z,x]^q,x] /;
-FreeQ[{m,n,p,q},x] && LinearQ[{u,v,w,z},x] && Not[LinearMatchQ[{u,v,w,z},x]]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(c_.*x_)^m_.*u_^p_.,x_Symbol] :=
-  Int[(c*x)^m*ExpandToSum[u,x]^p,x] /;
-FreeQ[{c,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[u_^p_.*v_^q_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
-FreeQ[{p,q},x] && BinomialQ[{u,v},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && Not[BinomialMatchQ[{u,v},x]]
-
-
-Int[(e_.*x_)^m_.*u_^p_.*v_^q_.,x_Symbol] :=
-  Int[(e*x)^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
-FreeQ[{e,m,p,q},x] && BinomialQ[{u,v},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && Not[BinomialMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*v_^p_.*w_^q_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p*ExpandToSum[w,x]^q,x] /;
-FreeQ[{m,p,q},x] && BinomialQ[{u,v,w},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && 
-  EqQ[BinomialDegree[u,x]-BinomialDegree[w,x]] && Not[BinomialMatchQ[{u,v,w},x]]
-
-
-Int[(g_.*x_)^m_.*u_^p_.*v_^q_.*z_^r_.,x_Symbol] :=
-  Int[(g*x)^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q*ExpandToSum[z,x]^r,x] /;
-FreeQ[{g,m,p,q,r},x] && BinomialQ[{u,v,z},x] && EqQ[BinomialDegree[u,x]-BinomialDegree[v,x]] && 
-  EqQ[BinomialDegree[u,x]-BinomialDegree[z,x]] && Not[BinomialMatchQ[{u,v,z},x]]
-
-
-Int[(c_.*x_)^m_.*Pq_*u_^p_.,x_Symbol] :=
-  Int[(c*x)^m*Pq*ExpandToSum[u,x]^p,x] /;
-FreeQ[{c,m,p},x] && PolyQ[Pq,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && GeneralizedBinomialQ[u,x] && Not[GeneralizedBinomialMatchQ[u,x]]
-
-
-Int[(c_.*x_)^m_.*u_^p_.,x_Symbol] :=
-  Int[(c*x)^m*ExpandToSum[u,x]^p,x] /;
-FreeQ[{c,m,p},x] && GeneralizedBinomialQ[u,x] && Not[GeneralizedBinomialMatchQ[u,x]]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]]
-
-
-Int[u_^m_.*v_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p,x] /;
-FreeQ[{m,p},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-Int[u_^m_.*v_^n_.*w_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^n*ExpandToSum[w,x]^p,x] /;
-FreeQ[{m,n,p},x] && LinearQ[{u,v},x] && QuadraticQ[w,x] && Not[LinearMatchQ[{u,v},x] && QuadraticMatchQ[w,x]]
-
-
-Int[u_^p_.*v_^q_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
-FreeQ[{p,q},x] && QuadraticQ[{u,v},x] && Not[QuadraticMatchQ[{u,v},x]]
-
-
-Int[z_^m_.*u_^p_.*v_^q_.,x_Symbol] :=
-  Int[ExpandToSum[z,x]^m*ExpandToSum[u,x]^p*ExpandToSum[v,x]^q,x] /;
-FreeQ[{m,p,q},x] && LinearQ[z,x] && QuadraticQ[{u,v},x] && Not[LinearMatchQ[z,x] && QuadraticMatchQ[{u,v},x]]
-
-
-Int[Pq_*u_^p_.,x_Symbol] :=
-  Int[Pq*ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && PolyQ[Pq,x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]]
-
-
-Int[u_^m_.*Pq_*v_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Pq*ExpandToSum[u,x]^p,x] /;
-FreeQ[{m,p},x] && PolyQ[Pq,x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
-
-
-Int[(d_.*x_)^m_.*u_^p_.,x_Symbol] :=
-  Int[(d*x)^m*ExpandToSum[u,x]^p,x] /;
-FreeQ[{d,m,p},x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
-
-
-Int[u_^q_.*v_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^q*ExpandToSum[v,x]^p,x] /;
-FreeQ[{p,q},x] && BinomialQ[u,x] && TrinomialQ[v,x] && Not[BinomialMatchQ[u,x] && TrinomialMatchQ[v,x]]
-
-
-Int[u_^q_.*v_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^q*ExpandToSum[v,x]^p,x] /;
-FreeQ[{p,q},x] && BinomialQ[u,x] && BinomialQ[v,x] && Not[BinomialMatchQ[u,x] && BinomialMatchQ[v,x]]
-
-
-Int[(f_.*x_)^m_.*z_^q_.*u_^p_.,x_Symbol] :=
-  Int[(f*x)^m*ExpandToSum[z,x]^q*ExpandToSum[u,x]^p,x] /;
-FreeQ[{f,m,p,q},x] && BinomialQ[z,x] && TrinomialQ[u,x] && Not[BinomialMatchQ[z,x] && TrinomialMatchQ[u,x]]
-
-
-Int[(f_.*x_)^m_.*z_^q_.*u_^p_.,x_Symbol] :=
-  Int[(f*x)^m*ExpandToSum[z,x]^q*ExpandToSum[u,x]^p,x] /;
-FreeQ[{f,m,p,q},x] && BinomialQ[z,x] && BinomialQ[u,x] && Not[BinomialMatchQ[z,x] && BinomialMatchQ[u,x]]
-
-
-Int[Pq_*u_^p_.,x_Symbol] :=
-  Int[Pq*ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && PolyQ[Pq,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
-
-
-Int[(d_.*x_)^m_.*Pq_*u_^p_.,x_Symbol] :=
-  Int[(d*x)^m*Pq*ExpandToSum[u,x]^p,x] /;
-FreeQ[{d,m,p},x] && PolyQ[Pq,x] && TrinomialQ[u,x] && Not[TrinomialMatchQ[u,x]]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && GeneralizedTrinomialQ[u,x] && Not[GeneralizedTrinomialMatchQ[u,x]]
-
-
-Int[(d_.*x_)^m_.*u_^p_.,x_Symbol] :=
-  Int[(d*x)^m*ExpandToSum[u,x]^p,x] /;
-FreeQ[{d,m,p},x] && GeneralizedTrinomialQ[u,x] && Not[GeneralizedTrinomialMatchQ[u,x]]
-
-
-Int[z_*u_^p_.,x_Symbol] :=
-  Int[ExpandToSum[z,x]*ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && BinomialQ[z,x] && GeneralizedTrinomialQ[u,x] && 
-  EqQ[BinomialDegree[z,x]-GeneralizedTrinomialDegree[u,x]] && Not[BinomialMatchQ[z,x] && GeneralizedTrinomialMatchQ[u,x]]
-
-
-Int[(f_.*x_)^m_.*z_*u_^p_.,x_Symbol] :=
-  Int[(f*x)^m*ExpandToSum[z,x]*ExpandToSum[u,x]^p,x] /;
-FreeQ[{f,m,p},x] && BinomialQ[z,x] && GeneralizedTrinomialQ[u,x] && 
-  EqQ[BinomialDegree[z,x]-GeneralizedTrinomialDegree[u,x]] && Not[BinomialMatchQ[z,x] && GeneralizedTrinomialMatchQ[u,x]]
-
-
-
-
-
-(* ::Section:: *)
-(*1.1.4 Improper Binomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.4.1 (a x^j+b x^n)^p*)
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^(p+1)/(b*(n-j)(p+1)*x^(n-1)) /;
-FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[j*p-n+j+1]
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
-  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
-FreeQ[{a,b,j,n},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(n*p+n-j+1)/(n-j)]] && RationalQ[p] && p<-1
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^(p+1)/(a*(j*p+1)*x^(j-1)) - 
-  b*(n*p+n-j+1)/(a*(j*p+1))*Int[x^(n-j)*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(n*p+n-j+1)/(n-j)]] && NeQ[j*p+1]
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  x*(a*x^j+b*x^n)^p/(j*p+1) - 
-  b*(n-j)*p/(j*p+1)*Int[x^n*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p>0 && j*p+1<0
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  x*(a*x^j+b*x^n)^p/(n*p+1) + 
-  a*(n-j)*p/(n*p+1)*Int[x^j*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p>0 && NeQ[n*p+1]
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^(p+1)/(b*(n-j)*(p+1)*x^(n-1)) - 
-  (j*p-n+j+1)/(b*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^n,x] /;
-FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p<-1 && j*p+1>n-j
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
-  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
-FreeQ[{a,b},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && p<-1
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  x*(a*x^j+b*x^n)^p/(p*(n-j)) + a*Int[x^j*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,j,n},x] && PositiveIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[j*p+1]]
-
-
-Int[1/Sqrt[a_.*x_^2+b_.*x_^n_.],x_Symbol] :=
-  2/(2-n)*Subst[Int[1/(1-a*x^2),x],x,x/Sqrt[a*x^2+b*x^n]] /;
-FreeQ[{a,b,n},x] && NeQ[n-2]
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)*x^(j-1)) + 
-  (n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(a*x^j+b*x^n)^(p+1)/x^j,x] /;
-FreeQ[{a,b,j,n},x] && NegativeIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[j*p+1]]
-
-
-Int[1/Sqrt[a_.*x_^j_.+b_.*x_^n_.],x_Symbol] :=
-  -2*Sqrt[a*x^j+b*x^n]/(b*(n-2)*x^(n-1)) - 
-  a*(2*n-j-2)/(b*(n-2))*Int[1/(x^(n-j)*Sqrt[a*x^j+b*x^n]),x] /;
-FreeQ[{a,b},x] && RationalQ[j,n] && 2*(n-1)<j<n
-
-
-(* Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  x*(a*x^j+b*x^n)^p/(p*(n-j)*((a*x^j+b*x^n)/(b*x^n))^p)*Hypergeometric2F1[-p,-p,1-p,-a/(b*x^(n-j))] /;
-FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[j*p+1] *)
-
-
-(* Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  x*(a*x^j+b*x^n)^p/((j*p+1)*((a*x^j+b*x^n)/(a*x^j))^p)*
-    Hypergeometric2F1[-p,(j*p+1)/(n-j),(j*p+1)/(n-j)+1,-b*x^(n-j)/a] /;
-FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NeQ[j*p+1] *)
-
-
-Int[(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^FracPart[p]/(x^(j*FracPart[p])*(a+b*x^(n-j))^FracPart[p])*Int[x^(j*p)*(a+b*x^(n-j))^p,x] /;
-FreeQ[{a,b,j,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && PosQ[n-j]
-
-
-Int[(a_.*u_^j_.+b_.*u_^n_.)^p_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a*x^j+b*x^n)^p,x],x,u] /;
-FreeQ[{a,b,j,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.4.2 (c x)^m (a x^j+b x^n)^p*)
-
-
-Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && EqQ[Simplify[m-n+1]]
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && EqQ[m+n*p+n-j+1] && (IntegerQ[j] || PositiveQ[c])
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
-  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,j,m,n},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]] && 
-  RationalQ[p] && p<-1 && (IntegerQ[j] || PositiveQ[c])
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(m+j*p+1)) - 
-  b*(m+n*p+n-j+1)/(a*c^(n-j)*(m+j*p+1))*Int[(c*x)^(m+n-j)*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]] && 
-  NeQ[m+j*p+1] && (IntegersQ[j,n] || PositiveQ[c])
-
-
-Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && NegativeIntegerQ[Simplify[(m+n*p+n-j+1)/(n-j)]]
-
-
-Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[(m+1)/n]] && 
-  NeQ[n^2-1]
-
-
-Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[(m+1)/n]] && 
-  NeQ[n^2-1]
-
-
-Int[(c_.*x_)^m_*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*(m+j*p+1)) - 
-  b*p*(n-j)/(c^n*(m+j*p+1))*Int[(c*x)^(m+n)*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c},x] && Not[IntegerQ[p]] && RationalQ[j,m,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p>0 && m+j*p+1<0
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*(m+n*p+1)) + 
-  a*(n-j)*p/(c^j*(m+n*p+1))*Int[(c*x)^(m+j)*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p>0 && NeQ[m+n*p+1]
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^(n-1)*(c*x)^(m-n+1)*(a*x^j+b*x^n)^(p+1)/(b*(n-j)*(p+1)) - 
-  c^n*(m+j*p-n+j+1)/(b*(n-j)*(p+1))*Int[(c*x)^(m-n)*(a*x^j+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c},x] && Not[IntegerQ[p]] && RationalQ[j,m,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p<-1 && m+j*p+1>n-j
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
-  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[p]] && RationalQ[j,n,p] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && p<-1
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^(n-1)*(c*x)^(m-n+1)*(a*x^j+b*x^n)^(p+1)/(b*(m+n*p+1)) - 
-  a*c^(n-j)*(m+j*p-n+j+1)/(b*(m+n*p+1))*Int[(c*x)^(m-(n-j))*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && Not[IntegerQ[p]] && RationalQ[j,n] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && PositiveQ[m+j*p+1-n+j] && 
-  NeQ[m+n*p+1]
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(m+j*p+1)) - 
-  b*(m+n*p+n-j+1)/(a*c^(n-j)*(m+j*p+1))*Int[(c*x)^(m+n-j)*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && Not[IntegerQ[p]] && RationalQ[j,n] && 0<j<n && (IntegersQ[j,n] || PositiveQ[c]) && NegativeQ[m+j*p+1]
-
-
-Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a*x^Simplify[j/(m+1)]+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && NeQ[m+1] && 
-  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && NeQ[m+1] && 
-  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (c*x)^(m+1)*(a*x^j+b*x^n)^p/(c*p*(n-j)) + a/c^j*Int[(c*x)^(m+j)*(a*x^j+b*x^n)^(p-1),x] /;
-FreeQ[{a,b,c,j,m,n},x] && PositiveIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]] && (IntegerQ[j] || PositiveQ[c])
-
-
-Int[x_^m_./Sqrt[a_.*x_^j_.+b_.*x_^n_.],x_Symbol] :=
-  -2/(n-j)*Subst[Int[1/(1-a*x^2),x],x,x^(j/2)/Sqrt[a*x^j+b*x^n]] /;
-FreeQ[{a,b,j,n},x] && EqQ[m-j/2+1] && NeQ[n-j]
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  -c^(j-1)*(c*x)^(m-j+1)*(a*x^j+b*x^n)^(p+1)/(a*(n-j)*(p+1)) + 
-  c^j*(m+n*p+n-j+1)/(a*(n-j)*(p+1))*Int[(c*x)^(m-j)*(a*x^j+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,c,j,m,n},x] && NegativeIntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]] && (IntegerQ[j] || PositiveQ[c])
-
-
-Int[(c_*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && IntegerQ[p+1/2] && NeQ[n-j] && EqQ[Simplify[m+j*p+1]]
-
-
-(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^(p+1)/(b*p*(n-j)*x^(n+j*p))*Hypergeometric2F1[1,1,1-p,-a/(b*x^(n-j))] /;
-FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && EqQ[m+j*p+1] *)
-
-
-(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^n)^(p+1)/(b*(p-1)*(n-j)*x^(2*n+j*(p-1)))*Hypergeometric2F1[1,2,2-p,-a/(b*x^(n-j))] /;
-FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && EqQ[m+n+(p-1)*j+1] *)
-
-
-(* Int[x_^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  (x^(m-j+1)*(a*x^j+b*x^n)^(p+1))/(a*(m+j*p+1))*Hypergeometric2F1[1,(m+n*p+1)/(n-j)+1,(m+j*p+1)/(n-j)+1,-b*x^(n-j)/a] /;
-FreeQ[{a,b,j,m,n,p},x] && NeQ[n-j] && NeQ[m+j*p+1] && NeQ[m+n+(p-1)*j+1] *)
-
-
-Int[(c_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^n_.)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]*(a*x^j+b*x^n)^FracPart[p]/
-    (x^(FracPart[m]+j*FracPart[p])*(a+b*x^(n-j))^FracPart[p])*
-    Int[x^(m+j*p)*(a+b*x^(n-j))^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && Not[IntegerQ[p]] && NeQ[n-j] && PosQ[n-j]
-
-
-Int[u_^m_.*(a_.*v_^j_.+b_.*v_^n_.)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a*x^j+b*x^n)^p,x],x,v] /;
-FreeQ[{a,b,j,m,n,p},x] && LinearPairQ[u,v,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.4.3 (e x)^m (a x^j+b x^k)^p (c+d x^n)^q*)
-
-
-Int[x_^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a*x^Simplify[j/n]+b*x^Simplify[k/n])^p*(c+d*x)^q,x],x,x^n] /;
-FreeQ[{a,b,c,d,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
-  IntegerQ[Simplify[(m+1)/n]] && NeQ[n^2-1]
-
-
-Int[(e_*x_)^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^k)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
-  IntegerQ[Simplify[(m+1)/n]] && NeQ[n^2-1]
-
-
-Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
-  c*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*(m+j*p+1)) /;
-FreeQ[{a,b,c,d,e,j,m,n,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && 
-  EqQ[a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1)] && (PositiveQ[e] || IntegersQ[j]) && NeQ[m+j*p+1]
-
-
-Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
-  -e^(j-1)*(b*c-a*d)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*b*n*(p+1)) - 
-  e^j*(a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(a*b*n*(p+1))*Int[(e*x)^(m-j)*(a*x^j+b*x^(j+n))^(p+1),x] /;
-FreeQ[{a,b,c,d,e,j,m,n},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && RationalQ[j,m,p] && p<-1 && 0<j<=m && 
-  (PositiveQ[e] || IntegerQ[j])
-
-
-Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
-  c*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(a*(m+j*p+1)) + 
-  (a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(a*e^n*(m+j*p+1))*Int[(e*x)^(m+n)*(a*x^j+b*x^(j+n))^p,x] /;
-FreeQ[{a,b,c,d,e,j,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && RationalQ[m,n] && n>0 && 
-  (m+j*p<-1 || IntegersQ[m-1/2,p-1/2] && p<0 && m<-n*p-1) && 
-  (PositiveQ[e] || IntegersQ[j,n]) && NeQ[m+j*p+1] && NeQ[m-n+j*p+1]
-
-
-Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.),x_Symbol] :=
-  d*e^(j-1)*(e*x)^(m-j+1)*(a*x^j+b*x^(j+n))^(p+1)/(b*(m+n+p*(j+n)+1)) - 
-  (a*d*(m+j*p+1)-b*c*(m+n+p*(j+n)+1))/(b*(m+n+p*(j+n)+1))*Int[(e*x)^m*(a*x^j+b*x^(j+n))^p,x] /;
-FreeQ[{a,b,c,d,e,j,m,n,p},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && 
-  NeQ[m+n+p*(j+n)+1] && (PositiveQ[e] || IntegerQ[j])
-
-
-Int[x_^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a*x^Simplify[j/(m+1)]+b*x^Simplify[k/(m+1)])^p*(c+d*x^Simplify[n/(m+1)])^q,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
-  NeQ[m+1] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_.*(a_.*x_^j_+b_.*x_^k_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a*x^j+b*x^k)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,j,k,m,n,p,q},x] && Not[IntegerQ[p]] && NeQ[k-j] && IntegerQ[Simplify[j/n]] && IntegerQ[Simplify[k/n]] && 
-  NeQ[m+1] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_.*x_)^m_.*(a_.*x_^j_.+b_.*x_^jn_.)^p_*(c_+d_.*x_^n_.)^q_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]*(a*x^j+b*x^(j+n))^FracPart[p]/
-    (x^(FracPart[m]+j*FracPart[p])*(a+b*x^n)^FracPart[p])*
-    Int[x^(m+j*p)*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,e,j,m,n,p,q},x] && EqQ[jn-j-n] && Not[IntegerQ[p]] && NeQ[b*c-a*d] && Not[EqQ[n-1] && EqQ[j-1]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.4.4 (c x)^m Pq(x) (a x^j+b x^n)^p*)
-
-
-Int[Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{d=Denominator[n]},
-  d*Subst[Int[x^(d-1)*ReplaceAll[SubstFor[x^n,Pq,x],x->x^(d*n)]*(a*x^(d*j)+b*x^(d*n))^p,x],x,x^(1/d)]] /;
-FreeQ[{a,b,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && RationalQ[j,n] && IntegerQ[j/n] && -1<n<1
-
-
-Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a*x^Simplify[j/n]+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(c_*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  c^(Sign[m]*Quotient[m,Sign[m]])*(c*x)^Mod[m,Sign[m]]/x^Mod[m,Sign[m]]*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[(m+1)/n]] && RationalQ[m] && m^2>1
-
-
-Int[(c_*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^m/x^m*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{g=GCD[m+1,n]},
-  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a*x^(j/g)+b*x^(n/g))^p,x],x,x^g] /;
- g!=1] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && PositiveIntegerQ[j,n,j/n] && IntegerQ[m]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    Pqq*(c*x)^(m+q-n+1)*(a*x^j+b*x^n)^(p+1)/(b*c^(q-n+1)*(m+q+n*p+1)) + 
-    Int[(c*x)^m*ExpandToSum[Pq-Pqq*x^q-a*Pqq*(m+q-n+1)*x^(q-n)/(b*(m+q+n*p+1)),x]*(a*x^j+b*x^n)^p,x]] /;
-  q>n-1 && m+q+n*p+1!=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
-FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && Not[IntegerQ[p]] && PositiveIntegerQ[j,n] && j<n
-
-
-Int[x_^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  1/(m+1)*Subst[
-    Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a*x^Simplify[j/(m+1)]+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_*x_)^m_*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  c^(Sign[m]*Quotient[m,Sign[m]])*(c*x)^Mod[m,Sign[m]]/x^Mod[m,Sign[m]]*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]] && RationalQ[m] && m^2>1
-
-
-Int[(c_*x_)^m_*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  (c*x)^m/x^m*Int[x^m*Pq*(a*x^j+b*x^n)^p,x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && PolyQ[Pq,x^n] && Not[IntegerQ[p]] && NeQ[n-j] && IntegerQ[Simplify[j/n]] && 
-  IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*Pq*(a*x^j+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,j,m,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n]) && Not[IntegerQ[p]] && NeQ[n-j]
-
-
-Int[Pq_*(a_.*x_^j_.+b_.*x_^n_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a*x^j+b*x^n)^p,x],x] /;
-FreeQ[{a,b,j,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n]) && Not[IntegerQ[p]] && NeQ[n-j]
-
-
-
-`)
+(* ::Subsubsection::Closed:: *)
+(*3.1.3 (d sin)^n (a+b sec)^m*)
 
-func resourcesRubi114ImproperBinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi114ImproperBinomialProductsM, nil
-}
 
-func resourcesRubi114ImproperBinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi114ImproperBinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Text:: *)
+(*(g Sin[e+f x])^p (a+b Sec[e+f x])^m == (g Cos[e-Pi/2+f x])^p (a-b Csc[e-Pi/2+f x])^m*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.1.4 Improper binomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi121QuadraticTrinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Quadratic Product Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.1 (a+b x+c x^2)^p*)
-
-
-Int[1/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (b/2+c*x)/Sqrt[a+b*x+c*x^2]*Int[1/(b/2+c*x),x] /;
-FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (b+2*c*x)*(a+b*x+c*x^2)^p/(2*c*(2*p+1)) /;
-FreeQ[{a,b,c,p},x] && EqQ[b^2-4*a*c,0] && NeQ[p,-1/2]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  1/c^p*Int[Simp[b/2-q/2+c*x,x]^p*Simp[b/2+q/2+c*x,x]^p,x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && IGtQ[p,0] && PerfectSquareQ[b^2-4*a*c]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && IGtQ[p,0] && Not[PerfectSquareQ[b^2-4*a*c]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (b+2*c*x)*(a+b*x+c*x^2)^p/(2*c*(2*p+1)) -
-  p*(b^2-4*a*c)/(2*c*(2*p+1))*Int[(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && GtQ[p,0] && IntegerQ[4*p]
-
-
-Int[1/(a_.+b_.*x_+c_.*x_^2)^(3/2),x_Symbol] :=
-  -2*(b+2*c*x)/((b^2-4*a*c)*Sqrt[a+b*x+c*x^2]) /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) -
-  2*c*(2*p+3)/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && NeQ[p,-3/2] && IntegerQ[4*p]
-
-
-Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  c/q*Int[1/Simp[b/2-q/2+c*x,x],x] - c/q*Int[1/Simp[b/2+q/2+c*x,x],x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && PosQ[b^2-4*a*c] && PerfectSquareQ[b^2-4*a*c]
-
-
-Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
-  With[{q=1-4*Simplify[a*c/b^2]},
-  -2/b*Subst[Int[1/(q-x^2),x],x,1+2*c*x/b] /;
- RationalQ[q] && (EqQ[q^2,1] || Not[RationalQ[b^2-4*a*c]])] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[1/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
-  -2*Subst[Int[1/Simp[b^2-4*a*c-x^2,x],x],x,b+2*c*x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  1/(2*c*(-4*c/(b^2-4*a*c))^p)*Subst[Int[Simp[1-x^2/(b^2-4*a*c),x]^p,x],x,b+2*c*x] /;
-FreeQ[{a,b,c,p},x] && PositiveQ[4*a-b^2/c]
-
-
-Int[1/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
-  2*Subst[Int[1/(1-c*x^2),x],x,x/Sqrt[b*x+c*x^2]] /;
-FreeQ[{b,c},x]
-
-
-Int[1/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
-  2*Subst[Int[1/(4*c-x^2),x],x,(b+2*c*x)/Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (b*x+c*x^2)^p/(-c*(b*x+c*x^2)/(b^2))^p*Int[(-c*x/b-c^2*x^2/b^2)^p,x] /;
-FreeQ[{b,c},x] && RationalQ[p] && 3<=Denominator[p]<=4
-
-
-(* Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^p/(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*Int[(-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c))^p,x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && 3<=Denominator[p]<=4 *)
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{d=Denominator[p]},
-  d*Sqrt[(b+2*c*x)^2]/(b+2*c*x)*Subst[Int[x^(d*(p+1)-1)/Sqrt[b^2-4*a*c+4*c*x^d],x],x,(a+b*x+c*x^2)^(1/d)] /;
- 3<=d<=4] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && RationalQ[p]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -(a+b*x+c*x^2)^(p+1)/(q*(p+1)*((q-b-2*c*x)/(2*q))^(p+1))*Hypergeometric2F1[-p,p+1,p+2,(b+q+2*c*x)/(2*q)]] /;
-FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[4*p]]
-
-
-Int[(a_.+b_.*u_+c_.*u_^2)^p_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p,x],x,u] /;
-FreeQ[{a,b,c,p},x] && LinearQ[u,x] && NeQ[u,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.2 (d+e x)^m (a+b x+c x^2)^p*)
-
-
-Int[(d_+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(p+1)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && IGtQ[p,0]
-
-
-Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && IGtQ[p,0]
-
-
-Int[(d_.+e_.*x_)/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (c*d-e*(b/2-q/2))/q*Int[1/(b/2-q/2+c*x),x] - (c*d-e*(b/2+q/2))/q*Int[1/(b/2+q/2+c*x),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NiceSqrtQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (e/2+c*d/(2*q))*Int[1/(-q+c*x),x] + (e/2-c*d/(2*q))*Int[1/(q+c*x),x]] /;
-FreeQ[{a,c,d,e},x] && NiceSqrtQ[-a*c]
-
-
-Int[(d_.+e_.*x_)/(a_+b_.*x_+c_.*x_^2),x_Symbol] :=
-(* (d-b*e/(2*c))*Int[1/(a+b*x+c*x^2),x] + *)
-  (2*c*d-b*e)/(2*c)*Int[1/(a+b*x+c*x^2),x] + e/(2*c)*Int[(b+2*c*x)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && Not[NiceSqrtQ[b^2-4*a*c]]
-
-
-Int[(d_+e_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  d*Int[1/(a+c*x^2),x] + e*Int[x/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e},x] && Not[NiceSqrtQ[-a*c]]
-
-
-Int[(d_.+e_.*x_)/(a_.+b_.*x_+c_.*x_^2)^(3/2),x_Symbol] :=
-  -2*(b*d-2*a*e+(2*c*d-b*e)*x)/((b^2-4*a*c)*Sqrt[a+b*x+c*x^2]) /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_)/(a_+c_.*x_^2)^(3/2),x_Symbol] :=
-  (-a*e+c*d*x)/(a*c*Sqrt[a+c*x^2]) /;
-FreeQ[{a,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (b*d-2*a*e+(2*c*d-b*e)*x)/((p+1)*(b^2-4*a*c))*(a+b*x+c*x^2)^(p+1) - 
-  (2*p+3)*(2*c*d-b*e)/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1]
-
-
-Int[(d_+e_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (a*e-c*d*x)/(2*a*c*(p+1))*(a+c*x^2)^(p+1) + 
-  d*(2*p+3)/(2*a*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && LtQ[p,-1]
-
-
-Int[(d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(a+b*x+c*x^2)^(p+1)/(2*c*(p+1)) + (2*c*d-b*e)/(2*c)*Int[(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p,-1]
-
-
-Int[(d_.+e_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  e*(a+c*x^2)^(p+1)/(2*c*(p+1)) + d*Int[(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,p},x] && NeQ[p,-1]
-
-
-Int[(d_+e_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^p/(d+e*x)^(2*p)*Int[(d+e*x)^(m+2*p),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(b/2+c*x)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && IntegerQ[m+p])
-
-
-(* Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(a+b*x+c*x^2)^(m+p),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]] *)
-
-
-(* Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(a+c*x^2)^(m+p),x] /;
-FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]] *)
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+p,0]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(p+1)) /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+p,0]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((p+1)*(2*c*d-b*e)) /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+2*p+2,0]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && EqQ[m+2*p+2,0]
-
-
-Int[(d_.+e_.*x_)^2*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - e^2*(p+2)/(c*(p+1))*Int[(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
-
-
-Int[(d_+e_.*x_)^2*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)*(a+c*x^2)^(p+1)/(c*(p+1)) - e^2*(p+2)/(c*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(a+b*x+c*x^2)^(m+p)/(a/d+c*x/e)^m,x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && IntegerQ[m] && 
-  RationalQ[p] && (0<-m<p || p<-m<0) && m!=2 && m!=-1
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  d^(2*m)/a^m*Int[(a+c*x^2)^(m+p)/(d-e*x)^m,x] /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && IntegerQ[m] && 
-  RationalQ[p] && (0<-m<p || p<-m<0) && m!=2 && m!=-1
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  Simplify[m+p]*(2*c*d-b*e)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && PositiveIntegerQ[Simplify[m+p]]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  2*c*d*Simplify[m+p]/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && PositiveIntegerQ[Simplify[m+p]]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((m+p+1)*(2*c*d-b*e)) + 
-  c*Simplify[m+2*p+2]/((m+p+1)*(2*c*d-b*e))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]] && 
-  NegativeIntegerQ[Simplify[m+2*p+2]]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
-  Simplify[m+2*p+2]/(2*d*(m+p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && NegativeIntegerQ[Simplify[m+2*p+2]]
-
-
-Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  2*e*Subst[Int[1/(2*c*d-b*e+e^2*x^2),x],x,Sqrt[a+b*x+c*x^2]/Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[1/(Sqrt[d_+e_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  2*e*Subst[Int[1/(2*c*d+e^2*x^2),x],x,Sqrt[a+c*x^2]/Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+p+1)) - 
-  c*p/(e^2*(m+p+1))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p>0 && 
-  (m<-2 || EqQ[m+2*p+1]) && NeQ[m+p+1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+p+1)) - 
-  c*p/(e^2*(m+p+1))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p>0 && 
-  (m<-2 || EqQ[m+2*p+1]) && NeQ[m+p+1] && IntegerQ[2*p]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
-  p*(2*c*d-b*e)/(e^2*(m+2*p+1))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p>0 && 
-  (-2<=m<0 || m+p+1==0) && NeQ[m+2*p+1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+2*p+1)) - 
-  2*c*d*p/(e^2*(m+2*p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p>0 && 
-  (-2<=m<0 || m+p+1==0) && NeQ[m+2*p+1] && IntegerQ[2*p]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (2*c*d-b*e)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) - 
-  (2*c*d-b*e)*(m+2*p+2)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && 0<m<=1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -d*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*a*e*(p+1)) + 
-  d*(m+2*p+2)/(2*a*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && 0<m<=1 && IntegerQ[2*p]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - 
-  e^2*(m+p)/(c*(p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(p+1)) - 
-  e^2*(m+p)/(c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  (m+p)*(2*c*d-b*e)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m>=1 && 
-  NeQ[m+2*p+1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  2*c*d*(m+p)/(c*(m+2*p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m] && m>=1 && NeQ[m+2*p+1] && IntegerQ[2*p]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((m+p+1)*(2*c*d-b*e)) + 
-  c*(m+2*p+2)/((m+p+1)*(2*c*d-b*e))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m<0 && NeQ[m+p+1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
-  (m+2*p+2)/(2*d*(m+p+1))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m] && m<0 && NeQ[m+p+1] && IntegerQ[2*p]
-
-
-Int[(e_.*x_)^m_*(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (e*x)^m*(b*x+c*x^2)^p/(x^(m+p)*(b+c*x)^p)*Int[x^(m+p)*(b+c*x)^p,x] /;
-FreeQ[{b,c,e,m},x] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]] && PositiveQ[a] && PositiveQ[d]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,m},x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]]
-
-
-Int[1/((d_+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  -4*b*c/(d*(b^2-4*a*c))*Int[1/(b+2*c*x),x] + 
-  b^2/(d^2*(b^2-4*a*c))*Int[(d+e*x)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  2*c*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && EqQ[m+2*p+3] && NeQ[p+1]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && PositiveIntegerQ[p] && Not[EqQ[m-3] && p!=1]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+1)) - 
-  b*p/(d*e*(m+1))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m,p] && p>0 && m<-1 && 
-  Not[EvenQ[m] && m+2*p+3<0] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
-  d*p*(b^2-4*a*c)/(b*e*(m+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[p] && p>0 && 
-  Not[RationalQ[m] && m<-1] && Not[PositiveIntegerQ[(m-1)/2] && (Not[IntegerQ[p]] || m<2*p)] && RationalQ[m] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  d*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(b*(p+1)) - 
-  d*e*(m-1)/(b*(p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m,p] && p<-1 && m>1 && 
-  IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  2*c*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(e*(p+1)*(b^2-4*a*c)) - 
-  2*c*e*(m+2*p+3)/(e*(p+1)*(b^2-4*a*c))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[p] && p<-1 && 
-  Not[RationalQ[m] && m>1] && RationalQ[m] && IntegerQ[2*p]
-
-
-Int[1/((d_+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  4*c*Subst[Int[1/(b^2*e-4*a*c*e+4*c*e*x^2),x],x,Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
-
-
-Int[1/(Sqrt[d_+e_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  4/e*Sqrt[-c/(b^2-4*a*c)]*Subst[Int[1/Sqrt[Simp[1-b^2*x^4/(d^2*(b^2-4*a*c)),x]],x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NegativeQ[c/(b^2-4*a*c)]
-
-
-Int[Sqrt[d_+e_.*x_]/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  4/e*Sqrt[-c/(b^2-4*a*c)]*Subst[Int[x^2/Sqrt[Simp[1-b^2*x^4/(d^2*(b^2-4*a*c)),x]],x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NegativeQ[c/(b^2-4*a*c)]
-
-
-Int[(d_+e_.*x_)^m_/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Sqrt[-c*(a+b*x+c*x^2)/(b^2-4*a*c)]/Sqrt[a+b*x+c*x^2]*
-    Int[(d+e*x)^m/Sqrt[-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c)],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && EqQ[m^2,1/4]
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  2*d*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(b*(m+2*p+1)) + 
-  d^2*(m-1)*(b^2-4*a*c)/(b^2*(m+2*p+1))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m] && m>1 && 
-  NeQ[m+2*p+1] && (IntegerQ[2*p] || IntegerQ[m] && RationalQ[p] || OddQ[m])
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -2*b*d*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(d^2*(m+1)*(b^2-4*a*c)) + 
-  b^2*(m+2*p+3)/(d^2*(m+1)*(b^2-4*a*c))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0] && NeQ[m+2*p+3] && RationalQ[m] && m<-1 && 
-  (IntegerQ[2*p] || IntegerQ[m] && RationalQ[p] || IntegerQ[(m+2*p+3)/2])
-
-
-Int[(d_+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  1/e*Subst[Int[x^m*(a-b^2/(4*c)+(c*x^2)/e^2)^p,x],x,d+e*x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[p] && Not[EqQ[m-1] && p>1] 
-
-
-(* Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[(c*d^2-b*d*e+a*e^2)/c,2]},
-  1/2*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x] + 
-  1/2*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  NegativeQ[b^2-4*a*c] *)
-
-
-(* Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[(c*d^2+a*e^2)/c,2]},
-  1/2*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x] + 
-  1/2*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeQ[-a*c] *)
-
-
-(* Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*d-b*e+e*q)/q*Int[1/(Sqrt[d+e*x]*(b-q+2*c*x)),x] - 
-  (2*c*d-b*e-e*q)/q*Int[1/(Sqrt[d+e*x]*(b+q+2*c*x)),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] (* && 
-  Not[NegativeQ[b^2-4*a*c]] *) *)
-
-
-(* Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (c*d+e*q)/(2*q)*Int[1/(Sqrt[d+e*x]*(-q+c*x)),x] - 
-  (c*d-e*q)/(2*q)*Int[1/(Sqrt[d+e*x]*(+q+c*x)),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] (* && Not[NegativeQ[-a*c]] *) *)
-
-
-Int[Sqrt[d_.+e_.*x_]/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  2*e*Subst[Int[x^2/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
-
-
-Int[Sqrt[d_+e_.*x_]/(a_+c_.*x_^2),x_Symbol] :=
-  2*e*Subst[Int[x^2/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[PolynomialDivide[(d+e*x)^m,a+b*x+c*x^2,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  IntegerQ[m] && m>1 && (NeQ[d] || m>2)
-
-
-Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
-  Int[PolynomialDivide[(d+e*x)^m,a+c*x^2,x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && IntegerQ[m] && m>1 && (NeQ[d] || m>2)
-
-
-Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m-1)/(c*(m-1)) + 
-  1/c*Int[(d+e*x)^(m-2)*Simp[c*d^2-a*e^2+e*(2*c*d-b*e)*x,x]/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[m] && m>1
-
-
-Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m-1)/(c*(m-1)) + 
-  1/c*Int[(d+e*x)^(m-2)*Simp[c*d^2-a*e^2+2*c*d*e*x,x]/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m] && m>1
-
-
-Int[1/((d_.+e_.*x_)*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  e^2/(c*d^2-b*d*e+a*e^2)*Int[1/(d+e*x),x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(c*d-b*e-c*e*x)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
-
-
-Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)),x_Symbol] :=
-  e^2/(c*d^2+a*e^2)*Int[1/(d+e*x),x] + 
-  1/(c*d^2+a*e^2)*Int[(c*d-c*e*x)/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-(* Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  With[{q=Rt[(c*d^2-b*d*e+a*e^2)/c,2]},
-  1/(2*q)*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x] - 
-  1/(2*q)*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+b*x+c*x^2)),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  NegativeQ[b^2-4*a*c] *)
-
-
-(* Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
-  With[{q=Rt[(c*d^2+a*e^2)/c,2]},
-  1/(2*q)*Int[(d+q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x] - 
-  1/(2*q)*Int[(d-q+e*x)/(Sqrt[d+e*x]*(a+c*x^2)),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeQ[-a*c] *)
-
-
-(* Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(Sqrt[d+e*x]*(b-q+2*c*x)),x] - 
-  2*c/q*Int[1/(Sqrt[d+e*x]*(b+q+2*c*x)),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] (* && 
-  Not[NegativeQ[b^2-4*a*c]] *) *)
-
-
-(* Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  c/(2*q)*Int[1/(Sqrt[d+e*x]*(-q+c*x)),x] - 
-  c/(2*q)*Int[1/(Sqrt[d+e*x]*(q+c*x)),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] (* && Not[NegativeQ[-a*c]] *) *)
-
-
-Int[1/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  2*e*Subst[Int[1/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e]
-
-
-Int[1/(Sqrt[d_+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
-  2*e*Subst[Int[1/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d-b*e-c*e*x,x]/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[m] && m<-1
-
-
-Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m+1)/((m+1)*(c*d^2+a*e^2)) + 
-  c/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(d-e*x)/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[m] && m<-1
-
-
-Int[(d_.+e_.*x_)^m_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m,1/(a+b*x+c*x^2),x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[m]]
-
-
-Int[(d_+e_.*x_)^m_/(a_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m,1/(a+c*x^2),x],x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]]
-
-
-Int[(d_.+e_.*x_)^m_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(d+e*x)^(m-p)*(a*d+c*e*x^3)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[b*d+a*e] && EqQ[c*d+b*e] && PositiveIntegerQ[m-p+1] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
-  Int[(d+e*x)^m/(Sqrt[b*x]*Sqrt[1+c/b*x]),x] /;
-FreeQ[{b,c,d,e},x] && NeQ[c*d-b*e] && NeQ[2*c*d-b*e] && RationalQ[m] && m^2==1/4 && NegativeQ[c] && RationalQ[b]
-
-
-Int[(d_.+e_.*x_)^m_/Sqrt[b_.*x_+c_.*x_^2],x_Symbol] :=
-  Sqrt[x]*Sqrt[b+c*x]/Sqrt[b*x+c*x^2]*Int[(d+e*x)^m/(Sqrt[x]*Sqrt[b+c*x]),x] /;
-FreeQ[{b,c,d,e},x] && NeQ[c*d-b*e] && NeQ[2*c*d-b*e] && RationalQ[m] && m^2==1/4
-
-
-Int[x_^m_/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
-  2*Subst[Int[x^(2*m+1)/Sqrt[a+b*x^2+c*x^4],x],x,Sqrt[x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0] && EqQ[m^2-1/4]
-
-
-Int[(e_*x_)^m_/Sqrt[a_+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (e*x)^m/x^m*Int[x^m/Sqrt[a+b*x+c*x^2], x] /;
-FreeQ[{a,b,c,e},x] && NeQ[b^2-4*a*c,0] && EqQ[m^2-1/4]
-
-
-Int[(d_.+e_.*x_)^m_/Sqrt[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  2*Rt[b^2-4*a*c,2]*(d+e*x)^m*Sqrt[-c*(a+b*x+c*x^2)/(b^2-4*a*c)]/
-    (c*Sqrt[a+b*x+c*x^2]*(2*c*(d+e*x)/(2*c*d-b*e-e*Rt[b^2-4*a*c,2]))^m)*
-    Subst[Int[(1+2*e*Rt[b^2-4*a*c,2]*x^2/(2*c*d-b*e-e*Rt[b^2-4*a*c,2]))^m/Sqrt[1-x^2],x],x,
-      Sqrt[(b+Rt[b^2-4*a*c,2]+2*c*x)/(2*Rt[b^2-4*a*c,2])]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m^2-1/4]
-
-
-Int[(d_+e_.*x_)^m_/Sqrt[a_+c_.*x_^2],x_Symbol] :=
-  2*a*Rt[-c/a,2]*(d+e*x)^m*Sqrt[1+c*x^2/a]/(c*Sqrt[a+c*x^2]*(c*(d+e*x)/(c*d-a*e*Rt[-c/a,2]))^m)*
-    Subst[Int[(1+2*a*e*Rt[-c/a,2]*x^2/(c*d-a*e*Rt[-c/a,2]))^m/Sqrt[1-x^2],x],x,Sqrt[(1-Rt[-c/a,2]*x)/2]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && EqQ[m^2-1/4]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^(m+1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^p/(2*(m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  p*(b^2-4*a*c)/(2*(m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  RationalQ[m,p] && m+2*p+2==0 && p>0
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^(m+1)*(-2*a*e+(2*c*d)*x)*(a+c*x^2)^p/(2*(m+1)*(c*d^2+a*e^2)) - 
-  4*a*c*p/(2*(m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && m+2*p+2==0 && p>0
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m-1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) - 
-  2*(2*p+3)*(c*d^2-b*d*e+a*e^2)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  RationalQ[m,p] && m+2*p+2==0 && p<-1
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m-1)*(a*e-c*d*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
-  (2*p+3)*(c*d^2+a*e^2)/(2*a*c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && m+2*p+2==0 && p<-1
-
-
-Int[1/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  -2*Subst[Int[1/(4*c*d^2-4*b*d*e+4*a*e^2-x^2),x],x,(2*a*e-b*d-(2*c*d-b*e)*x)/Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[2*c*d-b*e]
-
-
-Int[1/((d_+e_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  -Subst[Int[1/(c*d^2+a*e^2-x^2),x],x,(a*e-c*d*x)/Sqrt[a+c*x^2]] /;
-FreeQ[{a,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(b-Rt[b^2-4*a*c,2]+2*c*x)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^p/
-    ((m+1)*(2*c*d-b*e+e*Rt[b^2-4*a*c,2])*
-      ((2*c*d-b*e+e*Rt[b^2-4*a*c,2])*(b+Rt[b^2-4*a*c,2]+2*c*x)/((2*c*d-b*e-e*Rt[b^2-4*a*c,2])*(b-Rt[b^2-4*a*c,2]+2*c*x)))^p)*
-    Hypergeometric2F1[m+1,-p,m+2,-4*c*Rt[b^2-4*a*c,2]*(d+e*x)/((2*c*d-b*e-e*Rt[b^2-4*a*c,2])*(b-Rt[b^2-4*a*c,2]+2*c*x))] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]] && 
-  EqQ[m+2*p+2]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (Rt[-a*c,2]-c*x)*(d+e*x)^(m+1)*(a+c*x^2)^p/
-    ((m+1)*(c*d+e*Rt[-a*c,2])*((c*d+e*Rt[-a*c,2])*(Rt[-a*c,2]+c*x)/((c*d-e*Rt[-a*c,2])*(-Rt[-a*c,2]+c*x)))^p)*
-    Hypergeometric2F1[m+1,-p,m+2,2*c*Rt[-a*c,2]*(d+e*x)/((c*d-e*Rt[-a*c,2])*(Rt[-a*c,2]-c*x))] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
-  m*(2*c*d-b*e)/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m+2*p+3] && 
-  RationalQ[p] && p<-1
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^m*(2*c*x)*(a+c*x^2)^(p+1)/(4*a*c*(p+1)) - 
-  m*(2*c*d)/(4*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && EqQ[m+2*p+3] && RationalQ[p] && p<-1
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  (2*c*d-b*e)/(2*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && EqQ[m+2*p+3]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
-  c*d/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && EqQ[m+2*p+3]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+1)) - 
-  p/(e*(m+1))*Int[(d+e*x)^(m+1)*(b+2*c*x)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[p] && p>0 && 
-  (IntegerQ[p] || RationalQ[m] && m<-1) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+1)) - 
-  2*c*p/(e*(m+1))*Int[x*(d+e*x)^(m+1)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p>0 && 
-  (IntegerQ[p] || RationalQ[m] && m<-1) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e*(m+2*p+1)) - 
-  p/(e*(m+2*p+1))*Int[(d+e*x)^m*Simp[b*d-2*a*e+(2*c*d-b*e)*x,x]*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && RationalQ[p] && p>0 && 
-  NeQ[m+2*p+1] && (Not[RationalQ[m]] || m<1) && Not[NegativeIntegerQ[m+2*p]] && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+c*x^2)^p/(e*(m+2*p+1)) + 
-  2*p/(e*(m+2*p+1))*Int[(d+e*x)^m*Simp[a*e-c*d*x,x]*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p>0 && 
-  NeQ[m+2*p+1] && (Not[RationalQ[m]] || m<1) && Not[NegativeIntegerQ[m+2*p]] && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) - 
-  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(b*e*m+2*c*d*(2*p+3)+2*c*e*(m+2*p+3)*x)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  RationalQ[m,p] && p<-1 && m>0 && (m<1 || NegativeIntegerQ[m+2*p+3] && m!=2) && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -x*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*a*(p+1)) + 
-  1/(2*a*(p+1))*Int[(d+e*x)^(m-1)*(d*(2*p+3)+e*(m+2*p+3)*x)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && 
-  RationalQ[m,p] && p<-1 && m>0 && (m<1 || NegativeIntegerQ[m+2*p+3] && m!=2) && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m-1)*(d*b-2*a*e+(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
-  1/((p+1)*(b^2-4*a*c))*
-    Int[(d+e*x)^(m-2)*
-      Simp[e*(2*a*e*(m-1)+b*d*(2*p-m+4))-2*c*d^2*(2*p+3)+e*(b*e-2*d*c)*(m+2*p+2)*x,x]*
-      (a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  RationalQ[m,p] && p<-1 && m>1 && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m-1)*(a*e-c*d*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
-  1/((p+1)*(-2*a*c))*
-    Int[(d+e*x)^(m-2)*Simp[a*e^2*(m-1)-c*d^2*(2*p+3)-d*c*e*(m+2*p+2)*x,x]*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,p] && p<-1 && m>1 && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(b*c*d-b^2*e+2*a*c*e+c*(2*c*d-b*e)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*
-    Int[(d+e*x)^m*
-      Simp[b*c*d*e*(2*p-m+2)+b^2*e^2*(m+p+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3)-c*e*(2*c*d-b*e)*(m+2*p+4)*x,x]*
-      (a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  RationalQ[p] && p<-1 && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^(m+1)*(a*e+c*d*x)*(a+c*x^2)^(p+1)/(2*a*(p+1)*(c*d^2+a*e^2)) + 
-  1/(2*a*(p+1)*(c*d^2+a*e^2))*
-    Int[(d+e*x)^m*Simp[c*d^2*(2*p+3)+a*e^2*(m+2*p+3)+c*e*d*(m+2*p+4)*x,x]*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,m},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p<-1 && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  1/(c*(m+2*p+1))*
-    Int[(d+e*x)^(m-2)*
-      Simp[c*d^2*(m+2*p+1)-e*(a*e*(m-1)+b*d*(p+1))+e*(2*c*d-b*e)*(m+p)*x,x]*
-      (a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  If[RationalQ[m], m>1, SumSimplerQ[m,-2]] && NeQ[m+2*p+1] && IntQuadraticQ[a,b,c,d,e,m,p,x]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(a+c*x^2)^(p+1)/(c*(m+2*p+1)) + 
-  1/(c*(m+2*p+1))*
-    Int[(d+e*x)^(m-2)*Simp[c*d^2*(m+2*p+1)-a*e^2*(m-1)+2*c*d*e*(m+p)*x,x]*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && 
-  If[RationalQ[m], m>1, SumSimplerQ[m,-2]] && NeQ[m+2*p+1] && IntQuadraticQ[a,0,c,d,e,m,p,x]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((m+1)*(c*d^2-b*d*e+a*e^2))*
-    Int[(d+e*x)^(m+1)*Simp[c*d*(m+1)-b*e*(m+p+2)-c*e*(m+2*p+3)*x,x]*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && 
-  (RationalQ[m] && m<-1 && IntQuadraticQ[a,b,c,d,e,m,p,x] || 
-   SumSimplerQ[m,1] && IntegerQ[p] && NeQ[m+1] || 
-   NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1])
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
-  c/((m+1)*(c*d^2+a*e^2))*
-    Int[(d+e*x)^(m+1)*Simp[d*(m+1)-e*(m+2*p+3)*x,x]*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && 
-  (RationalQ[m] && m<-1 && IntQuadraticQ[a,0,c,d,e,m,p,x] || 
-   SumSimplerQ[m,1] && IntegerQ[p] && NeQ[m+1] || 
-   NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1])
-
-
-Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
-  With[{q=Rt[3*c*e^2*(2*c*d-b*e),3]},
-  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]+2*(c*d-b*e-c*e*x)/(Sqrt[3]*q*(a+b*x+c*x^2)^(1/3))]/q^2 - 
-  3*c*e*Log[d+e*x]/(2*q^2) + 
-  3*c*e*Log[c*d-b*e-c*e*x-q*(a+b*x+c*x^2)^(1/3)]/(2*q^2)] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e] && EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] && PosQ[c*e^2*(2*c*d-b*e)]
-
-
-Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/3)),x_Symbol] :=
-  With[{q=Rt[6*c^2*e^2/d^2,3]},
-  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]+2*c*(d-e*x)/(Sqrt[3]*d*q*(a+c*x^2)^(1/3))]/(d^2*q^2) - 
-  3*c*e*Log[d+e*x]/(2*d^2*q^2) + 
-  3*c*e*Log[c*d-c*e*x-d*q*(a+c*x^2)^(1/3)]/(2*d^2*q^2)] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2-3*a*e^2]
-
-
-Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
-  With[{q=Rt[-3*c*e^2*(2*c*d-b*e),3]},
-  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]-2*(c*d-b*e-c*e*x)/(Sqrt[3]*q*(a+b*x+c*x^2)^(1/3))]/q^2 - 
-  3*c*e*Log[d+e*x]/(2*q^2) + 
-  3*c*e*Log[c*d-b*e-c*e*x+q*(a+b*x+c*x^2)^(1/3)]/(2*q^2)] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e] && EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] && NegQ[c*e^2*(2*c*d-b*e)]
-
-
-(* Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/3)),x_Symbol] :=
-  With[{q=Rt[-6*c^2*d*e^2,3]},
-  -Sqrt[3]*c*e*ArcTan[1/Sqrt[3]-2*(c*d-c*e*x)/(Sqrt[3]*q*(a+c*x^2)^(1/3))]/q^2 - 
-  3*c*e*Log[d+e*x]/(2*q^2) + 
-  3*c*e*Log[c*d-c*e*x+q*(a+c*x^2)^(1/3)]/(2*q^2)] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2-3*a*e^2] && NegQ[c^2*d*e^2] *)
-
-
-Int[1/((d_.+e_.*x_)*(a_+b_.*x_+c_.*x_^2)^(1/3)),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (b+q+2*c*x)^(1/3)*(b-q+2*c*x)^(1/3)/(a+b*x+c*x^2)^(1/3)*Int[1/((d+e*x)*(b+q+2*c*x)^(1/3)*(b-q+2*c*x)^(1/3)),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && EqQ[c^2*d^2-b*c*d*e-2*b^2*e^2+9*a*c*e^2]
-
-
-Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(1/4)),x_Symbol] :=
-  d*Int[1/((d^2-e^2*x^2)*(a+c*x^2)^(1/4)),x] - e*Int[x/((d^2-e^2*x^2)*(a+c*x^2)^(1/4)),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[1/((d_+e_.*x_)*(a_+c_.*x_^2)^(3/4)),x_Symbol] :=
-  d*Int[1/((d^2-e^2*x^2)*(a+c*x^2)^(3/4)),x] - e*Int[x/((d^2-e^2*x^2)*(a+c*x^2)^(3/4)),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  1/(-4*c/(b^2-4*a*c))^p*Subst[Int[Simp[1-x^2/(b^2-4*a*c),x]^p/Simp[2*c*d-b*e+e*x,x],x],x,b+2*c*x] /;
-FreeQ[{a,b,c,d,e,p},x] && PositiveQ[4*a-b^2/c] && IntegerQ[4*p]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  (a+b*x+c*x^2)^p/(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*
-    Int[(-a*c/(b^2-4*a*c)-b*c*x/(b^2-4*a*c)-c^2*x^2/(b^2-4*a*c))^p/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e,p},x] && Not[PositiveQ[4*a-b^2/c]] && IntegerQ[4*p]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(d+e*x)^m*(Rt[a,2]+Rt[-c,2]*x)^p*(Rt[a,2]-Rt[-c,2]*x)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && PositiveQ[a] && NegativeQ[c]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -(1/(d+e*x))^(2*p)*(a+b*x+c*x^2)^p/(e*(e*(b-q+2*c*x)/(2*c*(d+e*x)))^p*(e*(b+q+2*c*x)/(2*c*(d+e*x)))^p)*
-    Subst[Int[x^(-m-2*(p+1))*Simp[1-(d-e*(b-q)/(2*c))*x,x]^p*Simp[1-(d-e*(b+q)/(2*c))*x,x]^p,x],x,1/(d+e*x)]] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]] && 
-  NegativeIntegerQ[m]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  -(1/(d+e*x))^(2*p)*(a+c*x^2)^p/(e*(-e*(q-c*x)/(c*(d+e*x)))^p*(e*(q+c*x)/(c*(d+e*x)))^p)*
-    Subst[Int[x^(-m-2*(p+1))*Simp[1-(d+e*q/c)*x,x]^p*Simp[1-(d-e*q/c)*x,x]^p,x],x,1/(d+e*x)]] /;
-FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && NegativeIntegerQ[m]
-
-
-Int[(d_.+e_.*x_)^m_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (a+b*x+c*x^2)^p/(e*(1-(d+e*x)/(d-e*(b-q)/(2*c)))^p*(1-(d+e*x)/(d-e*(b+q)/(2*c)))^p)*
-    Subst[Int[x^m*Simp[1-x/(d-e*(b-q)/(2*c)),x]^p*Simp[1-x/(d-e*(b+q)/(2*c)),x]^p,x],x,d+e*x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2] && NeQ[2*c*d-b*e] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (a+c*x^2)^p/(e*(1-(d+e*x)/(d+e*q/c))^p*(1-(d+e*x)/(d-e*q/c))^p)*
-    Subst[Int[x^m*Simp[1-x/(d+e*q/c),x]^p*Simp[1-x/(d-e*q/c),x]^p,x],x,d+e*x]] /;
-FreeQ[{a,c,d,e,m,p},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*u_)^m_.*(a_+b_.*u_+c_.*u_^2)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x],x,u] /;
-FreeQ[{a,b,c,d,e,m,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(d_.+e_.*u_)^m_.*(a_+c_.*u_^2)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(a+c*x^2)^p,x],x,u] /;
-FreeQ[{a,c,d,e,m,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-(* IntQuadraticQ[a,b,c,d,e,m,p,x] returns True iff (d+e*x)^m*(a+b*x+c*x^2)^p is integrable wrt x in terms of non-Appell functions. *)
-IntQuadraticQ[a_,b_,c_,d_,e_,m_,p_,x_] :=
-  IntegerQ[p] || PositiveIntegerQ[m] || IntegersQ[2*m,2*p] || IntegersQ[m,4*p] || 
-  IntegersQ[m,p+1/3] && (EqQ[c^2*d^2-b*c*d*e+b^2*e^2-3*a*c*e^2] || EqQ[c^2*d^2-b*c*d*e-2*b^2*e^2+9*a*c*e^2])
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.3 (d+e x)^m (f+g x) (a+b x+c x^2)^p*)
-
-
-Int[x_^n_.*(f_+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  f*Int[x^n*(a+c*x^2)^p,x] + g*Int[x^(n+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,f,g,p},x] && IntegerQ[n] && Not[IntegerQ[2*p]]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -f*g*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(b*(p+1)*(e*f-d*g)) /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[m+2*p+3,0] && EqQ[2*c*f-b*g,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (2*c*f-b*g)/(2*c*d-b*e)*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] - 
-  (e*f-d*g)/(2*c*d-b*e)*Int[(d+e*x)^m*(b+2*c*x)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b^2-4*a*c,0] && EqQ[m+2*p+3,0] && NeQ[2*c*f-b*g,0] && NeQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(2*c*(p+1)) - 
-  e*g*m/(2*c*(p+1))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[2*c*f-b*g,0] && LtQ[p,-1] && GtQ[m,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(f+g*x)*(b/2+c*x)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(f+g*x)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(f+g*x)*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && EqQ[c*d^2+a*e^2,0] && 
-  (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && EqQ[m+p,0])
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_.*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+b*x+c*x^2)^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[c*d^2-b*d*e+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_.*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+c*x^2)^(m+p),x] /;
-FreeQ[{a,c,d,e,f,g,n,p},x] && EqQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
-  EqQ[m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g),0]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && EqQ[m*(d*g+e*f)+2*e*f*(p+1),0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (g*(c*d-b*e)+c*e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(2*c*d-b*e)) - 
-  e*(m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*(p+1)*(2*c*d-b*e))*
-    Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d*g+e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) - 
-  e*(m*(d*g+e*f)+2*e*f*(p+1))/(2*c*d*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && EqQ[c*d^2+a*e^2,0] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (g*(c*d-b*e)+c*e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(2*c*d-b*e)) - 
-  e*(m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*(p+1)*(2*c*d-b*e))*
-    Int[(d+e*x)^Simplify[m-1]*(a+b*x+c*x^2)^Simplify[p+1],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
-  SumSimplerQ[p,1] && SumSimplerQ[m,-1] && NeQ[p+1]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d*g+e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(p+1)) - 
-  e*(m*(d*g+e*f)+2*e*f*(p+1))/(2*c*d*(p+1))*Int[(d+e*x)^Simplify[m-1]*(a+c*x^2)^Simplify[p+1],x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && SumSimplerQ[p,1] && SumSimplerQ[m,-1] && NeQ[p+1]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d*g-e*f)*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/((2*c*d-b*e)*(m+p+1)) + 
-  (m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(e*(2*c*d-b*e)*(m+p+1))*
-    Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && 
-  (RationalQ[m] && m<-1 && Not[PositiveIntegerQ[m+p+1]] || RationalQ[m,p] && m<0 && p<-1 || EqQ[m+2*p+2]) && NeQ[m+p+1]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d*g-e*f)*(d+e*x)^m*(a+c*x^2)^(p+1)/(2*c*d*(m+p+1)) + 
-  (m*(g*c*d+c*e*f)+2*e*c*f*(p+1))/(e*(2*c*d)*(m+p+1))*
-    Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && 
-  (RationalQ[m] && m<-1 && Not[PositiveIntegerQ[m+p+1]] || RationalQ[m,p] && m<0 && p<-1 || EqQ[m+2*p+2]) && NeQ[m+p+1]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
-  (m*(g*(c*d-b*e)+c*e*f)+e*(p+1)*(2*c*f-b*g))/(c*e*(m+2*p+2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && NeQ[m+2*p+2]
-
-
-Int[(d_+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
-  (m*(d*g+e*f)+2*e*f*(p+1))/(e*(m+2*p+2))*Int[(d+e*x)^m*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && EqQ[c*d^2+a*e^2,0] && NeQ[m+2*p+2]
-
-
-Int[x_^2*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  x^2*(a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) - 
-  1/(2*a*c*(p+1))*Int[x*Simp[2*a*g-c*f*(2*p+5)*x,x]*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,f,g},x] && EqQ[a*g^2+f^2*c] && RationalQ[p] && p<-2
-
-
-Int[x_^2*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  1/c*Int[(f+g*x)*(a+c*x^2)^(p+1),x] - f^2/c*Int[(a+c*x^2)^(p+1)/(f-g*x),x] /;
-FreeQ[{a,c,f,g,p},x] && EqQ[a*g^2+f^2*c]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && IGtQ[p,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && IGtQ[p,0]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)/(a+b*x+c*x^2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[m]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)/(a+c*x^2),x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && IntegerQ[m]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(2*(p+1)*(c*d^2-b*d*e+a*e^2)) /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  EqQ[Simplify[m+2*p+3]] && EqQ[b*(e*f+d*g)-2*(c*d*f+a*e*g)]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(2*(p+1)*(c*d^2+a*e^2)) /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[Simplify[m+2*p+3]] && EqQ[c*d*f+a*e*g]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(b*f-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) - 
-  m*(b*(e*f+d*g)-2*(c*d*f+a*e*g))/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  EqQ[Simplify[m+2*p+3]] && RationalQ[p] && p<-1 && Not[m==1 && (EqQ[d] || EqQ[2*c*d-b*e])]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) - 
-  m*(c*d*f+a*e*g)/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
-  EqQ[Simplify[m+2*p+3]] && RationalQ[p] && p<-1 && Not[m==1 && EqQ[d]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(2*(p+1)*(c*d^2-b*d*e+a*e^2)) - 
-  (b*(e*f+d*g)-2*(c*d*f+a*e*g))/(2*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  EqQ[Simplify[m+2*p+3]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(2*(p+1)*(c*d^2+a*e^2)) + 
-  (c*d*f+a*e*g)/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[Simplify[m+2*p+3]]
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(b*e*g*(p+2)-c*(e*f+d*g)*(2*p+3)-2*c*e*g*(p+1)*x)*(a+b*x+c*x^2)^(p+1)/(2*c^2*(p+1)*(2*p+3)) /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  EqQ[b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3)]
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  ((e*f+d*g)*(2*p+3)+2*e*g*(p+1)*x)*(a+c*x^2)^(p+1)/(2*c*(p+1)*(2*p+3)) /;
-FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && EqQ[a*e*g-c*d*f*(2*p+3)]
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g)-(b^2*e*g-b*c*(e*f+d*g)+2*c*(c*d*f-a*e*g))*x)*(a+b*x+c*x^2)^(p+1)/(c*(p+1)*(b^2-4*a*c)) - 
-  (b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3))/(c*(p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[p] && p<-1
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(c*d*f*x-a*(d*g+e*(f+g*x)))*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) - 
-  (a*e*g-c*d*f*(2*p+3))/(2*a*c*(p+1))*Int[(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[p] && p<-1
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(b*e*g*(p+2)-c*(e*f+d*g)*(2*p+3)-2*c*e*g*(p+1)*x)*(a+b*x+c*x^2)^(p+1)/(2*c^2*(p+1)*(2*p+3)) + 
-  (b^2*e*g*(p+2)-2*a*c*e*g+c*(2*c*d*f-b*(e*f+d*g))*(2*p+3))/(2*c^2*(2*p+3))*Int[(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && Not[RationalQ[p] && p<=-1]
-
-
-Int[(d_.+e_.*x_)*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  ((e*f+d*g)*(2*p+3)+2*e*g*(p+1)*x)*(a+c*x^2)^(p+1)/(2*c*(p+1)*(2*p+3)) - 
-  (a*e*g-c*d*f*(2*p+3))/(c*(2*p+3))*Int[(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && Not[RationalQ[p] && p<=-1]
-
-
-Int[(e_.*x_)^m_*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  f*Int[(e*x)^m*(a+c*x^2)^p,x] + g/e*Int[(e*x)^(m+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,e,f,g,p},x] && Not[RationalQ[m]] && Not[PositiveIntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(f+g*x)*(a*d+c*e*x^3)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[m-p] && EqQ[b*d+a*e] && EqQ[c*d+b*e]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(d+e*x)^(m+1)*(a+b*x+c*x^2)^p/(e^2*(m+1)*(m+2)*(c*d^2-b*d*e+a*e^2))*
-    ((d*g-e*f*(m+2))*(c*d^2-b*d*e+a*e^2)-d*p*(2*c*d-b*e)*(e*f-d*g)-e*(g*(m+1)*(c*d^2-b*d*e+a*e^2)+p*(2*c*d-b*e)*(e*f-d*g))*x) - 
-  p/(e^2*(m+1)*(m+2)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+2)*(a+b*x+c*x^2)^(p-1)*
-    Simp[2*a*c*e*(e*f-d*g)*(m+2)+b^2*e*(d*g*(p+1)-e*f*(m+p+2))+b*(a*e^2*g*(m+1)-c*d*(d*g*(2*p+1)-e*f*(m+2*p+2)))-
-      c*(2*c*d*(d*g*(2*p+1)-e*f*(m+2*p+2))-e*(2*a*e*g*(m+1)-b*(d*g*(m-2*p)+e*f*(m+2*p+2))))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  RationalQ[m,p] && p>0 && m<-2 && m+2*p<0 && Not[NegativeIntegerQ[m+2*p+3]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(d+e*x)^(m+1)*(a+c*x^2)^p/(e^2*(m+1)*(m+2)*(c*d^2+a*e^2))*
-    ((d*g-e*f*(m+2))*(c*d^2+a*e^2)-2*c*d^2*p*(e*f-d*g)-e*(g*(m+1)*(c*d^2+a*e^2)+2*c*d*p*(e*f-d*g))*x) - 
-  p/(e^2*(m+1)*(m+2)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+2)*(a+c*x^2)^(p-1)*
-    Simp[2*a*c*e*(e*f-d*g)*(m+2)-c*(2*c*d*(d*g*(2*p+1)-e*f*(m+2*p+2))-2*a*e^2*g*(m+1))*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
-  RationalQ[m,p] && p>0 && m<-2 && m+2*p<0 && Not[NegativeIntegerQ[m+2*p+3]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(e*f*(m+2*p+2)-d*g*(2*p+1)+e*g*(m+1)*x)*(a+b*x+c*x^2)^p/(e^2*(m+1)*(m+2*p+2)) + 
-  p/(e^2*(m+1)*(m+2*p+2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p-1)*
-    Simp[g*(b*d+2*a*e+2*a*e*m+2*b*d*p)-f*b*e*(m+2*p+2)+(g*(2*c*d+b*e+b*e*m+4*c*d*p)-2*c*e*f*(m+2*p+2))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[p] && p>0 && 
-  (RationalQ[m] && m<-1 || p==1 || IntegerQ[p] && Not[RationalQ[m]]) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && 
-  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(e*f*(m+2*p+2)-d*g*(2*p+1)+e*g*(m+1)*x)*(a+c*x^2)^p/(e^2*(m+1)*(m+2*p+2)) + 
-  p/(e^2*(m+1)*(m+2*p+2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^(p-1)*
-    Simp[g*(2*a*e+2*a*e*m)+(g*(2*c*d+4*c*d*p)-2*c*e*f*(m+2*p+2))*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[p] && p>0 && 
-  (RationalQ[m] && m<-1 || p==1 || IntegerQ[p] && Not[RationalQ[m]]) && NeQ[m+1] && Not[NegativeIntegerQ[m+2*p+1]] && 
-  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(c*e*f*(m+2*p+2)-g*(c*d+2*c*d*p-b*e*p)+g*c*e*(m+2*p+1)*x)*(a+b*x+c*x^2)^p/
-    (c*e^2*(m+2*p+1)*(m+2*p+2)) - 
-  p/(c*e^2*(m+2*p+1)*(m+2*p+2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p-1)*
-    Simp[c*e*f*(b*d-2*a*e)*(m+2*p+2)+g*(a*e*(b*e-2*c*d*m+b*e*m)+b*d*(b*e*p-c*d-2*c*d*p))+
-      (c*e*f*(2*c*d-b*e)*(m+2*p+2)+g*(b^2*e^2*(p+m+1)-2*c^2*d^2*(1+2*p)-c*e*(b*d*(m-2*p)+2*a*e*(m+2*p+1))))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  RationalQ[p] && p>0 && (IntegerQ[p] || Not[RationalQ[m]] || -1<=m<0) && Not[NegativeIntegerQ[m+2*p]] && 
-  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(c*e*f*(m+2*p+2)-g*c*d*(2*p+1)+g*c*e*(m+2*p+1)*x)*(a+c*x^2)^p/
-    (c*e^2*(m+2*p+1)*(m+2*p+2)) + 
-  2*p/(c*e^2*(m+2*p+1)*(m+2*p+2))*Int[(d+e*x)^m*(a+c*x^2)^(p-1)*
-    Simp[f*a*c*e^2*(m+2*p+2)+a*c*d*e*g*m-(c^2*f*d*e*(m+2*p+2)-g*(c^2*d^2*(2*p+1)+a*c*e^2*(m+2*p+1)))*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && 
-  RationalQ[p] && p>0 && (IntegerQ[p] || Not[RationalQ[m]] || -1<=m<0) && Not[NegativeIntegerQ[m+2*p]] && 
-  (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(a+b*x+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*(f+g*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && ILtQ[p,-1] && IGtQ[m,0] && RationalQ[a,b,c,d,e,f,g]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(a+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*(f+g*x),x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && ILtQ[p,-1] && IGtQ[m,0] && RationalQ[a,c,d,e,f,g]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  -(d+e*x)^(m-1)*(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g)-(2*c^2*d*f+b^2*e*g-c*(b*e*f+b*d*g+2*a*e*g))*x)*
-    (a+b*x+c*x^2)^(p+1)/(c*(p+1)*(b^2-4*a*c)) - 
-  1/(c*(p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-2)*(a+b*x+c*x^2)^(p+1)*
-    Simp[2*c^2*d^2*f*(2*p+3)+b*e*g*(a*e*(m-1)+b*d*(p+2))-c*(2*a*e*(e*f*(m-1)+d*g*m)+b*d*(d*g*(2*p+3)-e*f*(m-2*p-4))) + 
-      e*(b^2*e*g*(m+p+1)+2*c^2*d*f*(m+2*p+2)-c*(2*a*e*g*m+b*(e*f+d*g)*(m+2*p+2)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && GtQ[m,1] && 
-  (EqQ[m,2] && EqQ[p,-3] && RationalQ[a,b,c,d,e,f,g] || Not[ILtQ[m+2*p+3,0]])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^(m-1)*(2*a*(e*f+d*g)-(2*c*d*f-2*a*e*g)*x)*(a+c*x^2)^(p+1)/(4*a*c*(p+1)) - 
-  1/(4*a*c*(p+1))*Int[(d+e*x)^(m-2)*(a+c*x^2)^(p+1)*
-    Simp[2*a*e*(e*f*(m-1)+d*g*m)-2*c*d^2*f*(2*p+3)+e*(2*a*e*g*m-2*c*d*f*(m+2*p+2))*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && GtQ[m,1] && 
-  (EqQ[m,2] && EqQ[p,-3] && RationalQ[a,c,d,e,f,g] || Not[ILtQ[m+2*p+3,0]])
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(f*b-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) + 
-  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)*
-    Simp[g*(2*a*e*m+b*d*(2*p+3))-f*(b*e*m+2*c*d*(2*p+3))-e*(2*c*f-b*g)*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  RationalQ[m,p] && p<-1 && m>0 && Not[m==1 && SimplerQ[d+e*x,f+g*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) - 
-  1/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1)*Simp[a*e*g*m-c*d*f*(2*p+3)-c*e*f*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
-  RationalQ[m,p] && p<-1 && m>0 && Not[m==1 && SimplerQ[d+e*x,f+g*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^(m+1)*(f*(b*c*d-b^2*e+2*a*c*e)-a*g*(2*c*d-b*e)+c*(f*(2*c*d-b*e)-g*(b*d-2*a*e))*x)*(a+b*x+c*x^2)^(p+1)/
-    ((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
-    Simp[f*(b*c*d*e*(2*p-m+2)+b^2*e^2*(p+m+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3))-
-      g*(a*e*(b*e-2*c*d*m+b*e*m)-b*d*(3*c*d-b*e+2*c*d*p-b*e*p))+
-      c*e*(g*(b*d-2*a*e)-f*(2*c*d-b*e))*(m+2*p+4)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  RationalQ[p] && p<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^(m+1)*(f*a*c*e-a*g*c*d+c*(c*d*f+a*e*g)*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)*(c*d^2+a*e^2)) + 
-  1/(2*a*c*(p+1)*(c*d^2+a*e^2))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
-    Simp[f*(c^2*d^2*(2*p+3)+a*c*e^2*(m+2*p+3))-a*c*d*e*g*m+c*e*(c*d*f+a*e*g)*(m+2*p+4)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && 
-  RationalQ[p] && p<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  g*(d+e*x)^m/(c*m) + 
-  1/c*Int[(d+e*x)^(m-1)*Simp[c*d*f-a*e*g+(g*c*d-b*e*g+c*e*f)*x,x]/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && FractionQ[m] && m>0
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  g*(d+e*x)^m/(c*m) + 
-  1/c*Int[(d+e*x)^(m-1)*Simp[c*d*f-a*e*g+(g*c*d+c*e*f)*x,x]/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && FractionQ[m] && m>0
-
-
-Int[(f_.+g_.*x_)/(Sqrt[d_.+e_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  2*Subst[Int[(e*f-d*g+g*x^2)/(c*d^2-b*d*e+a*e^2-(2*c*d-b*e)*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[(f_.+g_.*x_)/(Sqrt[d_.+e_.*x_]*(a_+c_.*x_^2)),x_Symbol] :=
-  2*Subst[Int[(e*f-d*g+g*x^2)/(c*d^2+a*e^2-2*c*d*x^2+c*x^4),x],x,Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d*f-f*b*e+a*e*g-c*(e*f-d*g)*x,x]/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && FractionQ[m] && m<-1
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)/((m+1)*(c*d^2+a*e^2)) + 
-  1/(c*d^2+a*e^2)*Int[(d+e*x)^(m+1)*Simp[c*d*f+a*e*g-c*(e*f-d*g)*x,x]/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && NeQ[c*d^2+a*e^2,0] && FractionQ[m] && m<-1
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m,(f+g*x)/(a+b*x+c*x^2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && Not[RationalQ[m]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)/(a_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m,(f+g*x)/(a+c*x^2),x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2,0] && Not[RationalQ[m]]
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  g*(d+e*x)^m*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
-  1/(c*(m+2*p+2))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^p*
-    Simp[m*(c*d*f-a*e*g)+d*(2*c*f-b*g)*(p+1)+(m*(c*e*f+c*d*g-b*e*g)+e*(p+1)*(2*c*f-b*g))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && RationalQ[m] && m>0 && 
-  NeQ[m+2*p+2] && Not[m==1 && SimplerQ[f+g*x,d+e*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  g*(d+e*x)^m*(a+c*x^2)^(p+1)/(c*(m+2*p+2)) + 
-  1/(c*(m+2*p+2))*Int[(d+e*x)^(m-1)*(a+c*x^2)^p*
-    Simp[c*d*f*(m+2*p+2)-a*e*g*m+c*(e*f*(m+2*p+2)+d*g*m)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && RationalQ[m] && m>0 && 
-  NeQ[m+2*p+2] && Not[m==1 && SimplerQ[f+g*x,d+e*x]] && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
-    Simp[(c*d*f-f*b*e+a*e*g)*(m+1)+b*(d*g-e*f)*(p+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  RationalQ[m] && m<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
-  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*Simp[(c*d*f+a*e*g)*(m+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,p},x] && NeQ[c*d^2+a*e^2,0] && 
-  RationalQ[m] && m<-1 && (IntegerQ[m] || IntegerQ[p] || IntegersQ[2*m,2*p])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
-    Simp[(c*d*f-f*b*e+a*e*g)*(m+1)+b*(d*g-e*f)*(p+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && 
-  NegativeIntegerQ[Simplify[m+2*p+3]] && NeQ[m+1]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  (e*f-d*g)*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/((m+1)*(c*d^2+a*e^2)) + 
-  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*Simp[(c*d*f+a*e*g)*(m+1)-c*(e*f-d*g)*(m+2*p+3)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0] && NegativeIntegerQ[m+2*p+3] && NeQ[m+1]
-
-
-Int[(f_+g_.*x_)/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  4*f*(a-d)/(b*d-a*e)*Subst[Int[1/(4*(a-d)-x^2),x],x,(2*(a-d)+(b-e)*x)/Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[4*c*(a-d)-(b-e)^2] && EqQ[e*f*(b-e)-2*g*(b*d-a*e)] && NeQ[b*d-a*e]
-
-
-Int[(f_+g_.*x_)/(Sqrt[x_]*Sqrt[a_+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  2*Subst[Int[(f+g*x^2)/Sqrt[a+b*x^2+c*x^4],x],x,Sqrt[x]] /;
-FreeQ[{a,b,c,f,g},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(f_+g_.*x_)/(Sqrt[x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  2*Subst[Int[(f+g*x^2)/Sqrt[a+c*x^4],x],x,Sqrt[x]] /;
-FreeQ[{a,c,f,g},x]
-
-
-Int[(f_+g_.*x_)/(Sqrt[e_*x_]*Sqrt[a_+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  Sqrt[x]/Sqrt[e*x]*Int[(f+g*x)/(Sqrt[x]*Sqrt[a+b*x+c*x^2]),x] /;
-FreeQ[{a,b,c,e,f,g},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(f_+g_.*x_)/(Sqrt[e_*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  Sqrt[x]/Sqrt[e*x]*Int[(f+g*x)/(Sqrt[x]*Sqrt[a+c*x^2]),x] /;
-FreeQ[{a,c,e,f,g},x]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  g/e*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p,x] + (e*f-d*g)/e*Int[(d+e*x)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  g/e*Int[(d+e*x)^(m+1)*(a+c*x^2)^p,x] + (e*f-d*g)/e*Int[(d+e*x)^m*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[c*d^2+a*e^2,0]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.4 (d+e x)^m (f+g x)^n (a+b x+c x^2)^p*)
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/(c^IntPart[p]*(b/2+c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*(f+g*x)^n*(b/2+c*x)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  (IntegerQ[p] || PositiveQ[a] && PositiveQ[d] && EqQ[m+p])
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+b*x+c*x^2)^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  d^m*e^m*Int[(a*e+c*d*x)^(-m)*(f+g*x)^n*(a+c*x^2)^(m+p),x] /;
-FreeQ[{a,c,d,e,f,g,n,p},x] && EqQ[c*d^2+a*e^2] && NegativeIntegerQ[m] && Not[IntegerQ[2*p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(f+g*x)^n*(a+b*x+c*x^2)^(m+p)/(a/d+c*x/e)^m,x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
-  IntegersQ[m,n] && RationalQ[p] && (0<-m<p+1 || p<-m<0)
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  d^(2*m)/a^m*Int[(f+g*x)^n*(a+c*x^2)^(m+p)/(d-e*x)^m,x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
-  IntegersQ[m,n] && RationalQ[p] && (0<-m<p+1 || p<-m<0)
-
-
-Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  -(f+g*x)^n*(a+b*x+c*x^2)^p*(a*(2*c*d-b*e)+c*(b*d-2*a*e)*x)/(d*e*p*(b^2-4*a*c)) - 
-  1/(d*e*p*(b^2-4*a*c))*Int[(f+g*x)^(n-1)*(a+b*x+c*x^2)^p*
-    Simp[b*(a*e*g*n-c*d*f*(2*p+1))-2*a*c*(d*g*n-e*f*(2*p+1))-c*g*(b*d-2*a*e)*(n+2*p+1)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
-  PositiveIntegerQ[n] && NegativeIntegerQ[n+2*p]
-
-
-Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  (f+g*x)^n*(a+c*x^2)^p*(d-e*x)/(2*d*e*p) - 
-  1/(2*d*e*p)*Int[(f+g*x)^(n-1)*(a+c*x^2)^p*Simp[d*g*n-e*f*(2*p+1)-e*g*(n+2*p+1)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
-  PositiveIntegerQ[n] && NegativeIntegerQ[n+2*p]
-
-
-Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  -(f+g*x)^(n+1)*(a+b*x+c*x^2)^p*(a*c*d*(2*c*f-b*g)-a*e*(b*c*f-b^2*g+2*a*c*g)+c*(c*d*(b*f-2*a*g)-a*e*(2*c*f-b*g))*x)/
-    (d*e*p*(b^2-4*a*c)*(c*f^2-b*f*g+a*g^2)) - 
-  (1/(d*e*p*(b^2-4*a*c)*(c*f^2-b*f*g+a*g^2)))*Int[(f+g*x)^n*(a+b*x+c*x^2)^p*
-    Simp[b^2*g*(c*d*f*p-a*e*g*(n+p+1))+b*c*(a*g*(d*g*(n+1)+e*f*(n-2*p))-c*d*f^2*(2*p+1))+
-      2*a*c*(a*e*g^2*(n+2*p+1)+c*f*(e*f-d*g*n+2*e*f*p))+
-      c*g*(2*a*c*(e*f+d*g)-b*(c*d*f+a*e*g))*(n+2*p+2)*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
-  NegativeIntegerQ[n] && NegativeIntegerQ[n+2*p]
-
-
-Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  (f+g*x)^(n+1)*(a+c*x^2)^p*(c*d*f-a*e*g-c*(e*f+d*g)*x)/(2*d*e*p*(c*f^2+a*g^2)) + 
-  (1/(2*d*e*p*(c*f^2+a*g^2)))*Int[(f+g*x)^n*(a+c*x^2)^p*
-    Simp[(a*e*g^2*(n+2*p+1)-c*f*(d*g*n-e*(f+2*f*p)))+c*g*(e*f+d*g)*(n+2*p+2)*x,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && 
-  NegativeIntegerQ[n] && NegativeIntegerQ[n+2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(m-n-1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[c*e*f+c*d*g-b*e*g] && NeQ[m-n-1]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(m-n-1)) /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[e*f+d*g] && NeQ[m-n-1]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g-b*e*g)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[m-n-2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*(n+1)*(e*f+d*g)) /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && EqQ[m-n-2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p/(g*(n+1)) + 
-  c*m/(e*g*(n+1))*Int[(d+e*x)^(m+1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && n<-1 && Not[IntegerQ[n+p] && n+p+2<=0]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p/(g*(n+1)) + 
-  c*m/(e*g*(n+1))*Int[(d+e*x)^(m+1)*(f+g*x)^(n+1)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && n<-1 && Not[IntegerQ[n+p] && n+p+2<=0]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p/(g*(m-n-1)) - 
-  m*(c*e*f+c*d*g-b*e*g)/(e^2*g*(m-n-1))*Int[(d+e*x)^(m+1)*(f+g*x)^n*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && NeQ[m-n-1] && Not[PositiveIntegerQ[n]] && 
-  Not[IntegerQ[n+p] && n+p+2<0]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -(d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p/(g*(m-n-1)) - 
-  c*m*(e*f+d*g)/(e^2*g*(m-n-1))*Int[(d+e*x)^(m+1)*(f+g*x)^n*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p>0 && NeQ[m-n-1] && Not[PositiveIntegerQ[n]] && 
-  Not[IntegerQ[n+p] && n+p+2<0]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(p+1)) - 
-  e*g*n/(c*(p+1))*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1)*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1 && n>0
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(p+1)) - 
-  e*g*n/(c*(p+1))*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1)*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1 && n>0
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((p+1)*(c*e*f+c*d*g-b*e*g)) + 
-  e^2*g*(m-n-2)/((p+1)*(c*e*f+c*d*g-b*e*g))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*(p+1)*(e*f+d*g)) + 
-  e^2*g*(m-n-2)/(c*(p+1)*(e*f+d*g))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,f,g,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n,p] && p<-1
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^(p+1)/(c*(m-n-1)) - 
-  n*(c*e*f+c*d*g-b*e*g)/(c*e*(m-n-1))*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n>0 && NeQ[m-n-1] && (IntegerQ[2*p] || IntegerQ[n])
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e*(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^(p+1)/(c*(m-n-1)) - 
-  n*(e*f+d*g)/(e*(m-n-1))*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n>0 && NeQ[m-n-1] && (IntegerQ[2*p] || IntegerQ[n])
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g-b*e*g)) - 
-  c*e*(m-n-2)/((n+1)*(c*e*f+c*d*g-b*e*g))*Int[(d+e*x)^m*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n<-1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  -e^2*(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/((n+1)*(c*e*f+c*d*g)) - 
-  e*(m-n-2)/((n+1)*(e*f+d*g))*Int[(d+e*x)^m*(f+g*x)^(n+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p] && RationalQ[n] && n<-1 && IntegerQ[2*p]
-
-
-Int[Sqrt[d_+e_.*x_]/((f_.+g_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  2*e^2*Subst[Int[1/(c*(e*f+d*g)-b*e*g+e^2*g*x^2),x],x,Sqrt[a+b*x+c*x^2]/Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[Sqrt[d_+e_.*x_]/((f_.+g_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  2*e^2*Subst[Int[1/(c*(e*f+d*g)+e^2*g*x^2),x],x,Sqrt[a+c*x^2]/Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(c*g*(n+p+2)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && EqQ[b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3)] && NeQ[n+p+2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+p+2)) /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && EqQ[e*f*(p+1)-d*g*(2*n+p+3)] && NeQ[n+p+2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(e*f-d*g)*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(g*(n+1)*(c*e*f+c*d*g-b*e*g)) - 
-  e*(b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3))/(g*(n+1)*(c*e*f+c*d*g-b*e*g))*
-    Int[(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && RationalQ[n] && n<-1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(e*f-d*g)*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+1)*(e*f+d*g)) - 
-  e*(e*f*(p+1)-d*g*(2*n+p+3))/(g*(n+1)*(e*f+d*g))*Int[(d+e*x)^(m-1)*(f+g*x)^(n+1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && RationalQ[n] && n<-1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p+1)/(c*g*(n+p+2)) - 
-  (b*e*g*(n+1)+c*e*f*(p+1)-c*d*g*(2*n+p+3))/(c*g*(n+p+2))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && Not[RationalQ[n] && n<-1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  e^2*(d+e*x)^(m-2)*(f+g*x)^(n+1)*(a+c*x^2)^(p+1)/(c*g*(n+p+2)) - 
-  (e*f*(p+1)-d*g*(2*n+p+3))/(g*(n+p+2))*Int[(d+e*x)^(m-1)*(f+g*x)^n*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[p]] && EqQ[m+p-1] && Not[RationalQ[n] && n<-1] && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[p]] && (PositiveIntegerQ[m] || IntegersQ[m,n])
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[1/Sqrt[a+c*x^2],(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && IntegerQ[p-1/2] && IntegersQ[m,n] && Not[m<0 && p<0] && p!=1/2
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,f,g,n,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && (PositiveIntegerQ[m] || IntegersQ[m,n])
-
-
-Int[x_^2*(a_.+b_.*x_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  d^2/e^2*Int[(a+b*x+c*x^2)^p/(d+e*x),x] - 1/e^2*Int[(d-e*x)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[x_^2*(a_+c_.*x_^2)^p_/(d_+e_.*x_),x_Symbol] :=
-  d^2/e^2*Int[(a+c*x^2)^p/(d+e*x),x] - 1/e^2*Int[(d-e*x)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,p},x] && EqQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^2*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(f+g*x)*(a+b*x+c*x^2)^(p+1)/(c*(m+2*p+3)) - 
-  1/(c*e^2*(m+2*p+3))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*
-    Simp[b*e*g*(d*g+e*f*(m+p+1))-c*(d^2*g^2+d*e*f*g*m+e^2*f^2*(m+2*p+3))+
-      e*g*(b*e*g*(m+p+2)-c*(d*g*m+e*f*(m+2*p+4)))*x,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]] && 
-  NeQ[m+2*p+3]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^2*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  g*(d+e*x)^m*(f+g*x)*(a+c*x^2)^(p+1)/(c*(m+2*p+3)) - 
-  1/(c*e^2*(m+2*p+3))*Int[(d+e*x)^m*(a+c*x^2)^p*
-    Simp[-c*(d^2*g^2+d*e*f*g*m+e^2*f^2*(m+2*p+3))-c*e*g*(d*g*m+e*f*(m+2*p+4))*x,x],x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && NeQ[m+2*p+3]
-
-
-Int[(e_.*x_)^m_*(f_.+g_.*x_)^n_*(b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (e*x)^m*(b*x+c*x^2)^p/(x^(m+p)*(b+c*x)^p)*Int[x^(m+p)*(f+g*x)^n*(b+c*x)^p,x] /;
-FreeQ[{b,c,e,f,g,m,n},x] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]] && PositiveQ[a] && PositiveQ[d]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-(*(a+b*x+c*x^2)^p/((d+e*x)^p*(a*e+c*d*x)^p)*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a*e+c*d*x)^p,x] /; *)
-  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(f+g*x)^n*(a/d+c/e*x)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[e*f-d*g] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegersQ[m,n,p]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && IntegersQ[m,n,p]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_/((d_.+e_.*x_)*(f_.+g_.*x_)),x_Symbol] :=
-  (c*d^2-b*d*e+a*e^2)/(e*(e*f-d*g))*Int[(a+b*x+c*x^2)^(p-1)/(d+e*x),x] - 
-  1/(e*(e*f-d*g))*Int[Simp[c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x,x]*(a+b*x+c*x^2)^(p-1)/(f+g*x),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && FractionQ[p] && p>0
-
-
-Int[(a_+c_.*x_^2)^p_/((d_.+e_.*x_)*(f_.+g_.*x_)),x_Symbol] :=
-  (c*d^2+a*e^2)/(e*(e*f-d*g))*Int[(a+c*x^2)^(p-1)/(d+e*x),x] - 
-  1/(e*(e*f-d*g))*Int[Simp[c*d*f+a*e*g-c*(e*f-d*g)*x,x]*(a+c*x^2)^(p-1)/(f+g*x),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && FractionQ[p] && p>0
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{q=Denominator[m]},
-  q/e*Subst[Int[x^(q*(m+1)-1)*((e*f-d*g)/e+g*x^q/e)^n*
-    ((c*d^2-b*d*e+a*e^2)/e^2-(2*c*d-b*e)*x^q/e^2+c*x^(2*q)/e^2)^p,x],x,(d+e*x)^(1/q)]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegersQ[n,p] && FractionQ[m]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{q=Denominator[m]},
-  q/e*Subst[Int[x^(q*(m+1)-1)*((e*f-d*g)/e+g*x^q/e)^n*((c*d^2+a*e^2)/e^2-2*c*d*x^q/e^2+c*x^(2*q)/e^2)^p,x],x,(d+e*x)^(1/q)]] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && IntegersQ[n,p] && FractionQ[m]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d*f+e*g*x^2)^m*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(a_.+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(d*f+e*g*x^2)^m*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && EqQ[m-n] && EqQ[e*f+d*g]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[(a+b*x)*(d+e*x)^m*(f+g*x)^n,x] + c*Int[x^2*(d+e*x)^m*(f+g*x)^n,x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[m,n]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2),x_Symbol] :=
-  a*Int[(d+e*x)^m*(f+g*x)^n,x] + c*Int[x^2*(d+e*x)^m*(f+g*x)^n,x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && RationalQ[m,n]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  g/c^2*Int[Simp[2*c*e*f+c*d*g-b*e*g+c*e*g*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2),x] + 
-  1/c^2*Int[Simp[c^2*d*f^2-2*a*c*e*f*g-a*c*d*g^2+a*b*e*g^2+(c^2*e*f^2+2*c^2*d*f*g-2*b*c*e*f*g-b*c*d*g^2+b^2*e*g^2-a*c*e*g^2)*x,x]*
-    (d+e*x)^(m-1)*(f+g*x)^(n-2)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>1
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
-  g/c*Int[Simp[2*e*f+d*g+e*g*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2),x] + 
-  1/c*Int[Simp[c*d*f^2-2*a*e*f*g-a*d*g^2+(c*e*f^2+2*c*d*f*g-a*e*g^2)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-2)/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>1
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*g/c*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1),x] + 
-  1/c*Int[Simp[c*d*f-a*e*g+(c*e*f+c*d*g-b*e*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-1)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>0
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
-  e*g/c*Int[(d+e*x)^(m-1)*(f+g*x)^(n-1),x] + 
-  1/c*Int[Simp[c*d*f-a*e*g+(c*e*f+c*d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n-1)/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n>0
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  -g*(e*f-d*g)/(c*f^2-b*f*g+a*g^2)*Int[(d+e*x)^(m-1)*(f+g*x)^n,x] + 
-  1/(c*f^2-b*f*g+a*g^2)*
-    Int[Simp[c*d*f-b*d*g+a*e*g+c*(e*f-d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n+1)/(a+b*x+c*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
-  -g*(e*f-d*g)/(c*f^2+a*g^2)*Int[(d+e*x)^(m-1)*(f+g*x)^n,x] + 
-  1/(c*f^2+a*g^2)*
-    Int[Simp[c*d*f+a*e*g+c*(e*f-d*g)*x,x]*(d+e*x)^(m-1)*(f+g*x)^(n+1)/(a+c*x^2),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(d_.+e_.*x_)^m_/(Sqrt[f_.+g_.*x_]*(a_.+b_.*x_+c_.*x_^2)),x_Symbol] :=
-  Int[ExpandIntegrand[1/(Sqrt[d+e*x]*Sqrt[f+g*x]),(d+e*x)^(m+1/2)/(a+b*x+c*x^2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[m+1/2]
-
-
-Int[(d_.+e_.*x_)^m_/(Sqrt[f_.+g_.*x_]*(a_.+c_.*x_^2)),x_Symbol] :=
-  Int[ExpandIntegrand[1/(Sqrt[d+e*x]*Sqrt[f+g*x]),(d+e*x)^(m+1/2)/(a+c*x^2),x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[m+1/2]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n,1/(a+b*x+c*x^2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_/(a_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n,1/(a+c*x^2),x],x] /;
-FreeQ[{a,c,d,e,f,g,m,n},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  (IntegerQ[p] || IntegersQ[m,n])
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && (IntegerQ[p] || IntegersQ[m,n])
-
-
-Int[(g_.*x_)^n_*(d_.+e_.*x_)^m_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(a+b*x+c*x^2)^FracPart[p]/(a*d+c*e*x^3)^FracPart[p]*Int[(g*x)^n*(a*d+c*e*x^3)^p,x] /;
-FreeQ[{a,b,c,d,e,g,m,n,p},x] && EqQ[m-p] && EqQ[b*d+a*e] && EqQ[c*d+b*e]
-
-
-Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  (c*d^2-b*d*e+a*e^2)/(e*(e*f-d*g))*Int[(f+g*x)^(n+1)*(a+b*x+c*x^2)^(p-1)/(d+e*x),x] - 
-  1/(e*(e*f-d*g))*Int[(f+g*x)^n*(c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x)*(a+b*x+c*x^2)^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p>0 && n<-1
-
-
-Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  (c*d^2+a*e^2)/(e*(e*f-d*g))*Int[(f+g*x)^(n+1)*(a+c*x^2)^(p-1)/(d+e*x),x] - 
-  1/(e*(e*f-d*g))*Int[(f+g*x)^n*(c*d*f+a*e*g-c*(e*f-d*g)*x)*(a+c*x^2)^(p-1),x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p>0 && n<-1
-
-
-Int[(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  e*(e*f-d*g)/(c*d^2-b*d*e+a*e^2)*Int[(f+g*x)^(n-1)*(a+b*x+c*x^2)^(p+1)/(d+e*x),x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(f+g*x)^(n-1)*(c*d*f-b*e*f+a*e*g-c*(e*f-d*g)*x)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p<-1 && n>0
-
-
-Int[(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_/(d_.+e_.*x_),x_Symbol] :=
-  e*(e*f-d*g)/(c*d^2+a*e^2)*Int[(f+g*x)^(n-1)*(a+c*x^2)^(p+1)/(d+e*x),x] + 
-  1/(c*d^2+a*e^2)*Int[(f+g*x)^(n-1)*(c*d*f+a*e*g-c*(e*f-d*g)*x)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && 
-  Not[IntegerQ[n]] && Not[IntegerQ[p]] && RationalQ[n,p] && p<-1 && n>0
-
-
-Int[1/((d_.+e_.*x_)*Sqrt[f_.+g_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -2*Sqrt[-g*(b-q+2*c*x)/(2*c*f-b*g+g*q)]*Sqrt[-g*(b+q+2*c*x)/(2*c*f-b*g-g*q)]/
-    ((e*f-d*g)*Sqrt[2*c/(2*c*f-b*g+g*q)]*Sqrt[a+b*x+c*x^2])*
-    EllipticPi[e*(2*c*f-b*g+g*q)/(2*c*(e*f-d*g)),ArcSin[Sqrt[2*c/(2*c*f-b*g+g*q)]*Sqrt[f+g*x]],(2*c*f-b*g+g*q)/(2*c*f-b*g-g*q)]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[1/((d_.+e_.*x_)*Sqrt[f_.+g_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  -2*Sqrt[g*(q-c*x)/(c*f+g*q)]*Sqrt[-g*(q+c*x)/(c*f-g*q)]/((e*f-d*g)*Sqrt[c/(c*f+g*q)]*Sqrt[a+c*x^2])*
-    EllipticPi[e*(c*f+g*q)/(c*(e*f-d*g)),ArcSin[Sqrt[c/(c*f+g*q)]*Sqrt[f+g*x]],(c*f+g*q)/(c*f-g*q)]] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2]
-
-
-Int[(f_.+g_.*x_)^n_/((d_.+e_.*x_)*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  Int[ExpandIntegrand[1/(Sqrt[f+g*x]*Sqrt[a+b*x+c*x^2]),(f+g*x)^(n+1/2)/(d+e*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[n+1/2]
-
-
-Int[(f_.+g_.*x_)^n_/((d_.+e_.*x_)*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  Int[ExpandIntegrand[1/(Sqrt[f+g*x]*Sqrt[a+c*x^2]),(f+g*x)^(n+1/2)/(d+e*x),x],x] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && IntegerQ[n+1/2]
-
-
-Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[f_.+g_.*x_]*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  -2*(d+e*x)*Sqrt[(e*f-d*g)^2*(a+b*x+c*x^2)/((c*f^2-b*f*g+a*g^2)*(d+e*x)^2)]/((e*f-d*g)*Sqrt[a+b*x+c*x^2])*
-  Subst[
-    Int[1/Sqrt[1-(2*c*d*f-b*e*f-b*d*g+2*a*e*g)*x^2/(c*f^2-b*f*g+a*g^2)+(c*d^2-b*d*e+a*e^2)*x^4/(c*f^2-b*f*g+a*g^2)],x],
-    x,
-    Sqrt[f+g*x]/Sqrt[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[1/(Sqrt[d_.+e_.*x_]*Sqrt[f_.+g_.*x_]*Sqrt[a_+c_.*x_^2]),x_Symbol] :=
-  -2*(d+e*x)*Sqrt[(e*f-d*g)^2*(a+c*x^2)/((c*f^2+a*g^2)*(d+e*x)^2)]/((e*f-d*g)*Sqrt[a+c*x^2])*
-  Subst[
-    Int[1/Sqrt[1-(2*c*d*f+2*a*e*g)*x^2/(c*f^2+a*g^2)+(c*d^2+a*e^2)*x^4/(c*f^2+a*g^2)],x],x,Sqrt[f+g*x]/Sqrt[d+e*x]] /;
-FreeQ[{a,c,d,e,f,g},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2]
-
-
-Int[(e_.*x_)^m_*(f_+g_.*x_)^2*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  2*f*g/e*Int[(e*x)^(m+1)*(a+c*x^2)^p,x] + Int[(e*x)^m*(f^2+g^2*x^2)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,e,f,g,m,p},x]
-
-
-Int[(e_.*x_)^m_*(f_+g_.*x_)^3*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  f*Int[(e*x)^m*(f^2+3*g^2*x^2)*(a+c*x^2)^p,x] + g/e*Int[(e*x)^(m+1)*(3*f^2+g^2*x^2)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,e,f,g,m,p},x]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  g/e*Int[(d+e*x)^(m+1)*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] + 
-  (e*f-d*g)/e*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  g/e*Int[(d+e*x)^(m+1)*(f+g*x)^(n-1)*(a+c*x^2)^p,x] + 
-  (e*f-d*g)/e*Int[(d+e*x)^m*(f+g*x)^(n-1)*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,p},x] && NeQ[e*f-d*g] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-Int[(d_.+e_.*x_)^m_*(f_.+g_.*x_)^n_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x]
-
-
-Int[(d_.+e_.*u_)^m_.*(f_.+g_.*u_)^n_.*(a_+b_.*u_+c_.*u_^2)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(f+g*x)^n*(a+b*x+c*x^2)^p,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(d_.+e_.*u_)^m_.*(f_.+g_.*u_)^n_.*(a_+c_.*u_^2)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x)^m*(f+g*x)^n*(a+c*x^2)^p,x],x,u] /;
-FreeQ[{a,c,d,e,f,g,m,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.5 (a+b x+c x^2)^p (d+e x+f x^2)^q*)
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
-  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
-  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
-  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_.,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_.,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,f,p,q},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  1/(2^(2*p+2*q+1)*c*(-c/(b^2-4*a*c))^p*(-f/(e^2-4*d*f))^q)*
-    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && 
-  (IntegerQ[p] || PositiveQ[-c/(b^2-4*a*c)]) && (IntegerQ[q] || PositiveQ[-f/(e^2-4*d*f)]) *)
-
-
-(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (d+e*x+f*x^2)^q/(2^(2*p+2*q+1)*c*(-c/(b^2-4*a*c))^p*(-f*(d+e*x+f*x^2)/(e^2-4*d*f))^q)*
-    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && 
-  (IntegerQ[p] || PositiveQ[-c/(b^2-4*a*c)]) && Not[IntegerQ[q] || PositiveQ[-f/(e^2-4*d*f)]] *)
-
-
-(* Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q/(2^(2*p+2*q+1)*c*(-c*(a+b*x+c*x^2)/(b^2-4*a*c))^p*(-f*(d+e*x+f*x^2)/(e^2-4*d*f))^q)*
-    Subst[Int[(1-x^2/(b^2-4*a*c))^p*(1+e*x^2/(b*(4*c*d-b*e)))^q,x],x,b+2*c*x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] *)
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
-  (1/((b^2-4*a*c)*(p+1)))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[2*c*d*(2*p+3)+b*e*q+(2*b*f*q+2*c*e*(2*p+q+3))*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  (b+2*c*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
-  (1/((b^2-4*a*c)*(p+1)))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
-      Simp[2*c*d*(2*p+3)+(2*b*f*q)*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (2*c*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((-4*a*c)*(p+1)) - 
-  (1/((-4*a*c)*(p+1)))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[2*c*d*(2*p+3)+(2*c*e*(2*p+q+3))*x+2*c*f*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (2*a*c^2*e-b^2*c*e+b^3*f+b*c*(c*d-3*a*f)+c*(2*c^2*d+b^2*f-c*(b*e+2*a*f))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/
-    ((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)) - 
-  (1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[2*c*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)-
-        (2*c^2*d+b^2*f-c*(b*e+2*a*f))*(a*f*(p+1)-c*d*(p+2))-
-        e*(b^2*c*e-2*a*c^2*e-b^3*f-b*c*(c*d-3*a*f))*(p+q+2)+
-       (2*f*(2*a*c^2*e-b^2*c*e+b^3*f+b*c*(c*d-3*a*f))*(p+q+2)-(2*c^2*d+b^2*f-c*(b*e+2*a*f))*(b*f*(p+1)-c*e*(2*p+q+4)))*x+
-       c*f*(2*c^2*d+b^2*f-c*(b*e+2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
-  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  (b^3*f+b*c*(c*d-3*a*f)+c*(2*c^2*d+b^2*f-c*(2*a*f))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/
-    ((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1)) - 
-  (1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1)))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
-      Simp[2*c*(b^2*d*f+(c*d-a*f)^2)*(p+1)-
-        (2*c^2*d+b^2*f-c*(2*a*f))*(a*f*(p+1)-c*d*(p+2))+
-       (2*f*(b^3*f+b*c*(c*d-3*a*f))*(p+q+2)-(2*c^2*d+b^2*f-c*(2*a*f))*(b*f*(p+1)))*x+
-       c*f*(2*c^2*d+b^2*f-c*(2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,f,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (2*a*c^2*e+c*(2*c^2*d-c*(2*a*f))*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/
-    ((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1)) - 
-  (1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1)))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[2*c*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)-(2*c^2*d-c*(2*a*f))*(a*f*(p+1)-c*d*(p+2))-e*(-2*a*c^2*e)*(p+q+2)+
-       (2*f*(2*a*c^2*e)*(p+q+2)-(2*c^2*d-c*(2*a*f))*(-c*e*(2*p+q+4)))*x+
-       c*f*(2*c^2*d-c*(2*a*f))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,c,d,e,f,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (b*f*(3*p+2*q)-c*e*(2*p+q)+2*c*f*(p+q)*x)*(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^(q+1)/(2*f^2*(p+q)*(2*p+2*q+1)) - 
-  1/(2*f^2*(p+q)*(2*p+2*q+1))*
-    Int[(a+b*x+c*x^2)^(p-2)*(d+e*x+f*x^2)^q*
-      Simp[(b*d-a*e)*(c*e-b*f)*(1-p)*(2*p+q)-
-        (p+q)*(b^2*d*f*(1-p)-a*(f*(b*e-2*a*f)*(2*p+2*q+1)+c*(2*d*f-e^2*(2*p+q))))+
-        (2*(c*d-a*f)*(c*e-b*f)*(1-p)*(2*p+q)-
-          (p+q)*((b^2-4*a*c)*e*f*(1-p)+b*(c*(e^2-4*d*f)*(2*p+q)+f*(2*c*d-b*e+2*a*f)*(2*p+2*q+1))))*x+
-        ((c*e-b*f)^2*(1-p)*p+c*(p+q)*(f*(b*e-2*a*f)*(4*p+2*q-1)-c*(2*d*f*(1-2*p)+e^2*(3*p+q-1))))*x^2,x],x]/;
-FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,1] && 
-  NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  (b*(3*p+2*q)+2*c*(p+q)*x)*(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^(q+1)/(2*f*(p+q)*(2*p+2*q+1)) - 
-  1/(2*f*(p+q)*(2*p+2*q+1))*
-    Int[(a+b*x+c*x^2)^(p-2)*(d+f*x^2)^q*
-      Simp[b^2*d*(p-1)*(2*p+q)-(p+q)*(b^2*d*(1-p)-2*a*(c*d-a*f*(2*p+2*q+1)))-
-        (2*b*(c*d-a*f)*(1-p)*(2*p+q)-2*(p+q)*b*(2*c*d*(2*p+q)-(c*d+a*f)*(2*p+2*q+1)))*x+
-        (b^2*f*p*(1-p)+2*c*(p+q)*(c*d*(2*p-1)-a*f*(4*p+2*q-1)))*x^2,x],x]/;
-FreeQ[{a,b,c,d,f,q},x] && NeQ[b^2-4*a*c] && GtQ[p,1] && NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  -c*(e*(2*p+q)-2*f*(p+q)*x)*(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^(q+1)/(2*f^2*(p+q)*(2*p+2*q+1)) - 
-  1/(2*f^2*(p+q)*(2*p+2*q+1))*
-    Int[(a+c*x^2)^(p-2)*(d+e*x+f*x^2)^q*
-      Simp[-a*c*e^2*(1-p)*(2*p+q)+a*(p+q)*(-2*a*f^2*(2*p+2*q+1)+c*(2*d*f-e^2*(2*p+q)))+
-        (2*(c*d-a*f)*(c*e)*(1-p)*(2*p+q)+4*a*c*e*f*(1-p)*(p+q))*x+
-        (p*c^2*e^2*(1-p)-c*(p+q)*(2*a*f^2*(4*p+2*q-1)+c*(2*d*f*(1-2*p)+e^2*(3*p+q-1))))*x^2,x],x]/;
-FreeQ[{a,c,d,e,f,q},x] && NeQ[e^2-4*d*f] && GtQ[p,1] && NeQ[p+q] && NeQ[2*p+2*q+1] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[1/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
-  1/q*Int[(c^2*d-b*c*e+b^2*f-a*c*f-(c^2*e-b*c*f)*x)/(a+b*x+c*x^2),x] + 
-  1/q*Int[(c*e^2-c*d*f-b*e*f+a*f^2+(c*e*f-b*f^2)*x)/(d+e*x+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[1/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
-  1/q*Int[(c^2*d+b^2*f-a*c*f+b*c*f*x)/(a+b*x+c*x^2),x] - 
-  1/q*Int[(c*d*f-a*f^2+b*f^2*x)/(d+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
-
-
-Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -2*e*Subst[Int[1/(e*(b*e-4*a*f)-(b*d-a*e)*x^2),x],x,(e+2*f*x)/Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f]
-
-
-(* Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{k=Rt[(a/c-d/f)^2+(b/c-e/f)*(b*d/(c*f)-a*e/(c*f)),2]},
-  -2*(c*d-a*f+c*f*k+(c*e-b*f)*x)*Sqrt[(d+e*x+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k+(c*e-b*f)*x))^2]/(c*Sqrt[d+e*x+f*x^2])*
-    Subst[Int[(1-x)/(
-      (b*d-a*e-b*f*k-(c*d-a*f-c*f*k)^2/(c*e-b*f)+(b*d-a*e+b*f*k-(a*f-c*d-c*f*k)^2/(c*e-b*f))*x^2)*
-      Sqrt[-f*((b*d-a*e-c*e*k)/(c*e-b*f)-(c*d-a*f-c*f*k)^2/(c*e-b*f)^2)-f*((b*d-a*e+c*e*k)/(c*e-b*f)-(a*f-c*d-c*f*k)^2/(c*e-b*f)^2)*x^2]),x],x,
-        (c*d-a*f-c*f*k+(c*e-b*f)*x)/(c*d-a*f+c*f*k+(c*e-b*f)*x)]] /;
-FreeQ[{a,b,c,d,e,f},x] && RationalQ[a,b,c,d,e,f] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && NegativeQ[b^2-4*a*c] *)
-
-
-(* Int[1/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{k=Rt[(a/c-d/f)^2+a*e^2/(c*f^2),2]},
-  -2*(c*d-a*f+c*f*k+c*e*x)*Sqrt[(d+e*x+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k+c*e*x))^2]/(c*Sqrt[d+e*x+f*x^2])*
-    Subst[Int[(1-x)/(
-      (-a*e-(c*d-a*f-c*f*k)^2/(c*e)+(-a*e-(a*f-c*d-c*f*k)^2/(c*e))*x^2)*
-      Sqrt[-f*((-a*e-c*e*k)/(c*e)-(c*d-a*f-c*f*k)^2/(c*e)^2)-f*((-a*e+c*e*k)/(c*e)-(a*f-c*d-c*f*k)^2/(c*e)^2)*x^2]),x],x,
-        (c*d-a*f-c*f*k+(c*e)*x)/(c*d-a*f+c*f*k+(c*e)*x)]] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[a,c,d,e,f] && NeQ[e^2-4*d*f] && NegativeQ[-a*c] *)
-
-
-(* Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  With[{k=Rt[(a/c-d/f)^2+b^2*d/(c^2*f),2]},
-  -2*(c*d-a*f+c*f*k-b*f*x)*Sqrt[(d+f*x^2)*((c*f*k)/(c*d-a*f+c*f*k-b*f*x))^2]/(c*Sqrt[d+f*x^2])*
-    Subst[Int[(1-x)/(
-      (b*d-b*f*k+(c*d-a*f-c*f*k)^2/(b*f)+(b*d+b*f*k+(a*f-c*d-c*f*k)^2/(b*f))*x^2)*
-      Sqrt[-f*(-d/f-(c*d-a*f-c*f*k)^2/(b*f)^2)-f*(-d/f-(a*f-c*d-c*f*k)^2/(b*f)^2)*x^2]),x],x,
-        (c*d-a*f-c*f*k+(-b*f)*x)/(c*d-a*f+c*f*k+(-b*f)*x)]] /;
-FreeQ[{a,b,c,d,f},x] && RationalQ[a,b,c,d,f] && NeQ[b^2-4*a*c] && NegativeQ[b^2-4*a*c] *)
-
-
-Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/((b-q+2*c*x)*Sqrt[d+e*x+f*x^2]),x] -
-  2*c/q*Int[1/((b+q+2*c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && PosQ[b^2-4*a*c]
-
-
-Int[1/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  1/2*Int[1/((a-Rt[-a*c,2]*x)*Sqrt[d+e*x+f*x^2]),x] +
-  1/2*Int[1/((a+Rt[-a*c,2]*x)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && PosQ[-a*c]
-
-
-Int[1/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/((b-q+2*c*x)*Sqrt[d+f*x^2]),x] -
-  2*c/q*Int[1/((b+q+2*c*x)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
-
-
-Int[1/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f),2]},
-  1/(2*q)*Int[(c*d-a*f+q+(c*e-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
-  1/(2*q)*Int[(c*d-a*f-q+(c*e-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[c*e-b*f] && NegQ[b^2-4*a*c]
-
-
-Int[1/((a_.+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2+a*c*e^2,2]},
-  1/(2*q)*Int[(c*d-a*f+q+c*e*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
-  1/(2*q)*Int[(c*d-a*f-q+c*e*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f] && NegQ[-a*c]
-
-
-Int[1/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2+b^2*d*f,2]},
-  1/(2*q)*Int[(c*d-a*f+q+(-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] - 
-  1/(2*q)*Int[(c*d-a*f-q+(-b*f)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
-
-
-Int[Sqrt[a_+b_.*x_+c_.*x_^2]/(d_+e_.*x_+f_.*x_^2),x_Symbol] :=
-  c/f*Int[1/Sqrt[a+b*x+c*x^2],x] - 
-  1/f*Int[(c*d-a*f+(c*e-b*f)*x)/(Sqrt[a+b*x+c*x^2]*(d+e*x+f*x^2)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[Sqrt[a_+b_.*x_+c_.*x_^2]/(d_+f_.*x_^2),x_Symbol] :=
-  c/f*Int[1/Sqrt[a+b*x+c*x^2],x] - 
-  1/f*Int[(c*d-a*f-b*f*x)/(Sqrt[a+b*x+c*x^2]*(d+f*x^2)),x] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
-
-
-Int[Sqrt[a_+c_.*x_^2]/(d_+e_.*x_+f_.*x_^2),x_Symbol] :=
-  c/f*Int[1/Sqrt[a+c*x^2],x] - 
-  1/f*Int[(c*d-a*f+c*e*x)/(Sqrt[a+c*x^2]*(d+e*x+f*x^2)),x] /;
-FreeQ[{a,c,d,e,f},x] && NeQ[e^2-4*d*f]
-
-
-Int[1/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]/Sqrt[a+b*x+c*x^2]*Int[1/(Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[1/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]/Sqrt[a+b*x+c*x^2]*Int[1/(Sqrt[b+r+2*c*x]*Sqrt[2*a+(b+r)*x]*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,f},x] && NeQ[b^2-4*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Defer[Int][(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Defer[Int][(a+c*x^2)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,c,d,e,f,p,q},x] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
-FreeQ[{a,c,d,e,f,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.6 (g+h x)^m (a+b x+c x^2)^p (d+e x+f x^2)^q*)
-
-
-Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (c/f)^p*Int[(g+h*x)^m*(d+e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
-  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
-
-
-Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(g+h*x)^m*(d+e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(g+h*x)^m*(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(g+h*x)^m*(b+2*c*x)^(2*p)*(d+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,f,g,h,m,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(g_+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^m_.,x_Symbol] :=
-  Int[(d*g/a+f*h*x/c)^m*(a+b*x+c*x^2)^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p},x] && EqQ[c*g^2-b*g*h+a*h^2] && EqQ[c^2*d*g^2-a*c*e*g*h+a^2*f*h^2] && IntegerQ[m]
-
-
-Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^m_.,x_Symbol] :=
-  Int[(d*g/a+f*h*x/c)^m*(a+c*x^2)^(m+p),x] /;
-FreeQ[{a,c,d,e,f,g,h,p},x] && EqQ[c*g^2+a*h^2] && EqQ[c^2*d*g^2-a*c*e*g*h+a^2*f*h^2] && IntegerQ[m]
-
-
-Int[(g_+h_.*x_)^m_.*(a_+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^m_.,x_Symbol] :=
-  Int[(d*g/a+f*h*x/c)^m*(a+b*x+c*x^2)^(m+p),x] /;
-FreeQ[{a,b,c,d,f,g,h,p},x] && EqQ[c*g^2-b*g*h+a*h^2] && EqQ[c^2*d*g^2+a^2*f*h^2] && IntegerQ[m]
-
-
-Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^m_.,x_Symbol] :=
-  Int[(d*g/a+f*h*x/c)^m*(a+c*x^2)^(m+p),x] /;
-FreeQ[{a,c,d,f,g,h,p},x] && EqQ[c*g^2+a*h^2] && EqQ[c^2*d*g^2+a^2*f*h^2] && IntegerQ[m]
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,q},x] && EqQ[c*g^2-b*g*h+a*h^2] && IntegerQ[p] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,c,d,e,f,g,h,m,q},x] && NeQ[e^2-4*d*f] && EqQ[c*g^2+a*h^2] && IntegerQ[p] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,f,g,h,m,q},x] && NeQ[b^2-4*a*c] && EqQ[c*g^2-b*g*h+a*h^2] && IntegerQ[p] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
-FreeQ[{a,c,d,f,g,h,m,q},x] && EqQ[c*g^2+a*h^2] && IntegerQ[p] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,q},x] && EqQ[c*g^2-b*g*h+a*h^2] && Not[IntegerQ[p]] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  (a+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+e*x+f*x^2)^q,x] /;
-FreeQ[{a,c,d,e,f,g,h,m,q},x] && NeQ[e^2-4*d*f] && EqQ[c*g^2+a*h^2] && Not[IntegerQ[p]] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
-FreeQ[{a,b,c,d,f,g,h,m,q},x] && NeQ[b^2-4*a*c] && EqQ[c*g^2-b*g*h+a*h^2] && Not[IntegerQ[p]] *)
-
-
-(* Int[(g_+h_.*x_)^m_.*(a_+c_.*x_^2)^p_*(d_.+f_.*x_^2)^q_,x_Symbol] :=
-  (a+c*x^2)^FracPart[p]/((g+h*x)^FracPart[p]*(a/g+(c*x)/h)^FracPart[p])*Int[(g+h*x)^(m+p)*(a/g+c/h*x)^p*(d+f*x^2)^q,x] /;
-FreeQ[{a,c,d,f,g,h,m,q},x] && EqQ[c*g^2+a*h^2] && Not[IntegerQ[p]] *)
-
-
-Int[x_^p_*(a_.+b_.*x_+c_.*x_^2)^p_*(e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(a/e+c/f*x)^p*(e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,b,c,e,f,q},x] && NeQ[b^2-4*a*c] && EqQ[c*e^2-b*e*f+a*f^2] && IntegerQ[p]
-
-
-Int[x_^p_*(a_+c_.*x_^2)^p_*(e_.*x_+f_.*x_^2)^q_,x_Symbol] :=
-  Int[(a/e+c/f*x)^p*(e*x+f*x^2)^(p+q),x] /;
-FreeQ[{a,c,e,f,q},x] && EqQ[c*e^2+a*f^2] && IntegerQ[p]
-
-
-Int[(g_+h_.*x_)/((a_+c_.*x_^2)^(1/3)*(d_+f_.*x_^2)),x_Symbol] :=
-  Sqrt[3]*h*ArcTan[1/Sqrt[3]-2^(2/3)*(1-3*h*x/g)^(2/3)/(Sqrt[3]*(1+3*h*x/g)^(1/3))]/(2^(2/3)*a^(1/3)*f) + 
-  h*Log[d+f*x^2]/(2^(5/3)*a^(1/3)*f) - 
-  3*h*Log[(1-3*h*x/g)^(2/3)+2^(1/3)*(1+3*h*x/g)^(1/3)]/(2^(5/3)*a^(1/3)*f) /;
-FreeQ[{a,c,d,f,g,h},x] && EqQ[c*d+3*a*f] && EqQ[c*g^2+9*a*h^2] && PositiveQ[a]
-
-
-Int[(g_+h_.*x_)/((a_+c_.*x_^2)^(1/3)*(d_+f_.*x_^2)),x_Symbol] :=
-  (1+c*x^2/a)^(1/3)/(a+c*x^2)^(1/3)*Int[(g+h*x)/((1+c*x^2/a)^(1/3)*(d+f*x^2)),x] /;
-FreeQ[{a,c,d,f,g,h},x] && EqQ[c*d+3*a*f] && EqQ[c*g^2+9*a*h^2] && Not[PositiveQ[a]]
-
-
-Int[(g_+h_.*x_)*(a_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_,x_Symbol] :=
-  g*Int[(a+c*x^2)^p*(d+f*x^2)^q,x] + h*Int[x*(a+c*x^2)^p*(d+f*x^2)^q,x] /;
-FreeQ[{a,c,d,f,g,h,p,q},x]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && IntegersQ[p,q] && p>0
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  Int[ExpandIntegrand[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x],x] /;
-FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && IntegersQ[p,q] && (p>0 || q>0)
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (g*b-2*a*h-(b*h-2*g*c)*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
-  1/((b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[e*q*(g*b-2*a*h)-d*(b*h-2*g*c)*(2*p+3)+
-        (2*f*q*(g*b-2*a*h)-e*(b*h-2*g*c)*(2*p+q+3))*x-
-        f*(b*h-2*g*c)*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p,q] && p<-1 && q>0
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (a*h-g*c*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) + 
-  2/(4*a*c*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[g*c*d*(2*p+3)-a*(h*e*q)+(g*c*e*(2*p+q+3)-a*(2*h*f*q))*x+g*c*f*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && RationalQ[p,q] && p<-1 && q>0
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (g*b-2*a*h-(b*h-2*g*c)*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/((b^2-4*a*c)*(p+1)) - 
-  1/((b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
-      Simp[-d*(b*h-2*g*c)*(2*p+3)+(2*f*q*(g*b-2*a*h))*x-f*(b*h-2*g*c)*(2*p+2*q+3)*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && RationalQ[p,q] && p<-1 && q>0
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    (g*c*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
-      c*(g*(2*c^2*d+b^2*f-c*(b*e+2*a*f))-h*(b*c*d-2*a*c*e+a*b*f))*x) + 
-  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(b*h-2*g*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
-        (b^2*(g*f)-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((g*c)*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-        (2*f*((g*c)*(2*a*c*e-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-          (b^2*g*f-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)-a*(-h*c*e)))*
-          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
-        c*f*(b^2*(g*f)-b*(h*c*d+g*c*e+a*h*f)+2*(g*c*(c*d-a*f)+a*h*c*e))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,e,f,g,h,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p] && p<-1 && 
-  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    (g*c*(2*a*c*e)+(-a*h)*(2*c^2*d-c*(2*a*f))+
-      c*(g*(2*c^2*d-c*(2*a*f))-h*(-2*a*c*e))*x) + 
-  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(-2*g*c)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
-        (2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((g*c)*(2*a*c*e)+(-a*h)*(2*c^2*d-c*(+2*a*f)))*(p+q+2)-
-        (2*f*((g*c)*(2*a*c*e)+(-a*h)*(2*c^2*d+-c*(+2*a*f)))*(p+q+2)-(2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(-c*e*(2*p+q+4)))*x-
-        c*f*(2*(g*c*(c*d-a*f)-a*(-h*c*e)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,c,d,e,f,g,h,q},x] && NeQ[e^2-4*d*f] && RationalQ[p] && p<-1 && NeQ[a*c*e^2+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    ((g*c)*(-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(2*a*f))+
-      c*(g*(2*c^2*d+b^2*f-c*(2*a*f))-h*(b*c*d+a*b*f))*x) + 
-  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
-      Simp[(b*h-2*g*c)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
-        (b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*(a*f*(p+1)-c*d*(p+2))-
-        (2*f*((g*c)*(-b*(c*d+a*f))+(g*b-a*h)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
-          (b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*
-          (b*f*(p+1)))*x-
-        c*f*(b^2*(g*f)-b*(h*c*d+a*h*f)+2*(g*c*(c*d-a*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,f,g,h,q},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && NeQ[b^2*d*f+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && IntegerQ[q] && q<-1]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  h*(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*f*(p+q+1)) - 
-  (1/(2*f*(p+q+1)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[h*p*(b*d-a*e)+a*(h*e-2*g*f)*(p+q+1)+
-        (2*h*p*(c*d-a*f)+b*(h*e-2*g*f)*(p+q+1))*x+
-        (h*p*(c*e-b*f)+c*(h*e-2*g*f)*(p+q+1))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && RationalQ[p] && p>0 && NeQ[p+q+1]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  h*(a+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*f*(p+q+1)) + 
-  (1/(2*f*(p+q+1)))*
-    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[a*h*e*p-a*(h*e-2*g*f)*(p+q+1)-2*h*p*(c*d-a*f)*x-(h*c*e*p+c*(h*e-2*g*f)*(p+q+1))*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,g,h,q},x] && NeQ[e^2-4*d*f] && RationalQ[p] && p>0 && NeQ[p+q+1]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  h*(a+b*x+c*x^2)^p*(d+f*x^2)^(q+1)/(2*f*(p+q+1)) - 
-  (1/(2*f*(p+q+1)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
-      Simp[h*p*(b*d)+a*(-2*g*f)*(p+q+1)+
-        (2*h*p*(c*d-a*f)+b*(-2*g*f)*(p+q+1))*x+
-        (h*p*(-b*f)+c*(-2*g*f)*(p+q+1))*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,g,h,q},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && NeQ[p+q+1]
-
-
-Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=Simplify[c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2]},
-  1/q*Int[Simp[g*c^2*d-g*b*c*e+a*h*c*e+g*b^2*f-a*b*h*f-a*g*c*f+c*(h*c*d-g*c*e+g*b*f-a*h*f)*x,x]/(a+b*x+c*x^2),x] + 
-  1/q*Int[Simp[-h*c*d*e+g*c*e^2+b*h*d*f-g*c*d*f-g*b*e*f+a*g*f^2-f*(h*c*d-g*c*e+g*b*f-a*h*f)*x,x]/(d+e*x+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
-  With[{q=Simplify[c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2]},
-  1/q*Int[Simp[g*c^2*d+g*b^2*f-a*b*h*f-a*g*c*f+c*(h*c*d+g*b*f-a*h*f)*x,x]/(a+b*x+c*x^2),x] + 
-  1/q*Int[Simp[b*h*d*f-g*c*d*f+a*g*f^2-f*(h*c*d+g*b*f-a*h*f)*x,x]/(d+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c]
-
-
-Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -2*g*Subst[Int[1/(b*d-a*e-b*x^2),x],x,Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && EqQ[h*e-2*g*f]
-
-
-Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -(h*e-2*g*f)/(2*f)*Int[1/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] + 
-  h/(2*f)*Int[(e+2*f*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[c*e-b*f] && NeQ[h*e-2*g*f]
-
-
-Int[x_/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -2*e*Subst[Int[(1-d*x^2)/(c*e-b*f-e*(2*c*d-b*e+2*a*f)*x^2+d^2*(c*e-b*f)*x^4),x],x,
-    (1+(e+Sqrt[e^2-4*d*f])*x/(2*d))/Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e]
-
-
-Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  g*Subst[Int[1/(a+(c*d-a*f)*x^2),x],x,x/Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e] && EqQ[2*h*d-g*e]
-
-
-Int[(g_+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -(2*h*d-g*e)/e*Int[1/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] + 
-  h/e*Int[(2*d+e*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && EqQ[b*d-a*e] && NeQ[2*h*d-g*e]
-
-
-Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -2*g*(g*b-2*a*h)*
-    Subst[Int[1/Simp[g*(g*b-2*a*h)*(b^2-4*a*c)-(b*d-a*e)*x^2,x],x],x,Simp[g*b-2*a*h-(b*h-2*g*c)*x,x]/Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[b*d-a*e] && 
-  EqQ[h^2*(b*d-a*e)-2*g*h*(c*d-a*f)+g^2*(c*e-b*f)]
-
-
-Int[(g_+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  -2*a*g*h*Subst[Int[1/Simp[2*a^2*g*h*c+a*e*x^2,x],x],x,Simp[a*h-g*c*x,x]/Sqrt[d+e*x+f*x^2]] /;
-FreeQ[{a,c,d,e,f,g,h},x] && EqQ[a*h^2*e+2*g*h*(c*d-a*f)-g^2*c*e]
-
-
-Int[(g_+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  -2*g*(g*b-2*a*h)*Subst[Int[1/Simp[g*(g*b-2*a*h)*(b^2-4*a*c)-b*d*x^2,x],x],x,Simp[g*b-2*a*h-(b*h-2*g*c)*x,x]/Sqrt[d+f*x^2]] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && EqQ[b*h^2*d-2*g*h*(c*d-a*f)-g^2*b*f]
-
-
-Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*g-h*(b-q))/q*Int[1/((b-q+2*c*x)*Sqrt[d+e*x+f*x^2]),x] -
-  (2*c*g-h*(b+q))/q*Int[1/((b+q+2*c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && PosQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (h/2+c*g/(2*q))*Int[1/((-q+c*x)*Sqrt[d+e*x+f*x^2]),x] +
-  (h/2-c*g/(2*q))*Int[1/((q+c*x)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && PosQ[-a*c]
-
-
-Int[(g_.+h_.*x_)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*g-h*(b-q))/q*Int[1/((b-q+2*c*x)*Sqrt[d+f*x^2]),x] -
-  (2*c*g-h*(b+q))/q*Int[1/((b+q+2*c*x)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f),2]},
-  1/(2*q)*Int[Simp[h*(b*d-a*e)-g*(c*d-a*f-q)-(g*(c*e-b*f)-h*(c*d-a*f+q))*x,x]/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
-  1/(2*q)*Int[Simp[h*(b*d-a*e)-g*(c*d-a*f+q)-(g*(c*e-b*f)-h*(c*d-a*f-q))*x,x]/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && NeQ[b*d-a*e] && NegQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2+a*c*e^2,2]},
-  1/(2*q)*Int[Simp[-a*h*e-g*(c*d-a*f-q)+(h*(c*d-a*f+q)-g*c*e)*x,x]/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] - 
-  1/(2*q)*Int[Simp[-a*h*e-g*(c*d-a*f+q)+(h*(c*d-a*f-q)-g*c*e)*x,x]/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,c,d,e,f,g,h},x] && NeQ[e^2-4*d*f] && NegQ[-a*c]
-
-
-Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  With[{q=Rt[(c*d-a*f)^2+b^2*d*f,2]},
-  1/(2*q)*Int[Simp[h*b*d-g*(c*d-a*f-q)+(h*(c*d-a*f+q)+g*b*f)*x,x]/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] - 
-  1/(2*q)*Int[Simp[h*b*d-g*(c*d-a*f+q)+(h*(c*d-a*f-q)+g*b*f)*x,x]/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{s=Rt[b^2-4*a*c,2],t=Rt[e^2-4*d*f,2]},
-  Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[e+t+2*f*x]*Sqrt[2*d+(e+t)*x]/(Sqrt[a+b*x+c*x^2]*Sqrt[d+e*x+f*x^2])*
-    Int[(g+h*x)/(Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[e+t+2*f*x]*Sqrt[2*d+(e+t)*x]),x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(g_.+h_.*x_)/(Sqrt[a_+b_.*x_+c_.*x_^2]*Sqrt[d_+f_.*x_^2]),x_Symbol] :=
-  With[{s=Rt[b^2-4*a*c,2],t=Rt[-4*d*f,2]},
-  Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[t+2*f*x]*Sqrt[2*d+t*x]/(Sqrt[a+b*x+c*x^2]*Sqrt[d+f*x^2])*
-    Int[(g+h*x)/(Sqrt[b+s+2*c*x]*Sqrt[2*a+(b+s)*x]*Sqrt[t+2*f*x]*Sqrt[2*d+t*x]),x]] /;
-FreeQ[{a,b,c,d,f,g,h},x] && NeQ[b^2-4*a*c]
-
-
-Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)^(1/3)*(d_.+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=(-9*c*h^2/(2*c*g-b*h)^2)^(1/3)},
-  Sqrt[3]*h*q*ArcTan[1/Sqrt[3]-2^(2/3)*(1-(3*h*(b+2*c*x))/(2*c*g-b*h))^(2/3)/(Sqrt[3]*(1+(3*h*(b+2*c*x))/(2*c*g-b*h))^(1/3))]/f + 
-  h*q*Log[d+e*x+f*x^2]/(2*f) - 
-  3*h*q*Log[(1-3*h*(b+2*c*x)/(2*c*g-b*h))^(2/3)+2^(1/3)*(1+3*h*(b+2*c*x)/(2*c*g-b*h))^(1/3)]/(2*f)] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[c*e-b*f] && EqQ[c^2*d-f*(b^2-3*a*c)] && EqQ[c^2*g^2-b*c*g*h-2*b^2*h^2+9*a*c*h^2] && 
-  PositiveQ[-9*c*h^2/(2*c*g-b*h)^2]
-
-
-Int[(g_.+h_.*x_)/((a_.+b_.*x_+c_.*x_^2)^(1/3)*(d_.+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=-c/(b^2-4*a*c)},
-  (q*(a+b*x+c*x^2))^(1/3)/(a+b*x+c*x^2)^(1/3)*Int[(g+h*x)/((q*a+b*q*x+c*q*x^2)^(1/3)*(d+e*x+f*x^2)),x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[c*e-b*f] && EqQ[c^2*d-f*(b^2-3*a*c)] && EqQ[c^2*g^2-b*c*g*h-2*b^2*h^2+9*a*c*h^2] && 
-  Not[PositiveQ[4*a-b^2/c]]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  Defer[Int][(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x]
-
-
-Int[(a_.+c_.*x_^2)^p_*(d_.+e_.*x_+f_.*x_^2)^q_*(g_.+h_.*x_),x_Symbol] :=
-  Defer[Int][(a+c*x^2)^p*(d+e*x+f*x^2)^q*(g+h*x),x] /;
-FreeQ[{a,c,d,e,f,g,h,p,q},x]
-
-
-Int[(g_.+h_.*u_)^m_.*(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(g+h*x)^m*(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(g_.+h_.*u_)^m_.*(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(g+h*x)^m*(a+c*x^2)^p*(d+e*x+f*x^2)^q,x],x,u] /;
-FreeQ[{a,c,d,e,f,g,h,m,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^n_.*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(h+i*x)^q*(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && EqQ[e*f+d*g] && EqQ[m-n] && (IntegerQ[m] || PositiveQ[d] && PositiveQ[f])
-
-
-Int[(d_.+e_.*x_)^m_.*(f_.+g_.*x_)^n_.*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^n*(h+i*x)^q*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && PositiveIntegerQ[p] && NegativeIntegerQ[m]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^n_*(h_.+i_.*x_)^q_.*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  (d+e*x)^FracPart[m]*(f+g*x)^FracPart[m]/(d*f+e*g*x^2)^FracPart[m]*Int[(h+i*x)^q*(d*f+e*g*x^2)^m*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,m,n,p,q},x] && EqQ[e*f+d*g] && EqQ[m-n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.7 (a+b x+c x^2)^p (d+e x+f x^2)^q (A+B x+C x^2)*)
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q)*(A+B*x+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
-  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
-  (c/f)^p*Int[(d+e*x+f*x^2)^(p+q)*(A+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && (IntegerQ[p] || PositiveQ[c/f]) && 
-  (Not[IntegerQ[q]] || LeafCount[d+e*x+f*x^2]<=LeafCount[a+b*x+c*x^2])
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q)*(A+B*x+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
-  a^IntPart[p]*(a+b*x+c*x^2)^FracPart[p]/(d^IntPart[p]*(d+e*x+f*x^2)^FracPart[p])*Int[(d+e*x+f*x^2)^(p+q)*(A+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[c*d-a*f] && EqQ[b*d-a*e] && Not[IntegerQ[p]] && Not[IntegerQ[q]] && Not[PositiveQ[c/f]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+e_.*x_+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+e_.*x_+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+e*x+f*x^2)^q*(A+C*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+f_.*x_^2)^q_.*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q*(A+B*x+C*x^2),x] /;
-FreeQ[{a,b,c,d,f,A,B,C,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_.*(d_.+f_.*x_^2)^q_.*(A_.+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(b+2*c*x)^(2*p)*(d+f*x^2)^q*(A+C*x^2),x] /;
-FreeQ[{a,b,c,d,f,A,C,p,q},x] && EqQ[b^2-4*a*c]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (A*b*c-2*a*B*c+a*b*C-(c*(b*B-2*A*c)-C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
-  1/(c*(b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[e*q*(A*b*c-2*a*B*c+a*b*C)-d*(c*(b*B-2*A*c)*(2*p+3)+C*(2*a*c-b^2*(p+2)))+
-        (2*f*q*(A*b*c-2*a*B*c+a*b*C)-e*(c*(b*B-2*A*c)*(2*p+q+3)+C*(2*a*c*(q+1)-b^2*(p+q+2))))*x-
-        f*(c*(b*B-2*A*c)*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (A*b*c+a*b*C+(2*A*c^2+C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
-  1/(c*(b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[A*c*(2*c*d*(2*p+3)+b*e*q)-C*(2*a*c*d-b^2*d*(p+2)-a*b*e*q)+
-        (C*(2*a*b*f*q-2*a*c*e*(q+1)+b^2*e*(p+q+2))+2*A*c*(b*f*q+c*e*(2*p+q+3)))*x-
-        f*(-2*A*c^2*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a*B-(A*c-a*C)*x)*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) - 
-  2/((-4*a*c)*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[A*c*d*(2*p+3)-a*(C*d+B*e*q)+(A*c*e*(2*p+q+3)-a*(2*B*f*q+C*e*(q+1)))*x-f*(a*C*(2*q+1)-A*c*(2*p+2*q+3))*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,A,B,C},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  -(A*c-a*C)*x*(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q/(2*a*c*(p+1)) + 
-  2/(4*a*c*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q-1)*
-      Simp[A*c*d*(2*p+3)-a*C*d+(A*c*e*(2*p+q+3)-a*C*e*(q+1))*x-f*(a*C*(2*q+1)-A*c*(2*p+2*q+3))*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,A,C},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (A*b*c-2*a*B*c+a*b*C-(c*(b*B-2*A*c)-C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
-  1/(c*(b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
-      Simp[-d*(c*(b*B-2*A*c)*(2*p+3)+C*(2*a*c-b^2*(p+2)))+
-        (2*f*q*(A*b*c-2*a*B*c+a*b*C))*x-
-        f*(c*(b*B-2*A*c)*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (A*b*c+a*b*C+(2*A*c^2+C*(b^2-2*a*c))*x)*(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q/(c*(b^2-4*a*c)*(p+1)) - 
-  1/(c*(b^2-4*a*c)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q-1)*
-      Simp[A*c*(2*c*d*(2*p+3))-C*(2*a*c*d-b^2*d*(p+2))+
-        (C*(2*a*b*f*q)+2*A*c*(b*f*q))*x-
-        f*(-2*A*c^2*(2*p+2*q+3)+C*(2*a*c*(2*q+1)-b^2*(p+2*q+2)))*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && GtQ[q,0] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    ((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
-      c*(A*(2*c^2*d+b^2*f-c*(b*e+2*a*f))-B*(b*c*d-2*a*c*e+a*b*f)+C*(b^2*d-a*b*e-2*a*(c*d-a*f)))*x) + 
-  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(b*B-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
-        (b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-        (2*f*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-          (b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*
-          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
-        c*f*(b^2*(C*d+A*f)-b*(B*c*d+A*c*e+a*C*e+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,e,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
-  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    ((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+
-      c*(A*(2*c^2*d+b^2*f-c*(b*e+2*a*f))+C*(b^2*d-a*b*e-2*a*(c*d-a*f)))*x) + 
-  1/((b^2-4*a*c)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d-a*e)*(c*e-b*f))*(p+1)+
-        (b^2*(C*d+A*f)-b*(+A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-        (2*f*((A*c-a*C)*(2*a*c*e-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(b*e+2*a*f)))*(p+q+2)-
-          (b^2*(C*d+A*f)-b*(A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
-          (b*f*(p+1)-c*e*(2*p+q+4)))*x-
-        c*f*(b^2*(C*d+A*f)-b*(A*c*e+a*C*e)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,e,f,A,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && LtQ[p,-1] && 
-  NeQ[(c*d-a*f)^2-(b*d-a*e)*(c*e-b*f)] && Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    ((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d-c*(2*a*f))+
-      c*(A*(2*c^2*d-c*(2*a*f))-B*(-2*a*c*e)+C*(-2*a*(c*d-a*f)))*x) + 
-  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
-        (2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d-c*(+2*a*f)))*(p+q+2)-
-        (2*f*((A*c-a*C)*(2*a*c*e)+(-a*B)*(2*c^2*d+-c*(+2*a*f)))*(p+q+2)-
-          (2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*
-          (-c*e*(2*p+q+4)))*x-
-        c*f*(2*(A*c*(c*d-a*f)-a*(c*C*d-B*c*e-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,c,d,e,f,A,B,C,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (a+c*x^2)^(p+1)*(d+e*x+f*x^2)^(q+1)/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    ((A*c-a*C)*(2*a*c*e)+c*(A*(2*c^2*d-c*(2*a*f))+C*(-2*a*(c*d-a*f)))*x) + 
-  1/((-4*a*c)*(a*c*e^2+(c*d-a*f)^2)*(p+1))*
-    Int[(a+c*x^2)^(p+1)*(d+e*x+f*x^2)^q*
-      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(-a*e)*(c*e))*(p+1)+
-        (2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        e*((A*c-a*C)*(2*a*c*e))*(p+q+2)-
-        (2*f*((A*c-a*C)*(2*a*c*e))*(p+q+2)-(2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(-c*e*(2*p+q+4)))*x-
-        c*f*(2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,c,d,e,f,A,C,q},x] && NeQ[e^2-4*d*f] && LtQ[p,-1] && NeQ[a*c*e^2+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    ((A*c-a*C)*(-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(2*a*f))+
-      c*(A*(2*c^2*d+b^2*f-c*(2*a*f))-B*(b*c*d+a*b*f)+C*(b^2*d-2*a*(c*d-a*f)))*x) + 
-  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
-      Simp[(b*B-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
-        (b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        (2*f*((A*c-a*C)*(-b*(c*d+a*f))+(A*b-a*B)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
-          (b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
-          (b*f*(p+1)))*x-
-        c*f*(b^2*(C*d+A*f)-b*(B*c*d+a*B*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (a+b*x+c*x^2)^(p+1)*(d+f*x^2)^(q+1)/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    ((A*c-a*C)*(-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(2*a*f))+
-      c*(A*(2*c^2*d+b^2*f-c*(2*a*f))+C*(b^2*d-2*a*(c*d-a*f)))*x) + 
-  1/((b^2-4*a*c)*(b^2*d*f+(c*d-a*f)^2)*(p+1))*
-    Int[(a+b*x+c*x^2)^(p+1)*(d+f*x^2)^q*
-      Simp[(-2*A*c-2*a*C)*((c*d-a*f)^2-(b*d)*(-b*f))*(p+1)+
-        (b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(a*f*(p+1)-c*d*(p+2))-
-        (2*f*((A*c-a*C)*(-b*(c*d+a*f))+(A*b)*(2*c^2*d+b^2*f-c*(2*a*f)))*(p+q+2)-
-          (b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*
-          (b*f*(p+1)))*x-
-        c*f*(b^2*(C*d+A*f)+2*(A*c*(c*d-a*f)-a*(c*C*d-a*C*f)))*(2*p+2*q+5)*x^2,x],x]/;
-FreeQ[{a,b,c,d,f,A,C,q},x] && NeQ[b^2-4*a*c] && LtQ[p,-1] && NeQ[b^2*d*f+(c*d-a*f)^2] && 
-  Not[Not[IntegerQ[p]] && ILtQ[q,-1]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (B*c*f*(2*p+2*q+3)+C*(b*f*p-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
-    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[p*(b*d-a*e)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(B*e-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(C*e*f*p*(b^2-4*a*c)-b*c*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x+
-        (p*(c*e-b*f)*(C*(c*e-b*f)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,0] && 
-  NeQ[p+q+1] && NeQ[2*p+2*q+3] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (C*(b*f*p-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
-    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[p*(b*d-a*e)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
-          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
-          (p+q+1)*(C*e*f*p*(b^2-4*a*c)-b*c*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
-        (p*(c*e-b*f)*(C*(c*e-b*f)*(q+1)-c*(C*e)*(2*p+2*q+3))+
-          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,q},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f] && GtQ[p,0] && 
-  NeQ[p+q+1] && NeQ[2*p+2*q+3] && Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (B*c*f*(2*p+2*q+3)+C*(-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+c*x^2)^p*
-    (d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[p*(-a*e)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(B*e-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(C*e*f*p*(-4*a*c)))*x+
-        (p*(c*e)*(C*(c*e)*(q+1)-c*(C*e-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(C*f^2*p*(-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d-B*e+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,A,B,C,q},x] && NeQ[e^2-4*d*f] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
- Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+c_.*x_^2)^p_*(d_+e_.*x_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (C*(-c*e*(2*p+q+2))+2*c*C*f*(p+q+1)*x)*(a+c*x^2)^p*(d+e*x+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+c*x^2)^(p-1)*(d+e*x+f*x^2)^q*
-      Simp[p*(-a*e)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+(p+q+1)*(a*c*(C*(2*d*f-e^2*(2*p+q+2))+f*(-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+(p+q+1)*(C*e*f*p*(-4*a*c)))*x+
-        (p*(c*e)*(C*(c*e)*(q+1)-c*(C*e)*(2*p+2*q+3))+
-          (p+q+1)*(C*f^2*p*(-4*a*c)-c^2*(C*(e^2-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,A,C,q},x] && NeQ[e^2-4*d*f] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
- Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  (B*c*f*(2*p+2*q+3)+C*(b*f*p)+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
-    (d+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
-      Simp[p*(b*d)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f)+f*(-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(-b*c*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
-        (p*(-b*f)*(C*(-b*f)*(q+1)-c*(-B*f)*(2*p+2*q+3))+
-          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,A,B,C,q},x] && NeQ[b^2-4*a*c] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
- Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2)^p_*(d_+f_.*x_^2)^q_*(A_.+C_.*x_^2),x_Symbol] :=
-  (C*(b*f*p)+2*c*C*f*(p+q+1)*x)*(a+b*x+c*x^2)^p*
-    (d+f*x^2)^(q+1)/(2*c*f^2*(p+q+1)*(2*p+2*q+3)) - 
-  (1/(2*c*f^2*(p+q+1)*(2*p+2*q+3)))*
-    Int[(a+b*x+c*x^2)^(p-1)*(d+f*x^2)^q*
-      Simp[p*(b*d)*(C*(-b*f)*(q+1))+
-          (p+q+1)*(b^2*C*d*f*p+a*c*(C*(2*d*f)+f*(-2*A*f)*(2*p+2*q+3)))+
-        (2*p*(c*d-a*f)*(C*(-b*f)*(q+1))+
-          (p+q+1)*(-b*c*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x+
-        (p*(-b*f)*(C*(-b*f)*(q+1))+
-          (p+q+1)*(C*f^2*p*(b^2-4*a*c)-c^2*(C*(-4*d*f)*(2*p+q+2)+f*(2*C*d+2*A*f)*(2*p+2*q+3))))*x^2,x],x] /;
-FreeQ[{a,b,c,d,f,A,C,q},x] && NeQ[b^2-4*a*c] && GtQ[p,0] && NeQ[p+q+1] && NeQ[2*p+2*q+3] && 
- Not[IGtQ[p,0]] && Not[IGtQ[q,0]]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
-  1/q*Int[(A*c^2*d-a*c*C*d-A*b*c*e+a*B*c*e+A*b^2*f-a*b*B*f-a*A*c*f+a^2*C*f+
-    c*(B*c*d-b*C*d-A*c*e+a*C*e+A*b*f-a*B*f)*x)/(a+b*x+c*x^2),x] + 
-  1/q*Int[(c*C*d^2-B*c*d*e+A*c*e^2+b*B*d*f-A*c*d*f-a*C*d*f-A*b*e*f+a*A*f^2-
-    f*(B*c*d-b*C*d-A*c*e+a*C*e+A*b*f-a*B*f)*x)/(d+e*x+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+e_.*x_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2-b*c*d*e+a*c*e^2+b^2*d*f-2*a*c*d*f-a*b*e*f+a^2*f^2},
-  1/q*Int[(A*c^2*d-a*c*C*d-A*b*c*e+A*b^2*f-a*A*c*f+a^2*C*f+
-    c*(-b*C*d-A*c*e+a*C*e+A*b*f)*x)/(a+b*x+c*x^2),x] + 
-  1/q*Int[(c*C*d^2+A*c*e^2-A*c*d*f-a*C*d*f-A*b*e*f+a*A*f^2-
-    f*(-b*C*d-A*c*e+a*C*e+A*b*f)*x)/(d+e*x+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
-  1/q*Int[(A*c^2*d-a*c*C*d+A*b^2*f-a*b*B*f-a*A*c*f+a^2*C*f+c*(B*c*d-b*C*d+A*b*f-a*B*f)*x)/(a+b*x+c*x^2),x] + 
-  1/q*Int[(c*C*d^2+b*B*d*f-A*c*d*f-a*C*d*f+a*A*f^2-f*(B*c*d-b*C*d+A*b*f-a*B*f)*x)/(d+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*(d_+f_.*x_^2)),x_Symbol] :=
-  With[{q=c^2*d^2+b^2*d*f-2*a*c*d*f+a^2*f^2},
-  1/q*Int[(A*c^2*d-a*c*C*d+A*b^2*f-a*A*c*f+a^2*C*f+c*(-b*C*d+A*b*f)*x)/(a+b*x+c*x^2),x] + 
-  1/q*Int[(c*C*d^2-A*c*d*f-a*C*d*f+a*A*f^2-f*(-b*C*d+A*b*f)*x)/(d+f*x^2),x] /;
- NeQ[q]] /;
-FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 
-  1/c*Int[(A*c-a*C+(B*c-b*C)*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 1/c*Int[(A*c-a*C-b*C*x)/((a+b*x+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b^2-4*a*c] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + 1/c*Int[(A*c-a*C+B*c*x)/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,c,d,e,f,A,B,C},x] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+C_.*x_^2)/((a_+c_.*x_^2)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+e*x+f*x^2],x] + (A*c-a*C)/c*Int[1/((a+c*x^2)*Sqrt[d+e*x+f*x^2]),x] /;
-FreeQ[{a,c,d,e,f,A,C},x] && NeQ[e^2-4*d*f]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+f*x^2],x] + 1/c*Int[(A*c-a*C+(B*c-b*C)*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] /;
-FreeQ[{a,b,c,d,f,A,B,C},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_.+C_.*x_^2)/((a_+b_.*x_+c_.*x_^2)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  C/c*Int[1/Sqrt[d+f*x^2],x] + 1/c*Int[(A*c-a*C-b*C*x)/((a+b*x+c*x^2)*Sqrt[d+f*x^2]),x] /;
-FreeQ[{a,b,c,d,f,A,C},x] && NeQ[b^2-4*a*c]
-
-
-Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_+C_.*u_^2),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x],x,u] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x),x],x,u] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*u_+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+C_.*u_^2),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x+c*x^2)^p*(d+e*x+f*x^2)^q*(A+C*x^2),x],x,u] /;
-FreeQ[{a,b,c,d,e,f,A,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_+C_.*u_^2),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x+C*x^2),x],x,u] /;
-FreeQ[{a,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+B_.*u_),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+B*x),x],x,u] /;
-FreeQ[{a,c,d,e,f,A,B,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+c_.*u_^2)^p_.*(d_.+e_.*u_+f_.*u_^2)^q_.*(A_.+C_.*u_^2),x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+c*x^2)^p*(d+e*x+f*x^2)^q*(A+C*x^2),x],x,u] /;
-FreeQ[{a,c,d,e,f,A,C,p,q},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.9 (d+e x)^m Pq(x) (a+b x+c x^2)^p*)
-
-
-Int[x_^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  1/2*Subst[Int[x^((m-1)/2)*SubstFor[x^2,Pq,x]*(a+c*x)^p,x],x,x^2] /;
-FreeQ[{a,c,p},x] && PolyQ[Pq,x^2] && IntegerQ[(m-1)/2]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+1)*PolynomialQuotient[Pq,d+e*x,x]*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,d+e*x,x]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+1)*PolynomialQuotient[Pq,d+e*x,x]*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,d+e*x,x]]
-
-
-Int[(d_.+e_.*x_)^m_.*P2_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{f=Coeff[P2,x,0],g=Coeff[P2,x,1],h=Coeff[P2,x,2]},
-  h*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)/(c*e*(m+2*p+3)) /;
- EqQ[b*e*h*(m+p+2)+2*c*d*h*(p+1)-c*e*g*(m+2*p+3)] && EqQ[b*d*h*(p+1)+a*e*h*(m+1)-c*e*f*(m+2*p+3)]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[P2,x,2] && NeQ[m+2*p+3]
-
-
-Int[(d_.+e_.*x_)^m_.*P2_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{f=Coeff[P2,x,0],g=Coeff[P2,x,1],h=Coeff[P2,x,2]},
-  h*(d+e*x)^(m+1)*(a+c*x^2)^(p+1)/(c*e*(m+2*p+3)) /;
- EqQ[2*d*h*(p+1)-e*g*(m+2*p+3)] && EqQ[a*h*(m+1)-c*f*(m+2*p+3)]] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[P2,x,2] && NeQ[m+2*p+3]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*Pq*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && IGtQ[p,-2]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*Pq*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && IGtQ[p,-2]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[(d+e*x)^m*Pq*(b+2*c*x)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[b^2-4*a*c,0]
-
-
-Int[(e_.*x_)^m_.*Pq_*(b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(e*x)^(m-1)*ExpandToSum[e*Pq/(b+c*x),x]*(b*x+c*x^2)^(p+1),x] /;
-FreeQ[{b,c,e,m,p},x] && PolyQ[Pq,x] && EqQ[PolynomialRemainder[Pq,b+c*x,x]]
-
-
-Int[(d_+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m-1)*ExpandToSum[d*e*Pq/(a*e+c*d*x),x]*(a+b*x+c*x^2)^(p+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && EqQ[PolynomialRemainder[Pq,a*e+c*d*x,x]]
-
-
-Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m-1)*ExpandToSum[d*e*Pq/(a*e+c*d*x),x]*(a+c*x^2)^(p+1),x] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && EqQ[PolynomialRemainder[Pq,a*e+c*d*x,x]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
-  f*(d+e*x)^(m+q-1)*(a+b*x+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
-  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*
-    ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q+e*f*(m+p+q)*(d+e*x)^(q-2)*(b*d-2*a*e+(2*c*d-b*e)*x),x],x] /;
- NeQ[m+q+2*p+1]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
-  f*(d+e*x)^(m+q-1)*(a+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
-  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+c*x^2)^p*
-    ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-2*e*f*(m+p+q)*(d+e*x)^(q-2)*(a*e-c*d*x),x],x] /;
- NeQ[m+q+2*p+1]] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
-FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
-FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && IntegerQ[p]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2,0] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+c*x^2)^FracPart[p]/((d+e*x)^FracPart[p]*(a/d+(c*x)/e)^FracPart[p])*Int[(d+e*x)^(m+p)*(a/d+c/e*x)^p*Pq,x] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && EqQ[c*d^2+a*e^2,0] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(a+b*x+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*Pq,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && IGtQ[m,0] && RationalQ[a,b,c,d,e] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[(a+c*x^2)^p*ExpandIntegrand[(d+e*x)^m*Pq,x],x] /;
-FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && IGtQ[m,0] && RationalQ[a,c,d,e] && Not[IntegerQ[p]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
-  (d+e*x)^m*(a+b*x+c*x^2)^(p+1)*(f*b-2*a*g+(2*c*f-b*g)*x)/((p+1)*(b^2-4*a*c)) + 
-  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^(m-1)*(a+b*x+c*x^2)^(p+1)*
-    ExpandToSum[(p+1)*(b^2-4*a*c)*(d+e*x)*Q+g*(2*a*e*m+b*d*(2*p+3))-f*(b*e*m+2*c*d*(2*p+3))-e*(2*c*f-b*g)*(m+2*p+3)*x,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && GtQ[m,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
-  (d+e*x)^m*(a+c*x^2)^(p+1)*(a*g-c*f*x)/(2*a*c*(p+1)) + 
-  1/(2*a*c*(p+1))*Int[(d+e*x)^(m-1)*(a+c*x^2)^(p+1)*
-    ExpandToSum[2*a*c*(p+1)*(d+e*x)*Q-a*e*g*m+c*d*f*(2*p+3)+c*e*f*(m+2*p+3)*x,x],x]] /;
-FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && GtQ[m,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[(d+e*x)^m*Pq,a+b*x+c*x^2,x],
-        f=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+b*x+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+b*x+c*x^2,x],x,1]},
-  (b*f-2*a*g+(2*c*f-b*g)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
-  1/((p+1)*(b^2-4*a*c))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
-    ExpandToSum[(p+1)*(b^2-4*a*c)*(d+e*x)^(-m)*Q-(2*p+3)*(2*c*f-b*g)*(d+e*x)^(-m),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && ILtQ[m,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[(d+e*x)^m*Pq,a+c*x^2,x],
-        f=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[(d+e*x)^m*Pq,a+c*x^2,x],x,1]},
-  (a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
-  1/(2*a*c*(p+1))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
-    ExpandToSum[2*a*c*(p+1)*(d+e*x)^(-m)*Q+c*f*(2*p+3)*(d+e*x)^(-m),x],x]] /;
-FreeQ[{a,c,d,e},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && ILtQ[m,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
-  (d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1)*(f*(b*c*d-b^2*e+2*a*c*e)-a*g*(2*c*d-b*e)+c*(f*(2*c*d-b*e)-g*(b*d-2*a*e))*x)/
-    ((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^m*(a+b*x+c*x^2)^(p+1)*
-   ExpandToSum[(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)*Q+
-      f*(b*c*d*e*(2*p-m+2)+b^2*e^2*(p+m+2)-2*c^2*d^2*(2*p+3)-2*a*c*e^2*(m+2*p+3))-
-      g*(a*e*(b*e-2*c*d*m+b*e*m)-b*d*(3*c*d-b*e+2*c*d*p-b*e*p))+
-      c*e*(g*(b*d-2*a*e)-f*(2*c*d-b*e))*(m+2*p+4)*x,x],x]] /;
-FreeQ[{a,b,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[p,-1] && Not[GtQ[m,0]]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
-  -(d+e*x)^(m+1)*(a+c*x^2)^(p+1)*(a*(e*f-d*g)+(c*d*f+a*e*g)*x)/(2*a*(p+1)*(c*d^2+a*e^2)) + 
-  1/(2*a*(p+1)*(c*d^2+a*e^2))*Int[(d+e*x)^m*(a+c*x^2)^(p+1)*
-   ExpandToSum[2*a*(p+1)*(c*d^2+a*e^2)*Q+c*d^2*f*(2*p+3)-a*e*(d*g*m-e*f*(m+2*p+3))+e*(c*d*f+a*e*g)*(m+2*p+4)*x,x],x]] /;
-FreeQ[{a,c,d,e,m},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[p,-1] && Not[GtQ[m,0]]
-
-
-Int[(d_.+e_.*x_)^m_*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,d+e*x,x], R=PolynomialRemainder[Pq,d+e*x,x]},
-  (e*R*(d+e*x)^(m+1)*(a+b*x+c*x^2)^(p+1))/((m+1)*(c*d^2-b*d*e+a*e^2)) + 
-  1/((m+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x)^(m+1)*(a+b*x+c*x^2)^p*
-     ExpandToSum[(m+1)*(c*d^2-b*d*e+a*e^2)*Q+c*d*R*(m+1)-b*e*R*(m+p+2)-c*e*R*(m+2*p+3)*x,x],x]] /;
-FreeQ[{a,b,c,d,e,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)^m_*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,d+e*x,x], R=PolynomialRemainder[Pq,d+e*x,x]},
-  (e*R*(d+e*x)^(m+1)*(a+c*x^2)^(p+1))/((m+1)*(c*d^2+a*e^2)) + 
-  1/((m+1)*(c*d^2+a*e^2))*Int[(d+e*x)^(m+1)*(a+c*x^2)^p*
-     ExpandToSum[(m+1)*(c*d^2+a*e^2)*Q+c*d*R*(m+1)-c*e*R*(m+2*p+3)*x,x],x]] /;
-FreeQ[{a,c,d,e,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  Coeff[Pq,x,q]/e^q*Int[(d+e*x)^(m+q)*(a+b*x+c*x^2)^p,x] + 
-  1/e^q*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*ExpandToSum[e^q*Pq-Coeff[Pq,x,q]*(d+e*x)^q,x],x] /;
- EqQ[m+q+2*p+1,0]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  Coeff[Pq,x,q]/e^q*Int[(d+e*x)^(m+q)*(a+c*x^2)^p,x] + 
-  1/e^q*Int[(d+e*x)^m*(a+c*x^2)^p*ExpandToSum[e^q*Pq-Coeff[Pq,x,q]*(d+e*x)^q,x],x] /;
- EqQ[m+q+2*p+1,0]] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
-  f*(d+e*x)^(m+q-1)*(a+b*x+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
-  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+b*x+c*x^2)^p*ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-
-    f*(d+e*x)^(q-2)*(b*d*e*(p+1)+a*e^2*(m+q-1)-c*d^2*(m+q+2*p+1)-e*(2*c*d-b*e)*(m+q+p)*x),x],x] /;
- NeQ[m+q+2*p+1,0]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c,0] && NeQ[c*d^2-b*d*e+a*e^2,0]
-
-
-Int[(d_.+e_.*x_)^m_.*Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],f=Coeff[Pq,x,Expon[Pq,x]]},
-  f*(d+e*x)^(m+q-1)*(a+c*x^2)^(p+1)/(c*e^(q-1)*(m+q+2*p+1)) + 
-  1/(c*e^q*(m+q+2*p+1))*Int[(d+e*x)^m*(a+c*x^2)^p*ExpandToSum[c*e^q*(m+q+2*p+1)*Pq-c*f*(m+q+2*p+1)*(d+e*x)^q-
-    f*(d+e*x)^(q-2)*(a*e^2*(m+q-1)-c*d^2*(m+q+2*p+1)-2*c*d*e*(m+q+p)*x),x],x] /;
- NeQ[m+q+2*p+1,0]] /;
-FreeQ[{a,c,d,e,m,p},x] && PolyQ[Pq,x] && NeQ[c*d^2+a*e^2,0]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.1.8 Pq(x) (a+b x+c x^2)^p*)
-
-
-Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],k},
-  Int[Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2}]*(a+c*x^2)^p,x] + 
-  Int[x*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2}]*(a+c*x^2)^p,x]] /;
-FreeQ[{a,c,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]] && NeQ[p,-1]
-
-
-Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x+c*x^2)^p,x],x] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && PositiveIntegerQ[p+2]
-
-
-Int[Pq_*(a_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+c*x^2)^p,x],x] /;
-FreeQ[{a,c},x] && PolyQ[Pq,x] && PositiveIntegerQ[p+2]
-
-
-Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[x*ExpandToSum[Pq/x,x]*(a+b*x+c*x^2)^p,x] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  Int[x*ExpandToSum[Pq/x,x]*(a+c*x^2)^p,x] /;
-FreeQ[{a,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  (a+b*x+c*x^2)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x)^(2*FracPart[p]))*Int[Pq*(b+2*c*x)^(2*p),x] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[b^2-4*a*c]
-
-
-Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+b*x+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+b*x+c*x^2,x],x,1]},
-  (b*f-2*a*g+(2*c*f-b*g)*x)*(a+b*x+c*x^2)^(p+1)/((p+1)*(b^2-4*a*c)) + 
-  1/((p+1)*(b^2-4*a*c))*Int[(a+b*x+c*x^2)^(p+1)*ExpandToSum[(p+1)*(b^2-4*a*c)*Q-(2*p+3)*(2*c*f-b*g),x],x]] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && LtQ[p,-1]
-
-
-Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{Q=PolynomialQuotient[Pq,a+c*x^2,x],
-        f=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,0],
-        g=Coeff[PolynomialRemainder[Pq,a+c*x^2,x],x,1]},
-  (a*g-c*f*x)*(a+c*x^2)^(p+1)/(2*a*c*(p+1)) + 
-  1/(2*a*c*(p+1))*Int[(a+c*x^2)^(p+1)*ExpandToSum[2*a*c*(p+1)*Q+c*f*(2*p+3),x],x]] /;
-FreeQ[{a,c},x] && PolyQ[Pq,x] && LtQ[p,-1]
-
-
-Int[Pq_*(a_.+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],e=Coeff[Pq,x,Expon[Pq,x]]},
-  e*x^(q-1)*(a+b*x+c*x^2)^(p+1)/(c*(q+2*p+1)) + 
-  1/(c*(q+2*p+1))*Int[(a+b*x+c*x^2)^p*
-    ExpandToSum[c*(q+2*p+1)*Pq-a*e*(q-1)*x^(q-2)-b*e*(q+p)*x^(q-1)-c*e*(q+2*p+1)*x^q,x],x]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && Not[LeQ[p,-1]]
-
-
-Int[Pq_*(a_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x],e=Coeff[Pq,x,Expon[Pq,x]]},
-  e*x^(q-1)*(a+c*x^2)^(p+1)/(c*(q+2*p+1)) + 
-  1/(c*(q+2*p+1))*Int[(a+c*x^2)^p*
-    ExpandToSum[c*(q+2*p+1)*Pq-a*e*(q-1)*x^(q-2)-c*e*(q+2*p+1)*x^q,x],x]] /;
-FreeQ[{a,c,p},x] && PolyQ[Pq,x] && Not[LeQ[p,-1]]
-
-
-
-`)
+UnifyInertTrigFunction[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
+  (g*cos[e-Pi/2+f*x])^p*(a-b*csc[e-Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
 
-func resourcesRubi121QuadraticTrinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi121QuadraticTrinomialProductsM, nil
-}
 
-func resourcesRubi121QuadraticTrinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi121QuadraticTrinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Text:: *)
+(*(g Csc[e+f x])^p (a+b Sec[e+f x])^m == (g Sec[e-Pi/2+f x])^p (a-b Csc[e-Pi/2+f x])^m*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.2.1 Quadratic trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi122QuarticTrinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.2.2 Quartic Trinomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.1 (a+b x^2+c x^4)^p*)
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^p/(b+2*c*x^2)^(2*p)*Int[(b+2*c*x^2)^(2*p),x] /;
-FreeQ[{a,b,c,p},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  x*(a+b*x^2+c*x^4)^p/(4*p+1) + 
-  2*p/(4*p+1)*Int[(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && IntegerQ[2*p]
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  -x*(b^2-2*a*c+b*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*(p+1)*(b^2-4*a*c)) +
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(b^2-2*a*c+2*(p+1)*(b^2-4*a*c)+b*c*(4*p+7)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[1/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  c/q*Int[1/(b/2-q/2+c*x^2),x] - c/q*Int[1/(b/2+q/2+c*x^2),x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[b^2-4*a*c]
-
-
-Int[1/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*q*r)*Int[(r-x)/(q-r*x+x^2),x] + 1/(2*c*q*r)*Int[(r+x)/(q+r*x+x^2),x]]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[b^2-4*a*c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*Sqrt[-c]*Int[1/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  (1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^2+c*x^4])*EllipticF[2*ArcTan[q*x],1/2-b*q^2/(4*c)]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[-2*a-(b-q)*x^2]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*Sqrt[-a]*Sqrt[a+b*x^2+c*x^4])*
-    EllipticF[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)] /;
-  IntegerQ[q]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*Sqrt[a+b*x^2+c*x^4]*Sqrt[a/(2*a+(b+q)*x^2)])*
-    EllipticF[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*a+(b+q)*x^2)*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]/(2*a*Rt[(b+q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
-    EllipticF[ArcTan[Rt[(b+q)/(2*a),2]*x],2*q/(b+q)] /;
- PosQ[(b+q)/a] && Not[PosQ[(b-q)/a] && SimplerSqrtQ[(b-q)/(2*a),(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*a+(b-q)*x^2)*Sqrt[(2*a+(b+q)*x^2)/(2*a+(b-q)*x^2)]/(2*a*Rt[(b-q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
-    EllipticF[ArcTan[Rt[(b-q)/(2*a),2]*x],-2*q/(b-q)] /;
- PosQ[(b-q)/a]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+(b+q)*x^2/(2*a)]*Sqrt[1+(b-q)*x^2/(2*a)]/(Rt[-(b+q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
-    EllipticF[ArcSin[Rt[-(b+q)/(2*a),2]*x],(b-q)/(b+q)] /;
- NegQ[(b+q)/a] && Not[NegQ[(b-q)/a] && SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+(b-q)*x^2/(2*a)]*Sqrt[1+(b+q)*x^2/(2*a)]/(Rt[-(b-q)/(2*a),2]*Sqrt[a+b*x^2+c*x^4])*
-    EllipticF[ArcSin[Rt[-(b-q)/(2*a),2]*x],(b+q)/(b-q)] /;
- NegQ[(b-q)/a]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  (1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(2*q*Sqrt[a+b*x^2+c*x^4])*EllipticF[2*ArcTan[q*x],1/2-b*q^2/(4*c)]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
-
-
-Int[1/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
-    Int[1/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^2+c*x^4)^FracPart[p]/
-    ((1+2*c*x^2/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^2/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
-    Int[(1+2*c*x^2/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^2/(b-Sqrt[b^2-4*a*c]))^p,x] /;
-FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.2 (d x)^m (a+b x^2+c x^4)^p*)
-
-
-Int[x_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,p},x]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p] && Not[IntegerQ[Simplify[(m+1)/2]]]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(2*a*d*n*(p+1)*(2*p+1)) - 
-  (d*x)^(m+1)*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^p/(2*a*d*n*(2*p+1)) /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0] && EqQ[m+2*n(p+1)+1,0] && NeQ[2*p+1,0]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*Int[(d*x)^m*(b/2+c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
-
-
-Int[x_^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[x^(Simplify[(m+1)/2]-1)*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,p},x] && NeQ[b^2-4*a*c] && IntegerQ[(m+1)/2]
-
-
-Int[(d_.*x_)^m_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/d*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(2*k)/d^2+c*x^(4*k)/d^4)^p,x],x,(d*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  d*(d*x)^(m-1)*(2*b*p+c*(m+4*p-1)*x^2)*(a+b*x^2+c*x^4)^p/(c*(m+4*p+1)*(m+4*p-1)) - 
-  2*p*d^2/(c*(m+4*p+1)*(m+4*p-1))*
-    Int[(d*x)^(m-2)*(a+b*x^2+c*x^4)^(p-1)*Simp[a*b*(m-1)-(2*a*c*(m+4*p-1)-b^2*(m+2*p-1))*x^2,x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p>0 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^2+c*x^4)^p/(d*(m+1)) - 
-  2*p/(d^2*(m+1))*Int[(d*x)^(m+2)*(b+2*c*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p>0 && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^2+c*x^4)^p/(d*(m+4*p+1)) + 
-  2*p/(m+4*p+1)*Int[(d*x)^m*(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p-1),x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && NeQ[m+4*p+1] && IntegerQ[2*p] && 
-  (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  d*(d*x)^(m-1)*(b+2*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*(p+1)*(b^2-4*a*c)) - 
-  d^2/(2*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^(m-2)*(b*(m-1)+2*c*(m+4*(p+1)+1)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p<-1 && 1<m<=3 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  -d^3*(d*x)^(m-3)*(2*a+b*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*(p+1)*(b^2-4*a*c)) + 
-  d^4/(2*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^(m-4)*(2*a*(m-3)+b*(m+4*p+3)*x^2)*(a+b*x^2+c*x^4)^(p+1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m,p] && p<-1 && m>3 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*d*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^m*(a+b*x^2+c*x^4)^(p+1)*Simp[b^2*(m+2*p+3)-2*a*c*(m+4*(p+1)+1)+b*c*(m+4*p+7)*x^2,x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  d^3*(d*x)^(m-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(m+4*p+1)) - 
-  d^4/(c*(m+4*p+1))*
-    Int[(d*x)^(m-4)*Simp[a*(m-3)+b*(m+2*p-1)*x^2,x]*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>3 && NeQ[m+4*p+1] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*d*(m+1)) - 
-  1/(a*d^2*(m+1))*Int[(d*x)^(m+2)*(b*(m+2*p+3)+c*(m+4*p+5)*x^2)*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,p},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  (d*x)^(m+1)/(a*d*(m+1)) -
-  1/(a*d^2)*Int[(d*x)^(m+2)*(b+c*x^2)/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m<-1
-
-
-Int[x_^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[PolynomialDivide[x^m,(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && IntegerQ[m] && m>5
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  d^3*(d*x)^(m-3)/(c*(m-3)) - d^4/c*Int[(d*x)^(m-4)*(a+b*x^2)/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>3
-
-
-Int[x_^2/(a_+b_.*x_^2+c_.*x_^4), x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  1/2*Int[(q+x^2)/(a+b*x^2+c*x^4),x] - 1/2*Int[(q-x^2)/(a+b*x^2+c*x^4),x]] /;
-FreeQ[{a,b,c},x] && NegativeQ[b^2-4*a*c] && PosQ[a*c]
-
-
-Int[x_^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*r)*Int[x^(m-3)*(q+r*x)/(q+r*x+x^2),x] - 
-  1/(2*c*r)*Int[x^(m-3)*(q-r*x)/(q-r*x+x^2),x]]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && 3<=m<4 && NegQ[b^2-4*a*c]
-
-
-Int[x_^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*r)*Int[x^(m-1)/(q-r*x+x^2),x] - 1/(2*c*r)*Int[x^(m-1)/(q+r*x+x^2),x]]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && 1<=m<3 && NegQ[b^2-4*a*c]
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  d^2/2*(b/q+1)*Int[(d*x)^(m-2)/(b/2+q/2+c*x^2),x] - 
-  d^2/2*(b/q-1)*Int[(d*x)^(m-2)/(b/2-q/2+c*x^2),x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-4*a*c] && RationalQ[m] && m>=2
-
-
-Int[(d_.*x_)^m_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  c/q*Int[(d*x)^m/(b/2-q/2+c*x^2),x] - c/q*Int[(d*x)^m/(b/2+q/2+c*x^2),x]] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[b^2-4*a*c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*Sqrt[-c]*Int[x^2/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,2]},
-  1/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -(b-q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  x*(b+q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
-  Rt[(b+q)/(2*a),2]*(2*a+(b+q)*x^2)*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]/(2*c*Sqrt[a+b*x^2+c*x^4])*
-    EllipticE[ArcTan[Rt[(b+q)/(2*a),2]*x],2*q/(b+q)] /;
- PosQ[(b+q)/a] && Not[PosQ[(b-q)/a] && SimplerSqrtQ[(b-q)/(2*a),(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  x*(b-q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
-  Rt[(b-q)/(2*a),2]*(2*a+(b-q)*x^2)*Sqrt[(2*a+(b+q)*x^2)/(2*a+(b-q)*x^2)]/(2*c*Sqrt[a+b*x^2+c*x^4])*
-    EllipticE[ArcTan[Rt[(b-q)/(2*a),2]*x],-2*q/(b-q)] /;
- PosQ[(b-q)/a]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -(b+q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b+q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NegQ[(b+q)/a] && Not[NegQ[(b-q)/a] && SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -(b-q)/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + 1/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NegQ[(b-q)/a]] /;
-FreeQ[{a,b,c},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,2]},
-  1/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 1/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
-
-
-Int[x_^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
-    Int[x^2/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^2+c*x^4)^FracPart[p]/
-    ((1+2*c*x^2/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^2/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
-    Int[(d*x)^m*(1+2*c*x^2/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^2/(b-Sqrt[b^2-4*a*c]))^p,x] /;
-FreeQ[{a,b,c,d,m,p},x]
-
-
-Int[u_^m_.*(a_.+b_.*v_^2+c_.*v_^4)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^2+c*x^(2*2))^p,x],x,v] /;
-FreeQ[{a,b,c,m,p},x] && LinearPairQ[u,v,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.3 (d+e x^2)^q (a+b x^2+c x^4)^p*)
-
-
-Int[(d_+e_.*x_^2)/(b_.*x_^2+c_.*x_^4)^(3/4),x_Symbol] :=
-  -2*(c*d-b*e)*(b*x^2+c*x^4)^(1/4)/(b*c*x) + e/c*Int[(b*x^2+c*x^4)^(1/4)/x^2,x] /;
-FreeQ[{b,c,d,e},x]
-
-
-Int[(d_+e_.*x_^2)*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  e*(b*x^2+c*x^4)^(p+1)/(c*(4*p+3)*x) /;
-FreeQ[{b,c,d,e,p},x] && Not[IntegerQ[p]] && NeQ[4*p+3] && EqQ[b*e*(2*p+1)-c*d*(4*p+3)]
-
-
-Int[(d_+e_.*x_^2)*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  e*(b*x^2+c*x^4)^(p+1)/(c*(4*p+3)*x) - ((b*e*(2*p+1)-c*d*(4*p+3))/(c*(4*p+3)))*Int[(b*x^2+c*x^4)^p,x] /;
-FreeQ[{b,c,d,e,p},x] && Not[IntegerQ[p]] && NeQ[4*p+3] && NeQ[b*e*(2*p+1)-c*d*(4*p+3)]
-
-
-Int[(d_+e_.*x_^2)^q_.*(b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (b*x^2+c*x^4)^FracPart[p]/(x^(2*FracPart[p])*(b+c*x^2)^FracPart[p])*Int[x^(2*p)*(d+e*x^2)^q*(b+c*x^2)^p,x] /;
-FreeQ[{b,c,d,e,p,q},x] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_.)^q_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^p/(d+e*x^n)^(2*p)*Int[(d+e*x^n)^(q+2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_+e_.*x_^n_.)^q_.*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*Int[(d+e*x^n)^q*(b/2+c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,c,d,e,q},x] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  (a+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(d+e*x^2)^(p+q)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,c,d,e,p,q},x] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[p,q]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[p,q]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  -(c*d^2-b*d*e+a*e^2)*x*(d+e*x^2)^(q+1)/(2*d*e^2*(q+1)) + 
-  1/(2*(q+1)*d*e^2)*Int[(d+e*x^2)^(q+1)*Simp[c*d^2-b*d*e+a*e^2*(2*(q+1)+1)+2*c*d*e*(q+1)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4),x_Symbol] :=
-  -(c*d^2+a*e^2)*x*(d+e*x^2)^(q+1)/(2*d*e^2*(q+1)) + 
-  1/(2*(q+1)*d*e^2)*Int[(d+e*x^2)^(q+1)*Simp[c*d^2+a*e^2*(2*(q+1)+1)+2*c*d*e*(q+1)*x^2,x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  c*x^(2+1)*(d+e*x^2)^(q+1)/(e*(2*(q+2)+1)) + 
-  1/(e*(2*(q+2)+1))*Int[(d+e*x^2)^q*(a*e*(2*(q+2)+1)-(3*c*d-b*e*(2*(q+2)+1))*x^2),x] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4),x_Symbol] :=
-  c*x^(2+1)*(d+e*x^2)^(q+1)/(e*(2*(q+2)+1)) + 
-  1/(e*(2*(q+2)+1))*Int[(d+e*x^2)^q*(a*e*(2*(q+2)+1)-3*c*d*x^2),x] /;
-FreeQ[{a,c,d,e,q},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[2*d/e-b/c,2]},
-  e/(2*c)*Int[1/Simp[d/e+q*x+x^2,x],x] + e/(2*c)*Int[1/Simp[d/e-q*x+x^2,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && 
-  (PositiveQ[2*d/e-b/c] || Not[NegativeQ[2*d/e-b/c]] && EqQ[d-e*Rt[a/c,2]])
-
-
-Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[2*d/e,2]},
-  e/(2*c)*Int[1/Simp[d/e+q*x+x^2,x],x] + e/(2*c)*Int[1/Simp[d/e-q*x+x^2,x],x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2-a*e^2] && PosQ[d*e]
-
-
-Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^2),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-2*d/e-b/c,2]},
-  e/(2*c*q)*Int[(q-2*x)/Simp[d/e+q*x-x^2,x],x] + 
-  e/(2*c*q)*Int[(q+2*x)/Simp[d/e-q*x-x^2,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && Not[PositiveQ[b^2-4*a*c]]
-
-
-Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-2*d/e,2]},
-  e/(2*c*q)*Int[(q-2*x)/Simp[d/e+q*x-x^2,x],x] + 
-  e/(2*c*q)*Int[(q+2*x)/Simp[d/e-q*x-x^2,x],x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[c*d^2-a*e^2] && NegQ[d*e]
-
-
-Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^2),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-a*e^2] && PosQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (e/2+c*d/(2*q))*Int[1/(-q+c*x^2),x] + (e/2-c*d/(2*q))*Int[1/(q+c*x^2),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2-a*e^2] && PosQ[-a*c]
-
-
-Int[(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[a*c,2]},
-  (d*q+a*e)/(2*a*c)*Int[(q+c*x^2)/(a+c*x^4),x] +
-  (d*q-a*e)/(2*a*c)*Int[(q-c*x^2)/(a+c*x^4),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NeQ[c*d^2-a*e^2] && NegQ[-a*c]
-
-
-Int[(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*q*r)*Int[(d*r-(d-e*q)*x)/(q-r*x+x^2),x] + 
-  1/(2*c*q*r)*Int[(d*r+(d-e*q)*x)/(q+r*x+x^2),x]]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q/(a+c*x^4),x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  e^2/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^2)^q,x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^2)^(q+1)*(c*d-b*e-c*e*x^2)/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  e^2/(c*d^2+a*e^2)*Int[(d+e*x^2)^q,x] + 
-  c/(c*d^2+a*e^2)*Int[(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  2*c/r*Int[(d+e*x^2)^q/(b-r+2*c*x^2),x] - 2*c/r*Int[(d+e*x^2)^q/(b+r+2*c*x^2),x]] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]]
-
-
-Int[(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  With[{r=Rt[-a*c,2]},
-  -c/(2*r)*Int[(d+e*x^2)^q/(r-c*x^2),x] - c/(2*r)*Int[(d+e*x^2)^q/(r+c*x^2),x]] /;
-FreeQ[{a,c,d,e,q},x] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]]
-
-
-Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  x*(2*b*e*p+c*d*(4*p+3)+c*e*(4*p+1)*x^2)*(a+b*x^2+c*x^4)^p/(c*(4*p+1)*(4*p+3)) + 
-  2*p/(c*(4*p+1)*(4*p+3))*Int[Simp[2*a*c*d*(4*p+3)-a*b*e+(2*a*c*e*(4*p+1)+b*c*d*(4*p+3)-b^2*e*(2*p+1))*x^2,x]*
-    (a+b*x^2+c*x^4)^(p-1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && FractionQ[p] && p>0 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  x*(d*(4*p+3)+e*(4*p+1)*x^2)*(a+c*x^4)^p/((4*p+1)*(4*p+3)) + 
-  2*p/((4*p+1)*(4*p+3))*Int[Simp[2*a*d*(4*p+3)+(2*a*e*(4*p+1))*x^2,x]*(a+c*x^4)^(p-1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && FractionQ[p] && p>0 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  -x*(d*b^2-a*b*e-2*a*c*d+(b*d-2*a*e)*c*x^2)*(a+b*x^2+c*x^4)^(p+1)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[Simp[(2*p+3)*d*b^2-a*b*e-2*a*c*d*(4*p+5)+(4*p+7)*(d*b-2*a*e)*c*x^2,x]*
-    (a+b*x^2+c*x^4)^(p+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  -x*(d+e*x^2)*(a+c*x^4)^(p+1)/(4*a*(p+1)) + 
-  1/(4*a*(p+1))*Int[Simp[d*(4*p+5)+e*(4*p+7)*x^2,x]*(a+c*x^4)^(p+1),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*Sqrt[-c]*Int[(d+e*x^2)/(Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  Sqrt[-c]*Int[(d+e*x^2)/(Sqrt[q+c*x^2]*Sqrt[q-c*x^2]),x]] /;
-FreeQ[{a,c,d,e},x] && PositiveQ[a] && NegativeQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  -d*x*Sqrt[a+b*x^2+c*x^4]/(a*(1+q^2*x^2)) + 
-  d*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+b*x^2+c*x^4])*EllipticE[2*ArcTan[q*x],1/2-b*q^2/(4*c)] /;
- EqQ[e+d*q^2]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,2]},
-  (e+d*q)/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NeQ[e+d*q]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && PositiveQ[c/a] && NegativeQ[b/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  e*x*(b+q+2*c*x^2)/(2*c*Sqrt[a+b*x^2+c*x^4]) - 
-  e*q*Sqrt[(2*a+(b-q)*x^2)/(2*a+(b+q)*x^2)]*Sqrt[(2*a+(b+q)*x^2)/q]/(2*c*Sqrt[a+b*x^2+c*x^4]*Sqrt[a/(2*a+(b+q)*x^2)])*
-    EllipticE[ArcSin[x/Sqrt[(2*a+(b+q)*x^2)/(2*q)]],(b+q)/(2*q)] /;
- EqQ[2*c*d-e*(b-q)]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  e*x*(q+c*x^2)/(c*Sqrt[a+c*x^4]) - 
-  Sqrt[2]*e*q*Sqrt[-a+q*x^2]*Sqrt[(a+q*x^2)/q]/(Sqrt[-a]*c*Sqrt[a+c*x^4])*
-    EllipticE[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
- EqQ[c*d+e*q] && IntegerQ[q]] /;
-FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  e*x*(q+c*x^2)/(c*Sqrt[a+c*x^4]) - 
-  Sqrt[2]*e*q*Sqrt[(a-q*x^2)/(a+q*x^2)]*Sqrt[(a+q*x^2)/q]/(c*Sqrt[a+c*x^4]*Sqrt[a/(a+q*x^2)])*
-    EllipticE[ArcSin[x/Sqrt[(a+q*x^2)/(2*q)]],1/2] /;
- EqQ[c*d+e*q]] /;
-FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*d-e*(b-q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NeQ[2*c*d-e*(b-q)]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (c*d+e*q)/c*Int[1/Sqrt[a+c*x^4],x] - e/c*Int[(q-c*x^2)/Sqrt[a+c*x^4],x] /;
- NeQ[c*d+e*q]] /;
-FreeQ[{a,c,d,e},x] && NegativeQ[a] && PositiveQ[c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  d*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e*Int[x^2/Sqrt[a+b*x^2+c*x^4],x] /;
- PosQ[(b+q)/a] || PosQ[(b-q)/a]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  d*Int[1/Sqrt[a+c*x^4],x] + e*Int[x^2/Sqrt[a+c*x^4],x] /;
-FreeQ[{a,c,d,e},x] && PositiveQ[-a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -a*e*Rt[-(b+q)/(2*a),2]*Sqrt[1+(b+q)*x^2/(2*a)]*Sqrt[1+(b-q)*x^2/(2*a)]/(c*Sqrt[a+b*x^2+c*x^4])*
-    EllipticE[ArcSin[Rt[-(b+q)/(2*a),2]*x],(b-q)/(b+q)] /;
- NegQ[(b+q)/a] && EqQ[2*c*d-e*(b+q)] && Not[SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*d-e*(b+q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b+q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NegQ[(b+q)/a] && NeQ[2*c*d-e*(b+q)] && Not[SimplerSqrtQ[-(b-q)/(2*a),-(b+q)/(2*a)]]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  -a*e*Rt[-(b-q)/(2*a),2]*Sqrt[1+(b-q)*x^2/(2*a)]*Sqrt[1+(b+q)*x^2/(2*a)]/(c*Sqrt[a+b*x^2+c*x^4])*
-    EllipticE[ArcSin[Rt[-(b-q)/(2*a),2]*x],(b+q)/(b-q)] /;
- NegQ[(b-q)/a] && EqQ[2*c*d-e*(b-q)]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*d-e*(b-q))/(2*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] + e/(2*c)*Int[(b-q+2*c*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NegQ[(b-q)/a] && NeQ[2*c*d-e*(b-q)]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  -d*x*Sqrt[a+b*x^2+c*x^4]/(a*(1+q^2*x^2)) + 
-  d*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+b*x^2+c*x^4])*EllipticE[2*ArcTan[q*x],1/2-b*q^2/(4*c)] /;
- EqQ[e+d*q^2]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  -d*x*Sqrt[a+c*x^4]/(a*(1+q^2*x^2)) + 
-  d*(1+q^2*x^2)*Sqrt[(a+c*x^4)/(a*(1+q^2*x^2)^2)]/(q*Sqrt[a+c*x^4])*EllipticE[2*ArcTan[q*x],1/2] /;
- EqQ[e+d*q^2]] /;
-FreeQ[{a,c,d,e},x] && PosQ[c/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,2]},
-  (e+d*q)/q*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
- NeQ[e+d*q]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PosQ[c/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[c/a,2]},
-  (e+d*q)/q*Int[1/Sqrt[a+c*x^4],x] - e/q*Int[(1-q*x^2)/Sqrt[a+c*x^4],x] /;
- NeQ[e+d*q]] /;
-FreeQ[{a,c,d,e},x] && PosQ[c/a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  d/Sqrt[a]*Int[Sqrt[1+e*x^2/d]/Sqrt[1-e*x^2/d],x] /;
-FreeQ[{a,c,d,e},x] && NegQ[c/a] && EqQ[c*d^2+a*e^2] && PositiveQ[a]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  Sqrt[1+c*x^4/a]/Sqrt[a+c*x^4]*Int[(d+e*x^2)/Sqrt[1+c*x^4/a],x] /;
-FreeQ[{a,c,d,e},x] && NegQ[c/a] && EqQ[c*d^2+a*e^2] && Not[PositiveQ[a]]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[-c/a,2]},
-  (d*q-e)/q*Int[1/Sqrt[a+c*x^4],x] + e/q*Int[(1+q*x^2)/Sqrt[a+c*x^4],x]] /;
-FreeQ[{a,c,d,e},x] && NegQ[c/a] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_^2)/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
-    Int[(d+e*x^2)/(Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
-
-
-Int[(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)*(a+c*x^4)^p,x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-(* Int[(d_+e_.*x_^2)^2/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  e^2*x*Sqrt[a+b*x^2+c*x^4]/(3*c) + 
-  2*(3*c*d-b*e)/(3*c)*Int[(d+e*x^2)/Sqrt[a+b*x^2+c*x^4],x] - 
-  (3*c*d^2-2*b*d*e+a*e^2)/(3*c)*Int[1/Sqrt[a+b*x^2+c*x^4],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] *)
-
-
-(* Int[(d_+e_.*x_^2)^2/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  e^2*x*Sqrt[a+c*x^4]/(3*c) + 
-  2*d*Int[(d+e*x^2)/Sqrt[a+c*x^4],x] - 
-  (3*c*d^2+a*e^2)/(3*c)*Int[1/Sqrt[a+c*x^4],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] *)
-
-
-(* Int[(d_+e_.*x_^2)^q_/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  e^2*x*(d+e*x^2)^(q-2)*Sqrt[a+b*x^2+c*x^4]/(c*(2*q-1)) + 
-  2*(q-1)*(3*c*d-b*e)/(c*(2*q-1))*Int[(d+e*x^2)^(q-1)/Sqrt[a+b*x^2+c*x^4],x] - 
-  (2*q-3)*(3*c*d^2-2*b*d*e+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-2)/Sqrt[a+b*x^2+c*x^4],x] + 
-  2*d*(q-2)*(c*d^2-b*d*e+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-3)/Sqrt[a+b*x^2+c*x^4],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[q-2] *)
-
-
-(* Int[(d_+e_.*x_^2)^q_/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  e^2*x*(d+e*x^2)^(q-2)*Sqrt[a+c*x^4]/(c*(2*q-1)) + 
-  6*d*(q-1)/(2*q-1)*Int[(d+e*x^2)^(q-1)/Sqrt[a+c*x^4],x] - 
-  (2*q-3)*(3*c*d^2+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-2)/Sqrt[a+c*x^4],x] + 
-  2*d*(q-2)*(c*d^2+a*e^2)/(c*(2*q-1))*Int[(d+e*x^2)^(q-3)/Sqrt[a+c*x^4],x] /;
-FreeQ[{a,c,d,e},x] && PositiveIntegerQ[q-2] *)
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{f=Coeff[PolynomialRemainder[(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
-        g=Coeff[PolynomialRemainder[(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
-    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
-      b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g+c*(4*p+7)*(b*f-2*a*g)*x^2,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q-1] && 
-  RationalQ[p] && p<-1
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  e^q*x^(2*q-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(4*p+2*q+1)) + 
-  1/(c*(4*p+2*q+1))*Int[(a+b*x^2+c*x^4)^p*
-    ExpandToSum[c*(4*p+2*q+1)*(d+e*x^2)^q-a*(2*q-3)*e^q*x^(2*q-4)-b*(2*p+2*q-1)*e^q*x^(2*q-2)-c*(4*p+2*q+1)*e^q*x^(2*q),x],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q-1]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  e^q*x^(2*q-3)*(a+c*x^4)^(p+1)/(c*(4*p+2*q+1)) + 
-  1/(c*(4*p+2*q+1))*Int[(a+c*x^4)^p*
-    ExpandToSum[c*(4*p+2*q+1)*(d+e*x^2)^q-a*(2*q-3)*e^q*x^(2*q-4)-c*(4*p+2*q+1)*e^q*x^(2*q),x],x] /;
-FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[q-1]
-
-
-Int[(a_+b_.*x_^2+c_.*x_^4)^p_/(d_+e_.*x_^2),x_Symbol] :=
-  -x*(b^2*c*d-b^3*e-2*a*c^2*d+3*a*b*c*e+c*(b*c*d-b^2*e+2*a*c*e)*x^2)*(a+b*x^2+c*x^4)^(p+1)/
-    (2*a*(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2)) - 
-  1/(2*a*(p+1)*(b^2-4*a*c)*(c*d^2-b*d*e+a*e^2))*Int[((a+b*x^2+c*x^4)^(p+1)/(d+e*x^2))*
-    Simp[b^3*d*e*(3+2*p)-a*b*c*d*e*(11+8*p)-b^2*(2*a*e^2*(p+1)+c*d^2*(3+2*p))+
-      2*a*c*(4*a*e^2*(p+1)+c*d^2*(5+4*p))-
-      (4*a*c^2*d*e-2*b^2*c*d*e*(2+p)-b^3*e^2*(3+2*p)+b*c*(c*d^2*(7+4*p)+a*e^2*(11+8*p)))*x^2-
-      c*e*(b*c*d-b^2*e+2*a*c*e)*(7+4*p)*x^4,x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[p+1/2]
-
-
-Int[(a_+c_.*x_^4)^p_/(d_+e_.*x_^2),x_Symbol] :=
-  -x*(-2*a*c^2*d+c*(2*a*c*e)*x^2)*(a+c*x^4)^(p+1)/(2*a*(p+1)*(-4*a*c)*(c*d^2+a*e^2)) - 
-  1/(2*a*(p+1)*(-4*a*c)*(c*d^2+a*e^2))*Int[((a+c*x^4)^(p+1)/(d+e*x^2))*
-    Simp[2*a*c*(4*a*e^2*(p+1)+c*d^2*(5+4*p))-(4*a*c^2*d*e)*x^2-c*e*(2*a*c*e)*(7+4*p)*x^4,x],x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[p+1/2]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^2),x_Symbol] :=
-  -1/e^2*Int[(c*d-b*e-c*e*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
-  (c*d^2-b*d*e+a*e^2)/e^2*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[Sqrt[a_+c_.*x_^4]/(d_+e_.*x_^2),x_Symbol] :=
-  -c/e^2*Int[(d-e*x^2)/Sqrt[a+c*x^4],x] + 
-  (c*d^2+a*e^2)/e^2*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*Sqrt[-c]*Int[1/((d+e*x^2)*Sqrt[b+q+2*c*x^2]*Sqrt[-b+q-2*c*x^2]),x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && NegativeQ[c]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  Sqrt[-c]*Int[1/((d+e*x^2)*Sqrt[q+c*x^2]*Sqrt[q-c*x^2]),x]] /;
-FreeQ[{a,c,d,e},x] && PositiveQ[a] && NegativeQ[c]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/(2*c*d-e*(b-q))*Int[1/Sqrt[a+b*x^2+c*x^4],x] - e/(2*c*d-e*(b-q))*Int[(b-q+2*c*x^2)/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[b^2-4*a*c] && Not[NegativeQ[c]]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  c/(c*d+e*q)*Int[1/Sqrt[a+c*x^4],x] + e/(c*d+e*q)*Int[(q-c*x^2)/((d+e*x^2)*Sqrt[a+c*x^4]),x]] /;
-FreeQ[{a,c,d,e},x] && PositiveQ[-a*c] && Not[NegativeQ[c]]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  ArcTan[Sqrt[(c*d^2-b*d*e+a*e^2)/(d*e)]*x/Sqrt[a+b*x^2+c*x^4]]/(2*d*Sqrt[(c*d^2-b*d*e+a*e^2)/(d*e)]) + 
-  (e+d*q^2)*(1+q^2*x^2)*Sqrt[(a+b*x^2+c*x^4)/(a*(1+q^2*x^2)^2)]/(4*d*q*(e-d*q^2)*Sqrt[a+b*x^2+c*x^4])*
-    EllipticPi[-(e-d*q^2)^2/(4*d*e*q^2),2*ArcTan[q*x],1/2-b*q^2/(4*c)] - 
-  q^2/(e-d*q^2)*Int[1/Sqrt[a+b*x^2+c*x^4],x] /;
- NeQ[e-d*q^2]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PosQ[c/a]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[c/a,4]},
-  ArcTan[Sqrt[(c*d^2+a*e^2)/(d*e)]*x/Sqrt[a+c*x^4]]/(2*d*Sqrt[(c*d^2+a*e^2)/(d*e)]) + 
-  (e+d*q^2)*(1+q^2*x^2)*Sqrt[(a+c*x^4)/(a*(1+q^2*x^2)^2)]/(4*d*q*(e-d*q^2)*Sqrt[a+c*x^4])*
-    EllipticPi[-(e-d*q^2)^2/(4*d*e*q^2),2*ArcTan[q*x],1/2] - 
-  q^2/(e-d*q^2)*Int[1/Sqrt[a+c*x^4],x] /;
- NeQ[e-d*q^2]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PosQ[c/a]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[-c/a,4]},
-  1/(d*Sqrt[a]*q)*EllipticPi[-e/(d*q^2),ArcSin[q*x],-1]] /;
-FreeQ[{a,c,d,e},x] && NegQ[c/a] && PositiveQ[a]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  Sqrt[1+c*x^4/a]/Sqrt[a+c*x^4]*Int[1/((d+e*x^2)*Sqrt[1+c*x^4/a]),x] /;
-FreeQ[{a,c,d,e},x] && NegQ[c/a] && Not[PositiveQ[a]]
-
-
-Int[1/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]/Sqrt[a+b*x^2+c*x^4]*
-    Int[1/((d+e*x^2)*Sqrt[1+2*c*x^2/(b-q)]*Sqrt[1+2*c*x^2/(b+q)]),x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegQ[c/a]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*Sqrt[a+b*x^2+c*x^4]/(2*d*(d+e*x^2)) + 
-  c/(2*d*e^2)*Int[(d-e*x^2)/Sqrt[a+b*x^2+c*x^4],x] - 
-  (c*d^2-a*e^2)/(2*d*e^2)*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[Sqrt[a_+c_.*x_^4]/(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*Sqrt[a+c*x^4]/(2*d*(d+e*x^2)) + 
-  c/(2*d*e^2)*Int[(d-e*x^2)/Sqrt[a+c*x^4],x] - 
-  (c*d^2-a*e^2)/(2*d*e^2)*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[1/((d_+e_.*x_^2)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  e^2*x*Sqrt[a+b*x^2+c*x^4]/(2*d*(c*d^2-b*d*e+a*e^2)*(d+e*x^2)) - 
-  c/(2*d*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
-  (3*c*d^2-2*b*d*e+a*e^2)/(2*d*(c*d^2-b*d*e+a*e^2))*Int[1/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[1/((d_+e_.*x_^2)^2*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  e^2*x*Sqrt[a+c*x^4]/(2*d*(c*d^2+a*e^2)*(d+e*x^2)) - 
-  c/(2*d*(c*d^2+a*e^2))*Int[(d+e*x^2)/Sqrt[a+c*x^4],x] + 
-  (3*c*d^2+a*e^2)/(2*d*(c*d^2+a*e^2))*Int[1/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Module[{aa,bb,cc},
-  Int[ReplaceAll[ExpandIntegrand[1/Sqrt[aa+bb*x^2+cc*x^4],(d+e*x^2)^q*(aa+bb*x^2+cc*x^4)^(p+1/2),x],{aa->a,bb->b,cc->c}],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && NegativeIntegerQ[q] && IntegerQ[p+1/2] && p!=-1/2
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  Module[{aa,cc},
-  Int[ReplaceAll[ExpandIntegrand[1/Sqrt[aa+cc*x^4],(d+e*x^2)^q*(aa+cc*x^4)^(p+1/2),x],{aa->a,cc->c}],x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && IntegerQ[p+1/2] && p!=-1/2
-
-
-Int[(d_+e_.*x_^2)^q_/Sqrt[a_+b_.*x_^2+c_.*x_^4],x_Symbol] :=
-  -e^2*x*(d+e*x^2)^(q+1)*Sqrt[a+b*x^2+c*x^4]/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2)) + 
-  (2*q+3)*(3*c*d^2-2*b*d*e+a*e^2)/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+1)/Sqrt[a+b*x^2+c*x^4],x] - 
-  (q+2)*(3*c*d-b*e)/(d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+2)/Sqrt[a+b*x^2+c*x^4],x] + 
-  c*(2*q+5)/(2*d*(q+1)*(c*d^2-b*d*e+a*e^2))*Int[(d+e*x^2)^(q+3)/Sqrt[a+b*x^2+c*x^4],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[q+2]
-
-
-Int[(d_+e_.*x_^2)^q_/Sqrt[a_+c_.*x_^4],x_Symbol] :=
-  -e^2*x*(d+e*x^2)^(q+1)*Sqrt[a+c*x^4]/(2*d*(q+1)*(c*d^2+a*e^2)) + 
-  (2*q+3)*(3*c*d^2+a*e^2)/(2*d*(q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+1)/Sqrt[a+c*x^4],x] - 
-  3*c*(q+2)/((q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+2)/Sqrt[a+c*x^4],x] + 
-  c*(2*q+5)/(2*d*(q+1)*(c*d^2+a*e^2))*Int[(d+e*x^2)^(q+3)/Sqrt[a+c*x^4],x] /;
-FreeQ[{a,c,d,e},x] && NegativeIntegerQ[q+2]
-
-
-Int[1/(Sqrt[d_+e_.*x_^2]*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  1/(2*Sqrt[a]*Sqrt[d]*Rt[-e/d,2])*EllipticF[2*ArcSin[Rt[-e/d,2]*x],b*d/(4*a*e)] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && PositiveQ[a] && PositiveQ[d]
-
-
-Int[1/(Sqrt[d_+e_.*x_^2]*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  Sqrt[(d+e*x^2)/d]*Sqrt[(a+b*x^2+c*x^4)/a]/(Sqrt[d+e*x^2]*Sqrt[a+b*x^2+c*x^4])*
-    Int[1/(Sqrt[1+e/d*x^2]*Sqrt[1+b/a*x^2+c/a*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && Not[PositiveQ[a] && PositiveQ[d]]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[a]/(2*Sqrt[d]*Rt[-e/d,2])*EllipticE[2*ArcSin[Rt[-e/d,2]*x],b*d/(4*a*e)] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && PositiveQ[a] && PositiveQ[d]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2+c*x^4]*Sqrt[(d+e*x^2)/d]/(Sqrt[d+e*x^2]*Sqrt[(a+b*x^2+c*x^4)/a])*
-    Int[Sqrt[1+b/a*x^2+c/a*x^4]/Sqrt[1+e/d*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d-b*e] && Not[PositiveQ[a] && PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  c^p*x^(4*p-1)*(d+e*x^2)^(q+1)/(e*(4*p+2*q+1)) + 
-  Int[(d+e*x^2)^q*ExpandToSum[(a+b*x^2+c*x^4)^p-c^p*x^(4*p)-d*c^p*(4*p-1)*x^(4*p-2)/(e*(4*p+2*q+1)),x],x] /;
-FreeQ[{a,b,c,d,e,q},x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p] && 
-  NeQ[4*p+2*q+1] && Not[PositiveIntegerQ[q]]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  c^p*x^(4*p-1)*(d+e*x^2)^(q+1)/(e*(4*p+2*q+1)) + 
-  Int[(d+e*x^2)^q*ExpandToSum[(a+c*x^4)^p-c^p*x^(4*p)-d*c^p*(4*p-1)*x^(4*p-2)/(e*(4*p+2*q+1)),x],x] /;
-FreeQ[{a,c,d,e,q},x] && PositiveIntegerQ[p] && 
-  NeQ[4*p+2*q+1] && Not[PositiveIntegerQ[q]]
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && NeQ[b^2-4*a*c] && (IntegersQ[p,q] || PositiveIntegerQ[p] || PositiveIntegerQ[q])
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
-FreeQ[{a,c,d,e,p,q},x] && (IntegersQ[p,q] || PositiveIntegerQ[p])
-
-
-Int[(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+c*x^4)^p,(d/(d^2-e^2*x^4)-e*x^2/(d^2-e^2*x^4))^(-q),x],x] /;
-FreeQ[{a,c,d,e,p},x] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && Not[IntegersQ[2*p]]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,e,p,q},x]
-
-
-Int[(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^q*(a+c*x^4)^p,x] /;
-FreeQ[{a,c,d,e,p,q},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.4 (f x)^m (d+e x^2)^q (a+b x^2+c x^4)^p*)
-
-
-Int[x_^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  1/(2*e^((m+1)/2-1))*Subst[Int[(e*x)^(q+(m+1)/2-1)*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,e,p,q},x] && IntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  1/(2*e^((m+1)/2-1))*Subst[Int[(e*x)^(q+(m+1)/2-1)*(a+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,c,e,p,q},x] && IntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  f^m*e^IntPart[q]*(e*x^2)^FracPart[q]/x^(2*FracPart[q])*Int[x^(m+2*q)*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,e,f,m,p,q},x] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[(m+1)/2]]
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  f^m*e^IntPart[q]*(e*x^2)^FracPart[q]/x^(2*FracPart[q])*Int[x^(m+2*q)*(a+c*x^4)^p,x] /;
-FreeQ[{a,c,e,f,m,p,q},x] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[(m+1)/2]]
-
-
-Int[(f_*x_)^m_.*(e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,e,f,m,p,q},x] && Not[IntegerQ[m]]
-
-
-Int[(f_*x_)^m_.*(e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^2)^q*(a+c*x^4)^p,x] /;
-FreeQ[{a,c,e,f,m,p,q},x] && Not[IntegerQ[m]]
-
-
-Int[x_*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,d,e,p,q},x]
-
-
-Int[x_*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[(d+e*x)^q*(a+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,c,d,e,p,q},x]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[b^2-4*a*c,0] && Not[IntegerQ[p]] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^FracPart[p]/(c^IntPart[p]*(b/2+c*x^2)^(2*FracPart[p]))*
-    Int[(f*x)^m*(d+e*x^2)^q*(b/2+c*x^2)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[b^2-4*a*c,0] && Not[IntegerQ[p]]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,d,e,m,p,q},x] && IntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  1/2*Subst[Int[x^((m+1)/2-1)*(d+e*x)^q*(a+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,c,d,e,m,p,q},x] && IntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,q,m,q},x] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*
-    Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  (a+c*x^4)^FracPart[p]/((d+e*x^2)^FracPart[p]*(a/d+(c*x^2)/e)^FracPart[p])*Int[(f*x)^m*(d+e*x^2)^(q+p)*(a/d+c/e*x^2)^p,x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
-  1/(2*e^(2*p+m/2)*(q+1))*Int[(d+e*x^2)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^2)*(2*e^(2*p+m/2)*(q+1)*x^m*(a+b*x^2+c*x^4)^p-
-      (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*(d+e*(2*q+3)*x^2))],x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m>0
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  (-d)^(m/2-1)*(c*d^2+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
-  1/(2*e^(2*p+m/2)*(q+1))*Int[(d+e*x^2)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^2)*(2*e^(2*p+m/2)*(q+1)*x^m*(a+c*x^4)^p-
-      (-d)^(m/2-1)*(c*d^2+a*e^2)^p*(d+e*(2*q+3)*x^2))],x],x] /;
-FreeQ[{a,c,d,e},x] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m>0
-
-
-Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  (-d)^(m/2-1)*(c*d^2-b*d*e+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
-  (-d)^(m/2-1)/(2*e^(2*p)*(q+1))*Int[x^m*(d+e*x^2)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^2)*(2*(-d)^(-m/2+1)*e^(2*p)*(q+1)*(a+b*x^2+c*x^4)^p - 
-      (e^(-m/2)*(c*d^2-b*d*e+a*e^2)^p*x^(-m))*(d+e*(2*q+3)*x^2))],x],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m<0
-
-
-Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  (-d)^(m/2-1)*(c*d^2+a*e^2)^p*x*(d+e*x^2)^(q+1)/(2*e^(2*p+m/2)*(q+1)) + 
-  (-d)^(m/2-1)/(2*e^(2*p)*(q+1))*Int[x^m*(d+e*x^2)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^2)*(2*(-d)^(-m/2+1)*e^(2*p)*(q+1)*(a+c*x^4)^p - 
-      (e^(-m/2)*(c*d^2+a*e^2)^p*x^(-m))*(d+e*(2*q+3)*x^2))],x],x] /;
-FreeQ[{a,c,d,e},x] && PositiveIntegerQ[p] && IntegersQ[m/2,q] && q<-1 && m<0
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  c^p*(f*x)^(m+4*p-1)*(d+e*x^2)^(q+1)/(e*f^(4*p-1)*(m+4*p+2*q+1)) + 
-  1/(e*(m+4*p+2*q+1))*Int[(f*x)^m*(d+e*x^2)^q*
-    ExpandToSum[e*(m+4*p+2*q+1)*((a+b*x^2+c*x^4)^p-c^p*x^(4*p))-d*c^p*(m+4*p-1)*x^(4*p-2),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && PositiveIntegerQ[p] && Not[IntegerQ[q]] && NeQ[m+4*p+2*q+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  c^p*(f*x)^(m+4*p-1)*(d+e*x^2)^(q+1)/(e*f^(4*p-1)*(m+4*p+2*q+1)) + 
-  1/(e*(m+4*p+2*q+1))*Int[(f*x)^m*(d+e*x^2)^q*
-    ExpandToSum[e*(m+4*p+2*q+1)*((a+c*x^4)^p-c^p*x^(4*p))-d*c^p*(m+4*p-1)*x^(4*p-2),x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && PositiveIntegerQ[p] && Not[IntegerQ[q]] && NeQ[m+4*p+2*q+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(2*k)/f^2)^q*(a+b*x^(2*k)/f^k+c*x^(4*k)/f^4)^p,x],x,(f*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && NeQ[b^2-4*a*c,0] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(2*k)/f)^q*(a+c*x^(4*k)/f)^p,x],x,(f*x)^(1/k)]] /;
-FreeQ[{a,c,d,e,f,p,q},x] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+b*x^2+c*x^4)^p*(d*(m+4*p+3)+e*(m+1)*x^2)/(f*(m+1)*(m+4*p+3)) + 
-  2*p/(f^2*(m+1)*(m+4*p+3))*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^(p-1)*
-    Simp[2*a*e*(m+1)-b*d*(m+4*p+3)+(b*e*(m+1)-2*c*d*(m+4*p+3))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<-1 && 
-  m+4*p+3!=0 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+c*x^4)^p*(d*(m+4*p+3)+e*(m+1)*x^2)/(f*(m+1)*(m+4*p+3)) + 
-  4*p/(f^2*(m+1)*(m+4*p+3))*Int[(f*x)^(m+2)*(a+c*x^4)^(p-1)*(a*e*(m+1)-c*d*(m+4*p+3)*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<-1 && 
-  m+4*p+3!=0 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+b*x^2+c*x^4)^p*(b*e*2*p+c*d*(m+4*p+3)+c*e*(4*p+m+1)*x^2)/
-    (c*f*(4*p+m+1)*(m+4*p+3)) + 
-  2*p/(c*(4*p+m+1)*(m+4*p+3))*Int[(f*x)^m*(a+b*x^2+c*x^4)^(p-1)*
-    Simp[2*a*c*d*(m+4*p+3)-a*b*e*(m+1)+(2*a*c*e*(4*p+m+1)+b*c*d*(m+4*p+3)-b^2*e*(m+2*p+1))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && p>0 && 
-  NeQ[4*p+m+1] && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+c*x^4)^p*(c*d*(m+4*p+3)+c*e*(4*p+m+1)*x^2)/(c*f*(4*p+m+1)*(m+4*p+3)) + 
-  4*a*p/((4*p+m+1)*(m+4*p+3))*Int[(f*x)^m*(a+c*x^4)^(p-1)*Simp[d*(m+4*p+3)+e*(4*p+m+1)*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && RationalQ[p] && p>0 && 
-  NeQ[4*p+m+1] && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(a+b*x^2+c*x^4)^(p+1)*(b*d-2*a*e-(b*e-2*c*d)*x^2)/(2*(p+1)*(b^2-4*a*c)) - 
-  f^2/(2*(p+1)*(b^2-4*a*c))*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^(p+1)*
-    Simp[(m-1)*(b*d-2*a*e)-(4*p+4+m+1)*(b*e-2*c*d)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(a+c*x^4)^(p+1)*(a*e-c*d*x^2)/(4*a*c*(p+1)) - 
-  f^2/(4*a*c*(p+1))*Int[(f*x)^(m-2)*(a+c*x^4)^(p+1)*(a*e*(m-1)-c*d*(4*p+4+m+1)*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^2)/(2*a*f*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^2+c*x^4)^(p+1)*
-    Simp[d*(b^2*(m+2*(p+1)+1)-2*a*c*(m+4*(p+1)+1))-a*b*e*(m+1)+c*(m+2*(2*p+3)+1)*(b*d-2*a*e)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+c*x^4)^(p+1)*(d+e*x^2)/(4*a*f*(p+1)) + 
-  1/(4*a*(p+1))*Int[(f*x)^m*(a+c*x^4)^(p+1)*Simp[d*(m+4*(p+1)+1)+e*(m+2*(2*p+3)+1)*x^2,x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && RationalQ[p] && p<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  e*f*(f*x)^(m-1)*(a+b*x^2+c*x^4)^(p+1)/(c*(m+4*p+3)) - 
-  f^2/(c*(m+4*p+3))*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^p*Simp[a*e*(m-1)+(b*e*(m+2*p+1)-c*d*(m+4*p+3))*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && NeQ[b^2-4*a*c,0] && RationalQ[m] && m>1 && 
-  NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  e*f*(f*x)^(m-1)*(a+c*x^4)^(p+1)/(c*(m+4*p+3)) - 
-  f^2/(c*(m+4*p+3))*Int[(f*x)^(m-2)*(a+c*x^4)^p*(a*e*(m-1)-c*d*(m+4*p+3)*x^2),x] /;
-FreeQ[{a,c,d,e,f,p},x] && RationalQ[m] && m>1 && NeQ[m+4*p+3] && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  d*(f*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*f*(m+1)) + 
-  1/(a*f^2*(m+1))*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^p*Simp[a*e*(m+1)-b*d*(m+2*p+3)-c*d*(m+4*p+5)*x^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && NeQ[b^2-4*a*c,0] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  d*(f*x)^(m+1)*(a+c*x^4)^(p+1)/(a*f*(m+1)) + 
-  1/(a*f^2*(m+1))*Int[(f*x)^(m+2)*(a+c*x^4)^p*(a*e*(m+1)-c*d*(m+4*p+5)*x^2),x] /;
-FreeQ[{a,c,d,e,f,p},x] && RationalQ[m] && m<-1 && IntegerQ[2*p] && (IntegerQ[p] || IntegerQ[m])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4), x_Symbol] :=
-  With[{r=Rt[c/e*(2*c*d-b*e),2]},
-  e/2*Int[(f*x)^m/(c*d/e-r*x+c*x^2),x] + 
-  e/2*Int[(f*x)^m/(c*d/e+r*x+c*x^2),x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && EqQ[c*d^2-a*e^2] && PositiveQ[d/e] && PosQ[c/e*(2*c*d-b*e)]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+c_.*x_^4), x_Symbol] :=
-  With[{r=Rt[2*c^2*d/e,2]},
-  e/2*Int[(f*x)^m/(c*d/e-r*x+c*x^2),x] + 
-  e/2*Int[(f*x)^m/(c*d/e+r*x+c*x^2),x]] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[c*d^2-a*e^2] && PositiveQ[d/e]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2-q/2+c*x^2),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2+q/2+c*x^2),x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)/(a_+c_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  -(e/2+c*d/(2*q))*Int[(f*x)^m/(q-c*x^2),x] + (e/2-c*d/(2*q))*Int[(f*x)^m/(q+c*x^2),x]] /;
-FreeQ[{a,c,d,e,f,m},x]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && IntegerQ[q] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q/(a+c*x^4),x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && IntegerQ[q] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m,(d+e*x^2)^q/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && IntegerQ[q] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_./(a_+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m,(d+e*x^2)^q/(a+c*x^4),x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && IntegerQ[q] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  f^4/c^2*Int[(f*x)^(m-4)*(c*d-b*e+c*e*x^2)*(d+e*x^2)^(q-1),x] - 
-  f^4/c^2*Int[(f*x)^(m-4)*(d+e*x^2)^(q-1)*Simp[a*(c*d-b*e)+(b*c*d-b^2*e+a*c*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m>3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  f^4/c*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
-  a*f^4/c*Int[(f*x)^(m-4)*(d+e*x^2)^q/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f,q},x] && Not[IntegerQ[q]] && RationalQ[m] && m>3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  e*f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1),x] - 
-  f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1)*Simp[a*e-(c*d-b*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && 1<m<=3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  e*f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1),x] - 
-  f^2/c*Int[(f*x)^(m-2)*(d+e*x^2)^(q-1)*Simp[a*e-c*d*x^2,x]/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && 1<m<=3
-
-
-Int[(f_.*x_)^m_*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  d/a*Int[(f*x)^m*(d+e*x^2)^(q-1),x] - 
-  1/(a*f^2)*Int[(f*x)^(m+2)*(d+e*x^2)^(q-1)*Simp[b*d-a*e+c*d*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
-
-
-Int[(f_.*x_)^m_*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  d/a*Int[(f*x)^m*(d+e*x^2)^(q-1),x] + 
-  1/(a*f^2)*Int[(f*x)^(m+2)*(d+e*x^2)^(q-1)*Simp[a*e-c*d*x^2,x]/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  d^2*f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
-  f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^(q+1)*Simp[a*d+(b*d-a*e)*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  d^2*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^q,x] - 
-  a*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  -d*e*f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^q,x] + 
-  f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^(q+1)*Simp[a*e+c*d*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && 1<m<=3
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  -d*e*f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^q,x] + 
-  f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(d+e*x^2)^(q+1)*Simp[a*e+c*d*x^2,x]/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f},x] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && 1<m<=3
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  e^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^2)^q,x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^2)^(q+1)*Simp[c*d-b*e-c*e*x^2,x]/(a+b*x^2+c*x^4),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  e^2/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^2)^q,x] + 
-  c/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^2)^(q+1)*(d-e*x^2)/(a+c*x^4),x] /;
-FreeQ[{a,c,d,e,f,m},x] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q,(f*x)^m/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c,d,e,f,q},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^q,(f*x)^m/(a+c*x^4),x],x] /;
-FreeQ[{a,c,d,e,f,q},x] && Not[IntegerQ[q]] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q,1/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q,1/(a+c*x^4),x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  2*c/r*Int[(f*x)^m*(d+e*x^2)^q/(b-r+2*c*x^2),x] - 2*c/r*Int[(f*x)^m*(d+e*x^2)^q/(b+r+2*c*x^2),x]] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_/(a_+c_.*x_^4),x_Symbol] :=
-  With[{r=Rt[-a*c,2]},
-  -c/(2*r)*Int[(f*x)^m*(d+e*x^2)^q/(r-c*x^2),x] - c/(2*r)*Int[(f*x)^m*(d+e*x^2)^q/(r+c*x^2),x]] /;
-FreeQ[{a,c,d,e,f,m,q},x]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*x_^2+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
-  1/d^2*Int[(f*x)^m*(a*d+(b*d-a*e)*x^2)*(a+b*x^2+c*x^4)^(p-1),x] + 
-  (c*d^2-b*d*e+a*e^2)/(d^2*f^4)*Int[(f*x)^(m+4)*(a+b*x^2+c*x^4)^(p-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<-2
-
-
-Int[(f_.*x_)^m_*(a_+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
-  a/d^2*Int[(f*x)^m*(d-e*x^2)*(a+c*x^4)^(p-1),x] + 
-  (c*d^2+a*e^2)/(d^2*f^4)*Int[(f*x)^(m+4)*(a+c*x^4)^(p-1)/(d+e*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<-2
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*x_^2+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
-  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^2)*(a+b*x^2+c*x^4)^(p-1),x] - 
-  (c*d^2-b*d*e+a*e^2)/(d*e*f^2)*Int[(f*x)^(m+2)*(a+b*x^2+c*x^4)^(p-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p>0 && m<0
-
-
-Int[(f_.*x_)^m_*(a_+c_.*x_^4)^p_./(d_.+e_.*x_^2),x_Symbol] :=
-  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^2)*(a+c*x^4)^(p-1),x] - 
-  (c*d^2+a*e^2)/(d*e*f^2)*Int[(f*x)^(m+2)*(a+c*x^4)^(p-1)/(d+e*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p>0 && m<0
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*x_^2+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
-  -f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(a*d+(b*d-a*e)*x^2)*(a+b*x^2+c*x^4)^p,x] + 
-  d^2*f^4/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-4)*(a+b*x^2+c*x^4)^(p+1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>2
-
-
-Int[(f_.*x_)^m_.*(a_+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
-  -a*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(d-e*x^2)*(a+c*x^4)^p,x] + 
-  d^2*f^4/(c*d^2+a*e^2)*Int[(f*x)^(m-4)*(a+c*x^4)^(p+1)/(d+e*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>2
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*x_^2+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
-  f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(a*e+c*d*x^2)*(a+b*x^2+c*x^4)^p,x] - 
-  d*e*f^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2)*(a+b*x^2+c*x^4)^(p+1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b^2-4*a*c,0] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[(f_.*x_)^m_.*(a_+c_.*x_^4)^p_/(d_.+e_.*x_^2),x_Symbol] :=
-  f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(a*e+c*d*x^2)*(a+c*x^4)^p,x] - 
-  d*e*f^2/(c*d^2+a*e^2)*Int[(f*x)^(m-2)*(a+c*x^4)^(p+1)/(d+e*x^2),x] /;
-FreeQ[{a,c,d,e,f},x] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{f=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
-        g=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
-    Simp[ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
-      b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g+c*(4*p+7)*(b*f-2*a*g)*x^2,x],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IGtQ[q,1] && IGtQ[m/2,0]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^q_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{f=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,0],
-        g=Coeff[PolynomialRemainder[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*g-f*(b^2-2*a*c)-c*(b*f-2*a*g)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
-    Simp[ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*(d+e*x^2)^q,a+b*x^2+c*x^4,x]+
-      (b^2*f*(2*p+3)-2*a*c*f*(4*p+5)-a*b*g)*x^(-m)+c*(4*p+7)*(b*f-2*a*g)*x^(2-m),x],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IGtQ[q,1] && ILtQ[m/2,0]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && NeQ[b^2-4*a*c,0] && (PositiveIntegerQ[p] || PositiveIntegerQ[q] || IntegersQ[m,q])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^2)^q*(a+c*x^4)^p,x],x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && (PositiveIntegerQ[p] || PositiveIntegerQ[q] || IntegersQ[m,q])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  f^m*Int[ExpandIntegrand[x^m*(a+c*x^4)^p,(d/(d^2-e^2*x^4)-e*x^2/(d^2-e^2*x^4))^(-q),x],x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && NegativeIntegerQ[q] && (IntegerQ[m] || PositiveQ[f])
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^q_*(a_+c_.*x_^4)^p_,x_Symbol] :=
-  (f*x)^m/x^m*Int[x^m*(d+e*x^2)^q*(a+c*x^4)^p,x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && NegativeIntegerQ[q] && Not[IntegerQ[m] || PositiveQ[f]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^q*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^q_.*(a_+c_.*x_^4)^p_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^q*(a+c*x^4)^p,x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.6 (d x)^m Pq(x) (a+b x^2+c x^4)^p*)
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],k},
-  Int[(d*x)^m*Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2+1}]*(a+b*x^2+c*x^4)^p,x] + 
-  1/d*Int[(d*x)^(m+1)*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2+1}]*(a+b*x^2+c*x^4)^p,x]] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  1/2*Subst[Int[x^((m-1)/2)*SubstFor[x^2,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^2] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && IntegerQ[(m-1)/2]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c,d,m},x] && PolyQ[Pq,x^2] && IGtQ[p,-2]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  1/d^2*Int[(d*x)^(m+2)*ExpandToSum[Pq/x^2,x]*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  With[{e=Coeff[Pq,x,0],f=Coeff[Pq,x,2],g=Coeff[Pq,x,4]},
-  e*(d*x)^(m+1)*(a+b*x^2+c*x^4)^(p+1)/(a*d*(m+1)) /;
- EqQ[a*f*(m+1)-b*e*(m+2*p+3)] && EqQ[a*g*(m+1)-c*e*(m+4*p+5)] && NeQ[m+1]] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x]==4
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^2)^(2*FracPart[p]))*Int[(d*x)^m*Pq*(b+2*c*x^2)^(2*p),x] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && EqQ[b^2-4*a*c]
-
-
-Int[x_^m_*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,0],
-        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
-    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
-      b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e+c*(4*p+7)*(b*d-2*a*e)*x^2,x],x]] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
-  PositiveIntegerQ[m/2]
-
-
-Int[x_^m_*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,0],
-        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
-    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
-      (b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e)*x^(-m)+c*(4*p+7)*(b*d-2*a*e)*x^(2-m),x],x]] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
-  NegativeIntegerQ[m/2]
-
-
-(* Int[x_^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{d=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,1],
-        e=Coeff[PolynomialRemainder[x^m*Pq,a+b*x^2+c*x^4,x],x,3]},
-  x^2*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(a*(p+1)*(b^2-4*a*c))*Int[x^m*(a+b*x^2+c*x^4)^(p+1)*
-    ExpandToSum[a*(p+1)*(b^2-4*a*c)*x^(-m)*PolynomialQuotient[x^m*Pq,a+b*x^2+c*x^4,x]+
-      (b^2*d*(p+2)-2*a*c*d*(2*p+3)-a*b*e)*x^(1-m)+2*c*(p+2)*(b*d-2*a*e)*x^(3-m),x],x]] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && 
-  IntegerQ[(m-1)/2] *)
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*Pq*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && PolyQ[Pq,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.2.5 Pq(x) (a+b x^2+c x^4)^p*)
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x^2+c*x^4)^p,x],x] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && IGtQ[p,0]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^2+c*x^4)^p,x] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0],0]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],k},
-  Int[Sum[Coeff[Pq,x,2*k]*x^(2*k),{k,0,q/2}]*(a+b*x^2+c*x^4)^p,x] + 
-  Int[x*Sum[Coeff[Pq,x,2*k+1]*x^(2*k),{k,0,(q-1)/2}]*(a+b*x^2+c*x^4)^p,x]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && Not[PolyQ[Pq,x^2]]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  With[{d=Coeff[Pq,x,0],e=Coeff[Pq,x,2],f=Coeff[Pq,x,4]},
-  d*x*(a+b*x^2+c*x^4)^(p+1)/a /;
- EqQ[a*e-b*d*(2*p+3),0] && EqQ[a*f-c*d*(4*p+5),0]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && EqQ[Expon[Pq,x],4]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_.,x_Symbol] :=
-  With[{d=Coeff[Pq,x,0],e=Coeff[Pq,x,2],f=Coeff[Pq,x,4],g=Coeff[Pq,x,6]},
-  x*(3*a*d+(a*e-b*d*(2*p+3))*x^2)*(a+b*x^2+c*x^4)^(p+1)/(3*a^2) /;
- EqQ[3*a^2*g-c*(4*p+7)*(a*e-b*d*(2*p+3)),0] && EqQ[3*a^2*f-3*a*c*d*(4*p+5)-b*(2*p+5)*(a*e-b*d*(2*p+3)),0]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && EqQ[Expon[Pq,x],6]
-
-
-Int[Pq_/(a_+b_.*x_^2+c_.*x_^4),x_Symbol] :=
-  Int[ExpandIntegrand[Pq/(a+b*x^2+c*x^4),x],x] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  (a+b*x^2+c*x^4)^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^2)^(2*FracPart[p]))*Int[Pq*(b+2*c*x^2)^(2*p),x] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && EqQ[b^2-4*a*c,0]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{d=Coeff[PolynomialRemainder[Pq,a+b*x^2+c*x^4,x],x,0],
-        e=Coeff[PolynomialRemainder[Pq,a+b*x^2+c*x^4,x],x,2]},
-  x*(a+b*x^2+c*x^4)^(p+1)*(a*b*e-d*(b^2-2*a*c)-c*(b*d-2*a*e)*x^2)/(2*a*(p+1)*(b^2-4*a*c)) + 
-  1/(2*a*(p+1)*(b^2-4*a*c))*Int[(a+b*x^2+c*x^4)^(p+1)*
-    ExpandToSum[2*a*(p+1)*(b^2-4*a*c)*PolynomialQuotient[Pq,a+b*x^2+c*x^4,x]+
-      b^2*d*(2*p+3)-2*a*c*d*(4*p+5)-a*b*e+c*(4*p+7)*(b*d-2*a*e)*x^2,x],x]] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c,0] && LtQ[p,-1]
-
-
-Int[Pq_*(a_+b_.*x_^2+c_.*x_^4)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x^2],e=Coeff[Pq,x^2,Expon[Pq,x^2]]},
-  e*x^(2*q-3)*(a+b*x^2+c*x^4)^(p+1)/(c*(2*q+4*p+1)) + 
-  1/(c*(2*q+4*p+1))*Int[(a+b*x^2+c*x^4)^p*
-    ExpandToSum[c*(2*q+4*p+1)*Pq-a*e*(2*q-3)*x^(2*q-4)-b*e*(2*q+2*p-1)*x^(2*q-2)-c*e*(2*q+4*p+1)*x^(2*q),x],x]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x^2] && Expon[Pq,x^2]>1 && NeQ[b^2-4*a*c,0] && Not[LtQ[p,-1]]
-
-
-
-`)
+UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
+  (g*sec[e-Pi/2+f*x])^p*(a-b*csc[e-Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
 
-func resourcesRubi122QuarticTrinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi122QuarticTrinomialProductsM, nil
-}
 
-func resourcesRubi122QuarticTrinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi122QuarticTrinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Subsubsection::Closed:: *)
+(*3.1.4 (d tan)^n (a+b sec)^m*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.2.2 Quartic trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi123GeneralTrinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.2.3 General Trinomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.3.1 (a+b x^n+c x^(2 n))^p*)
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(2*n*p)*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[n2,2*n] && LtQ[n,0] && IntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*x^(k*n)+c*x^(2*k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && FractionQ[n]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && ILtQ[n,0]
-
-
-Int[(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^p/(b+2*c*x^n)^(2*p)*Int[(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && EqQ[b^2-4*a*c,0]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && IGtQ[p,0]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  x*(a+b*x^n+c*x^(2*n))^p/(2*n*p+1) + 
-  n*p/(2*n*p+1)*Int[(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && GtQ[p,0] && NeQ[2*n*p+1,0] && IntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -x*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) +
-  1/(a*n*(p+1)*(b^2-4*a*c))*
-    Int[(b^2-2*a*c+n*(p+1)*(b^2-4*a*c)+b*c*(n*(2*p+3)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && LtQ[p,-1] && IntegerQ[p]
-
-
-Int[1/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*q*r)*Int[(r-x^(n/2))/(q-r*x^(n/2)+x^n),x] + 
-  1/(2*c*q*r)*Int[(r+x^(n/2))/(q+r*x^(n/2)+x^n),x]]] /;
-FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0] && IGtQ[n/2,0] && NegQ[b^2-4*a*c]
-
-
-Int[1/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  c/q*Int[1/(b/2-q/2+c*x^n),x] - c/q*Int[1/(b/2+q/2+c*x^n),x]] /;
-FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c,0]
-
-
-Int[(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n+c*x^(2*n))^FracPart[p]/
-    ((1+2*c*x^n/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^n/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
-    Int[(1+2*c*x^n/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^n/(b-Sqrt[b^2-4*a*c]))^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n]
-
-
-Int[(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[(b+a*x^n+c*x^(2*n))^p/x^(n*p),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[mn,-n] && IntegerQ[p] && PosQ[n]
-
-
-Int[(a_+b_.*x_^mn_+c_.*x_^n_.)^p_,x_Symbol] :=
-  x^(n*FracPart[p])*(a+b*x^(-n)+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*Int[(b+a*x^n+c*x^(2*n))^p/x^(n*p),x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[mn,-n] && Not[IntegerQ[p]] && PosQ[n]
-
-
-Int[(a_+b_.*u_^n_+c_.*u_^n2_.)^p_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,u] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && LinearQ[u,x] && NeQ[u,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.3.2 (d x)^m (a+b x^n+c x^(2 n))^p*)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && EqQ[Simplify[m-n+1]]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && PositiveIntegerQ[p] && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  Int[x^(m+2*n*p)*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[n2,2*n] && NegativeIntegerQ[p] && NegQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(d_*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(a+b*x^(n/k)+c*x^(2*n/k))^p,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/d*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)/d^n+c*x^(2*k*n)/d^(2*n))^p,x],x,(d*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^(n-1)*(d*x)^(m-n+1)*(b*n*p+c*(m+n*(2*p-1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^p/(c*(m+2*n*p+1)*(m+n*(2*p-1)+1)) - 
-  n*p*d^n/(c*(m+2*n*p+1)*(m+n*(2*p-1)+1))*
-    Int[(d*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p-1)*Simp[a*b*(m-n+1)-(2*a*c*(m+n*(2*p-1)+1)-b^2*(m+n*(p-1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m>n-1 && 
-  m+2*n*p+1!=0 && m+n*(2*p-1)+1!=0 && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p/(d*(m+1)) - 
-  n*p/(d^n*(m+1))*Int[(d*x)^(m+n)*(b+2*c*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p/(d*(m+2*n*p+1)) + 
-  n*p/(m+2*n*p+1)*Int[(d*x)^m*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && NeQ[m+2*n*p+1] && 
-  IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^(n-1)*(d*x)^(m-n+1)*(b+2*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(n*(p+1)*(b^2-4*a*c)) - 
-  d^n/(n*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^(m-n)*(b*(m-n+1)+2*c*(m+2*n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && n-1<m<=2*n-1 && 
-  IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -d^(2*n-1)*(d*x)^(m-2*n+1)*(2*a+b*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(n*(p+1)*(b^2-4*a*c)) + 
-  d^(2*n)/(n*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^(m-2*n)*(2*a*(m-2*n+1)+b*(m+n*(2*p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>2*n-1 && 
-  IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*Simp[b^2*(n*(p+1)+m+1)-2*a*c*(m+2*n*(p+1)+1)+b*c*(2*n*p+3*n+m+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^(2*n-1)*(d*x)^(m-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(m+2*n*p+1)) - 
-  d^(2*n)/(c*(m+2*n*p+1))*
-    Int[(d*x)^(m-2*n)*Simp[a*(m-2*n+1)+b*(m+n*(p-1)+1)*x^n,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>2*n-1 && 
-  NeQ[m+2*n*p+1] && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*(m+1)) - 
-  1/(a*d^n*(m+1))*Int[(d*x)^(m+n)*(b*(m+n*(p+1)+1)+c*(m+2*n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntegerQ[p]
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  (d*x)^(m+1)/(a*d*(m+1)) -
-  1/(a*d^n)*Int[(d*x)^(m+n)*(b+c*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[x_^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  Int[PolynomialDivide[x^m,(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m] && m>3*n-1
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  d^(2*n-1)*(d*x)^(m-2*n+1)/(c*(m-2*n+1)) -
-  d^(2*n)/c*Int[(d*x)^(m-2*n)*(a+b*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>2*n-1
-
-
-Int[x_^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*r)*Int[x^(m-3*(n/2))*(q+r*x^(n/2))/(q+r*x^(n/2)+x^n),x] - 
-  1/(2*c*r)*Int[x^(m-3*(n/2))*(q-r*x^(n/2))/(q-r*x^(n/2)+x^n),x]]] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n/2,m] && 3*n/2<=m<2*n && NegQ[b^2-4*a*c]
-
-
-Int[x_^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*r)*Int[x^(m-n/2)/(q-r*x^(n/2)+x^n),x] - 
-  1/(2*c*r)*Int[x^(m-n/2)/(q+r*x^(n/2)+x^n),x]]] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n/2,m] && n/2<=m<3*n/2 && NegQ[b^2-4*a*c]
-
-
-Int[(d_.*x_)^m_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  d^n/2*(b/q+1)*Int[(d*x)^(m-n)/(b/2+q/2+c*x^n),x] - 
-  d^n/2*(b/q-1)*Int[(d*x)^(m-n)/(b/2-q/2+c*x^n),x]] /;
-FreeQ[{a,b,c,d},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>=n
-
-
-Int[(d_.*x_)^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  c/q*Int[(d*x)^m/(b/2-q/2+c*x^n),x] - c/q*Int[(d*x)^m/(b/2+q/2+c*x^n),x]] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/d*Subst[Int[(a+b*d^(-n)*x^(-k*n)+c*d^(-2*n)*x^(-2*k*n))^p/x^(k*(m+1)+1),x],x,1/(d*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(d_.*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -d^IntPart[m]*(d*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*x^(k*n)+c*x^(2*k*n))^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[(d_*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(d_*x_)^m_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(d_.*x_)^m_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[(d*x)^m/(b-q+2*c*x^n),x] -
-  2*c/q*Int[(d*x)^m/(b+q+2*c*x^n),x]] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -(d*x)^(m+1)*(b^2-2*a*c+b*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*d*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*
-    Int[(d*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*Simp[b^2*(n*(p+1)+m+1)-2*a*c*(m+2*n*(p+1)+1)+b*c*(2*n*p+3*n+m+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2,2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_.*x_)^m_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  a^IntPart[p]*(a+b*x^n+c*x^(2*n))^FracPart[p]/
-    ((1+2*c*x^n/(b+Rt[b^2-4*a*c,2]))^FracPart[p]*(1+2*c*x^n/(b-Rt[b^2-4*a*c,2]))^FracPart[p])*
-    Int[(d*x)^m*(1+2*c*x^n/(b+Sqrt[b^2-4*a*c]))^p*(1+2*c*x^n/(b-Sqrt[b^2-4*a*c]))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2,2*n]
-
-
-Int[x_^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[x^(m-n*p)*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[mn,-n] && IntegerQ[p] && PosQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*Int[x^(m-n*p)*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[mn,-n] && Not[IntegerQ[p]] && PosQ[n]
-
-
-Int[(d_*x_)^m_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  d^IntPart[m]*(d*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*x^(-n)+c*x^n)^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[mn,-n]
-
-
-Int[x_^m_.*(a_.+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  1/Coefficient[v,x,1]^(m+1)*Subst[Int[SimplifyIntegrand[(x-Coefficient[v,x,0])^m*(a+b*x^n+c*x^(2*n))^p,x],x],x,v] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && LinearQ[v,x] && IntegerQ[m] && NeQ[v-x]
-
-
-Int[u_^m_.*(a_.+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2,2*n] && LinearPairQ[u,v,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.3.3 (d+e x^n)^q (a+b x^n+c x^(2 n))^p*)
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(n*(2*p+q))*(e+d*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(n*(2*p+q))*(e+d*x^(-n))^q*(c+a*x^(-2*n))^p,x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^2,x],x,1/x] /;
-FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g-1)*(d+e*x^(g*n))^q*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g-1)*(d+e*x^(g*n))^q*(a+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
-
-
-Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (b*e-d*c)*(b*x^n+c*x^(2*n))^(p+1)/(b*c*n*(p+1)*x^(2*n*(p+1))) + 
-  e/c*Int[x^(-n)*(b*x^n+c*x^(2*n))^(p+1),x] /;
-FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && EqQ[n*(2*p+1)+1]
-
-
-Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  e*x^(-n+1)*(b*x^n+c*x^(2*n))^(p+1)/(c*(n*(2*p+1)+1)) /;
-FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && NeQ[n*(2*p+1)+1] && EqQ[b*e*(n*p+1)-c*d*(n*(2*p+1)+1)]
-
-
-Int[(d_+e_.*x_^n_)*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  e*x^(-n+1)*(b*x^n+c*x^(2*n))^(p+1)/(c*(n*(2*p+1)+1)) - 
-  (b*e*(n*p+1)-c*d*(n*(2*p+1)+1))/(c*(n*(2*p+1)+1))*Int[(b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{b,c,d,e,n,p},x] && EqQ[n2-2*n] && Not[IntegerQ[p]] && NeQ[n*(2*p+1)+1] && NeQ[b*e*(n*p+1)-c*d*(n*(2*p+1)+1)]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (b*x^n+c*x^(2*n))^FracPart[p]/(x^(n*FracPart[p])*(b+c*x^n)^FracPart[p])*Int[x^(n*p)*(d+e*x^n)^q*(b+c*x^n)^p,x] /;
-FreeQ[{b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(d+e*x^n)^(p+q)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[q]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q*(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && PositiveIntegerQ[q]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  -(c*d^2-b*d*e+a*e^2)*x*(d+e*x^n)^(q+1)/(d*e^2*n*(q+1)) + 
-  1/(n*(q+1)*d*e^2)*Int[(d+e*x^n)^(q+1)*Simp[c*d^2-b*d*e+a*e^2*(n*(q+1)+1)+c*d*e*n*(q+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_),x_Symbol] :=
-  -(c*d^2+a*e^2)*x*(d+e*x^n)^(q+1)/(d*e^2*n*(q+1)) + 
-  1/(n*(q+1)*d*e^2)*Int[(d+e*x^n)^(q+1)*Simp[c*d^2+a*e^2*(n*(q+1)+1)+c*d*e*n*(q+1)*x^n,x],x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  c*x^(n+1)*(d+e*x^n)^(q+1)/(e*(n*(q+2)+1)) + 
-  1/(e*(n*(q+2)+1))*Int[(d+e*x^n)^q*(a*e*(n*(q+2)+1)-(c*d*(n+1)-b*e*(n*(q+2)+1))*x^n),x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_),x_Symbol] :=
-  c*x^(n+1)*(d+e*x^n)^(q+1)/(e*(n*(q+2)+1)) + 
-  1/(e*(n*(q+2)+1))*Int[(d+e*x^n)^q*(a*e*(n*(q+2)+1)-c*d*(n+1)*x^n),x] /;
-FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2]
-
-
-Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[2*d*e,2]},
-  e^2/(2*c)*Int[1/(d+q*x^(n/2)+e*x^n),x] + e^2/(2*c)*Int[1/(d-q*x^(n/2)+e*x^n),x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && PosQ[d*e]
-
-
-Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[-2*d*e,2]},
-  d/(2*a)*Int[(d-q*x^(n/2))/(d-q*x^(n/2)-e*x^n),x] + 
-  d/(2*a)*Int[(d+q*x^(n/2))/(d+q*x^(n/2)-e*x^n),x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && NegQ[d*e]
-
-
-Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a/c,4]},
-  1/(2*Sqrt[2]*c*q^3)*Int[(Sqrt[2]*d*q-(d-e*q^2)*x^(n/2))/(q^2-Sqrt[2]*q*x^(n/2)+x^n),x] + 
-  1/(2*Sqrt[2]*c*q^3)*Int[(Sqrt[2]*d*q+(d-e*q^2)*x^(n/2))/(q^2+Sqrt[2]*q*x^(n/2)+x^n),x]] /;
-FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NeQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && PosQ[a*c]
-
-
-Int[(d_+e_.*x_^3)/(a_+c_.*x_^6),x_Symbol] :=
-  With[{q=Rt[c/a,6]},
-  1/(3*a*q^2)*Int[(q^2*d-e*x)/(1+q^2*x^2),x] + 
-  1/(6*a*q^2)*Int[(2*q^2*d-(Sqrt[3]*q^3*d-e)*x)/(1-Sqrt[3]*q*x+q^2*x^2),x] + 
-  1/(6*a*q^2)*Int[(2*q^2*d+(Sqrt[3]*q^3*d+e)*x)/(1+Sqrt[3]*q*x+q^2*x^2),x]] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^2+a*e^2] && PosQ[c/a]
-
-
-Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[-a/c,2]},
-  (d+e*q)/2*Int[1/(a+c*q*x^n),x] + (d-e*q)/2*Int[1/(a-c*q*x^n),x]] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NegQ[a*c] && IntegerQ[n]
-
-
-Int[(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  d*Int[1/(a+c*x^(2*n)),x] + e*Int[x^n/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && (PosQ[a*c] || Not[IntegerQ[n]])
-
-
-Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[2*d/e-b/c,2]},
-  e/(2*c)*Int[1/Simp[d/e+q*x^(n/2)+x^n,x],x] + 
-  e/(2*c)*Int[1/Simp[d/e-q*x^(n/2)+x^n,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
-  (PositiveQ[2*d/e-b/c] || Not[NegativeQ[2*d/e-b/c]] && EqQ[d-e*Rt[a/c,2]])
-
-
-Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
-  PositiveQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[-2*d/e-b/c,2]},
-  e/(2*c*q)*Int[(q-2*x^(n/2))/Simp[d/e+q*x^(n/2)-x^n,x],x] + 
-  e/(2*c*q)*Int[(q+2*x^(n/2))/Simp[d/e-q*x^(n/2)-x^n,x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-a*e^2] && PositiveIntegerQ[n/2] && 
-  Not[PositiveQ[b^2-4*a*c]]
-
-
-Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[1/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[1/(b/2+q/2+c*x^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  (PosQ[b^2-4*a*c] || Not[PositiveIntegerQ[n/2]])
-
-
-Int[(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a/c,2]},
-  With[{r=Rt[2*q-b/c,2]},
-  1/(2*c*q*r)*Int[(d*r-(d-e*q)*x^(n/2))/(q-r*x^(n/2)+x^n),x] + 
-  1/(2*c*q*r)*Int[(d*r+(d-e*q)*x^(n/2))/(q+r*x^(n/2)+x^n),x]]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && PositiveIntegerQ[n/2] && 
-  NegQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  e^2/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^n)^q,x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(d+e*x^n)^(q+1)*(c*d-b*e-c*e*x^n)/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]] && 
-  RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
-  e^2/(c*d^2+a*e^2)*Int[(d+e*x^n)^q,x] + 
-  c/(c*d^2+a*e^2)*Int[(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  2*c/r*Int[(d+e*x^n)^q/(b-r+2*c*x^n),x] - 2*c/r*Int[(d+e*x^n)^q/(b+r+2*c*x^n),x]] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[q]]
-
-
-Int[(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{r=Rt[-a*c,2]},
-  -c/(2*r)*Int[(d+e*x^n)^q/(r-c*x^n),x] - c/(2*r)*Int[(d+e*x^n)^q/(r+c*x^n),x]] /;
-FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && Not[IntegerQ[q]]
-
-
-Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  x*(b*e*n*p+c*d*(2*n*p+n+1)+c*e*(2*n*p+1)*x^n)*(a+b*x^n+c*x^(2*n))^p/(c*(2*n*p+1)*(2*n*p+n+1)) + 
-  n*p/(c*(2*n*p+1)*(2*n*p+n+1))*
-    Int[Simp[2*a*c*d*(2*n*p+n+1)-a*b*e+(2*a*c*e*(2*n*p+1)+b*d*c*(2*n*p+n+1)-b^2*e*(n*p+1))*x^n,x]*
-      (a+b*x^n+c*x^(2*n))^(p-1),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[p] && p>0 && NeQ[2*n*p+1] && NeQ[2*n*p+n+1] && 
-  IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  x*(d*(2*n*p+n+1)+e*(2*n*p+1)*x^n)*(a+c*x^(2*n))^p/((2*n*p+1)*(2*n*p+n+1)) + 
-  2*a*n*p/((2*n*p+1)*(2*n*p+n+1))*Int[(d*(2*n*p+n+1)+e*(2*n*p+1)*x^n)*(a+c*x^(2*n))^(p-1),x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && FractionQ[p] && p>0 && NeQ[2*n*p+1] && NeQ[2*n*p+n+1] && 
-  IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(d*b^2-a*b*e-2*a*c*d+(b*d-2*a*e)*c*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*
-    Int[Simp[(n*p+n+1)*d*b^2-a*b*e-2*a*c*d*(2*n*p+2*n+1)+(2*n*p+3*n+1)*(d*b-2*a*e)*c*x^n,x]*
-      (a+b*x^n+c*x^(2*n))^(p+1),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1 && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(d+e*x^n)*(a+c*x^(2*n))^(p+1)/(2*a*n*(p+1)) + 
-  1/(2*a*n*(p+1))*Int[(d*(2*n*p+2*n+1)+e*(2*n*p+3*n+1)*x^n)*(a+c*x^(2*n))^(p+1),x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n] && RationalQ[p] && p<-1 && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)*(a+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,c,d,e,n},x] && EqQ[n2-2*n]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  c^p*x^(2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*(2*n*p+n*q+1)) + 
-  Int[(d+e*x^n)^q*ExpandToSum[(a+b*x^n+c*x^(2*n))^p-c^p*x^(2*n*p)-d*c^p*(2*n*p-n+1)*x^(2*n*p-n)/(e*(2*n*p+n*q+1)),x],x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[p] && 
-  NeQ[2*n*p+n*q+1] && PositiveIntegerQ[n] && Not[PositiveIntegerQ[q]]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  c^p*x^(2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*(2*n*p+n*q+1)) + 
-  Int[(d+e*x^n)^q*ExpandToSum[(a+c*x^(2*n))^p-c^p*x^(2*n*p)-d*c^p*(2*n*p-n+1)*x^(2*n*p-n)/(e*(2*n*p+n*q+1)),x],x] /;
-FreeQ[{a,c,d,e,n,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[p] && 
-  NeQ[2*n*p+n*q+1] && PositiveIntegerQ[n] && Not[PositiveIntegerQ[q]]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && 
-  (IntegersQ[p,q] && Not[IntegerQ[n]] || PositiveIntegerQ[p] || PositiveIntegerQ[q] && Not[IntegerQ[n]])
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && 
-  (IntegersQ[p,q] && Not[IntegerQ[n]] || PositiveIntegerQ[p] || PositiveIntegerQ[q] && Not[IntegerQ[n]])
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+c*x^(2*n))^p,(d/(d^2-e^2*x^(2*n))-e*x^n/(d^2-e^2*x^(2*n)))^(-q),x],x] /;
-FreeQ[{a,c,d,e,n,p},x] && EqQ[n2-2*n] && NeQ[c*d^2+a*e^2] && NegativeIntegerQ[q] && Not[IntegersQ[n,2*p]]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Defer[Int][(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegersQ[n,q]]
-
-
-Int[(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Defer[Int][(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && Not[IntegersQ[n,q]]
-
-
-Int[(d_+e_.*u_^n_)^q_.*(a_+b_.*u_^n_+c_.*u_^n2_)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x,u] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2-2*n] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(d_+e_.*u_^n_)^q_.*(a_+c_.*u_^n2_)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x,u] /;
-FreeQ[{a,c,d,e,n,p,q},x] && EqQ[n2-2*n] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2,2*n] && EqQ[mn,-n] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
-FreeQ[{a,c,d,e,mn,p},x] && EqQ[n2,-2*mn] && IntegerQ[q]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(-2*mn*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
-FreeQ[{a,c,d,e,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  x^(n*FracPart[q])*(d+e*x^(-n))^FracPart[q]/(e+d*x^n)^FracPart[q]*Int[x^(-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && PosQ[n]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  x^(-mn*FracPart[q])*(d+e*x^mn)^FracPart[q]/(e+d*x^(-mn))^FracPart[q]*Int[x^(mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
-FreeQ[{a,c,d,e,mn,p,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && PosQ[n2]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/(x^(2*n*FracPart[p])*(c+b*x^(-n)+a*x^(-2*n))^FracPart[p])*
-    Int[x^(2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && NegQ[n]
-
-
-Int[(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+c*x^n2)^FracPart[p]/(x^(n2*FracPart[p])*(c+a*x^(2*mn))^FracPart[p])*
-    Int[x^(n2*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
-FreeQ[{a,c,d,e,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]] && NegQ[n2]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[x^(-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,q},x] && EqQ[mn,-n] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*
-    Int[x^(-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*
-    Int[(d+e*x^n)^q*(f+g*x^n)^r*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,q,r},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,f,g,n,q,r},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
-    Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^n_)^q_.*(f_+g_.*x_^n_)^r_.*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
-    Int[(d+e*x^n)^(p+q)*(f+g*x^n)^r*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,f,g,n,p,q,r},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(f_.+g_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (2*c*f-g*(b-q))/(2*c*d-e*(b-q))*Int[1/Sqrt[a+b*x^2+c*x^4],x] - 
-  (e*f-d*g)/(2*c*d-e*(b-q))*Int[(b-q+2*c*x^2)/((d+e*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
- NeQ[2*c*f-g*(b-q)]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveQ[b^2-4*a*c] && NeQ[c*d^2-b*d*e+a*e^2] && Not[NegativeQ[c]]
-
-
-Int[(f_+g_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  (c*f+g*q)/(c*d+e*q)*Int[1/Sqrt[a+c*x^4],x] + (e*f-d*g)/(c*d+e*q)*Int[(q-c*x^2)/((d+e*x^2)*Sqrt[a+c*x^4]),x] /;
- NeQ[c*f+g*q]] /;
-FreeQ[{a,c,d,e,f,g},x] && PositiveQ[-a*c] && NeQ[c*d^2+a*e^2] && Not[NegativeQ[c]]
-
-
-Int[(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2] && 
-  (IntegerQ[q] || PositiveQ[d1] && PositiveQ[d2])
-
-
-Int[(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (d1+e1*x^(n/2))^FracPart[q]*(d2+e2*x^(n/2))^FracPart[q]/(d1*d2+e1*e2*x^n)^FracPart[q]*
-    Int[(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2]
-
-
-Int[(A_+B_.*x_^m_.)*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  A*Int[(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] + B*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,A,B,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[m-n+1]
-
-
-Int[(A_+B_.*x_^m_.)*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  A*Int[(d+e*x^n)^q*(a+c*x^(2*n))^p,x] + B*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,A,B,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[m-n+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.3.4 (f x)^m (d+e x^n)^q (a+b x^n+c x^(2 n))^p*)
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^m/(n*e^((m+1)/n-1))*Subst[Int[(e*x)^(q+(m+1)/n-1)*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^m/(n*e^((m+1)/n-1))*Subst[Int[(e*x)^(q+(m+1)/n-1)*(a+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^m*e^IntPart[q]*(e*x^n)^FracPart[q]/x^(n*FracPart[q])*Int[x^(m+n*q)*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[(f_.*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^m*e^IntPart[q]*(e*x^n)^FracPart[q]/x^(n*FracPart[q])*Int[x^(m+n*q)*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (IntegerQ[m] || PositiveQ[f]) && Not[IntegerQ[Simplify[(m+1)/n]]]
-
-
-Int[(f_*x_)^m_.*(e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
-
-
-Int[(f_*x_)^m_.*(e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,e,f,m,n,p,q},x] && EqQ[n2-2*n] && Not[IntegerQ[m]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[Simplify[m-n+1]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[(d+e*x)^q*(a+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[Simplify[m-n+1]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m+n*(2*p+q))*(e+d*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m+n*(2*p+q))*(e+d*x^(-n))^q*(c+a*x^(-2*n))^p,x] /;
-FreeQ[{a,c,d,e,m,n},x] && EqQ[n2-2*n] && IntegersQ[p,q] && NegQ[n]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^((m+1)/n-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]] && PositiveIntegerQ[m,n,(m+1)/n]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/(c^IntPart[p]*(b/2+c*x^n)^(2*FracPart[p]))*
-    Int[(f*x)^m*(d+e*x^n)^q*(b/2+c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(d+e*x)^q*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(d+e*x)^q*(a+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,f,q,m,n,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*
-    Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EqQ[c*d^2-b*d*e+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (a+c*x^(2*n))^FracPart[p]/((d+e*x^n)^FracPart[p]*(a/d+(c*x^n)/e)^FracPart[p])*Int[(f*x)^m*(d+e*x^n)^(q+p)*(a/d+c/e*x^n)^p,x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && EqQ[c*d^2+a*e^2] && Not[IntegerQ[p]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
-  1/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1))*Int[x^Mod[m,n]*(d+e*x^n)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^n)*(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)*x^(m-Mod[m,n])*(a+b*x^n+c*x^(2*n))^p-
-      (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m>0
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
-  1/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1))*Int[x^Mod[m,n]*(d+e*x^n)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^n)*(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)*x^(m-Mod[m,n])*(a+c*x^(2*n))^p-
-      (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
-FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m>0
-
-
-Int[x_^m_*(d_+e_.*x_^n_)^q_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  (-d)^((m-Mod[m,n])/n-1)*(c*d^2-b*d*e+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
-  (-d)^((m-Mod[m,n])/n-1)/(n*e^(2*p)*(q+1))*Int[x^m*(d+e*x^n)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^n)*(n*(-d)^(-(m-Mod[m,n])/n+1)*e^(2*p)*(q+1)*(a+b*x^n+c*x^(2*n))^p - 
-  (e^(-(m-Mod[m,n])/n)*(c*d^2-b*d*e+a*e^2)^p*x^(-(m-Mod[m,n])))*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m<0
-
-
-Int[x_^m_*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  (-d)^((m-Mod[m,n])/n-1)*(c*d^2+a*e^2)^p*x^(Mod[m,n]+1)*(d+e*x^n)^(q+1)/(n*e^(2*p+(m-Mod[m,n])/n)*(q+1)) + 
-  (-d)^((m-Mod[m,n])/n-1)/(n*e^(2*p)*(q+1))*Int[x^m*(d+e*x^n)^(q+1)*
-    ExpandToSum[Together[1/(d+e*x^n)*(n*(-d)^(-(m-Mod[m,n])/n+1)*e^(2*p)*(q+1)*(a+c*x^(2*n))^p - 
-  (e^(-(m-Mod[m,n])/n)*(c*d^2+a*e^2)^p*x^(-(m-Mod[m,n])))*(d*(Mod[m,n]+1)+e*(Mod[m,n]+n*(q+1)+1)*x^n))],x],x] /;
-FreeQ[{a,c,d,e},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && IntegersQ[m,q] && q<-1 && m<0
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  c^p*(f*x)^(m+2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*f^(2*n*p-n+1)*(m+2*n*p+n*q+1)) + 
-  1/(e*(m+2*n*p+n*q+1))*Int[(f*x)^m*(d+e*x^n)^q*
-    ExpandToSum[e*(m+2*n*p+n*q+1)*((a+b*x^n+c*x^(2*n))^p-c^p*x^(2*n*p))-d*c^p*(m+2*n*p-n+1)*x^(2*n*p-n),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n,p] && 2*n*p>n-1 && 
-  Not[IntegerQ[q]] && NeQ[m+2*n*p+n*q+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  c^p*(f*x)^(m+2*n*p-n+1)*(d+e*x^n)^(q+1)/(e*f^(2*n*p-n+1)*(m+2*n*p+n*q+1)) + 
-  1/(e*(m+2*n*p+n*q+1))*Int[(f*x)^m*(d+e*x^n)^q*
-    ExpandToSum[e*(m+2*n*p+n*q+1)*((a+c*x^(2*n))^p-c^p*x^(2*n*p))-d*c^p*(m+2*n*p-n+1)*x^(2*n*p-n),x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p] && 2*n*p>n-1 && 
-  Not[IntegerQ[q]] && NeQ[m+2*n*p+n*q+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n,p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && EqQ[n2-2*n] && PositiveIntegerQ[n,p]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(d+e*x^(n/k))^q*(a+b*x^(n/k)+c*x^(2*n/k))^p,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=GCD[m+1,n]},
-  1/k*Subst[Int[x^((m+1)/k-1)*(d+e*x^(n/k))^q*(a+c*x^(2*n/k))^p,x],x,x^k] /;
- k!=1] /;
-FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(k*n)/f^n)^q*(a+b*x^(k*n)/f^n+c*x^(2*k*n)/f^(2*n))^p,x],x,(f*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/f*Subst[Int[x^(k*(m+1)-1)*(d+e*x^(k*n)/f)^q*(a+c*x^(2*k*n)/f)^p,x],x,(f*x)^(1/k)]] /;
-FreeQ[{a,c,d,e,f,p,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && FractionQ[m] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p*(d*(m+n*(2*p+1)+1)+e*(m+1)*x^n)/(f*(m+1)*(m+n*(2*p+1)+1)) + 
-  n*p/(f^n*(m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^(p-1)*
-      Simp[2*a*e*(m+1)-b*d*(m+n*(2*p+1)+1)+(b*e*(m+1)-2*c*d*(m+n*(2*p+1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && 
-  m+n*(2*p+1)+1!=0 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+c*x^(2*n))^p*(d*(m+n*(2*p+1)+1)+e*(m+1)*x^n)/(f*(m+1)*(m+n*(2*p+1)+1)) + 
-  2*n*p/(f^n*(m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^(m+n)*(a+c*x^(2*n))^(p-1)*(a*e*(m+1)-c*d*(m+n*(2*p+1)+1)*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-1 && 
-  m+n*(2*p+1)+1!=0 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^p*(b*e*n*p+c*d*(m+n*(2*p+1)+1)+c*e*(2*n*p+m+1)*x^n)/
-    (c*f*(2*n*p+m+1)*(m+n*(2*p+1)+1)) + 
-  n*p/(c*(2*n*p+m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p-1)*
-    Simp[2*a*c*d*(m+n*(2*p+1)+1)-a*b*e*(m+1)+(2*a*c*e*(2*n*p+m+1)+b*c*d*(m+n*(2*p+1)+1)-b^2*e*(m+n*p+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && 
-  NeQ[2*n*p+m+1] && NeQ[m+n*(2*p+1)+1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (f*x)^(m+1)*(a+c*x^(2*n))^p*(c*d*(m+n*(2*p+1)+1)+c*e*(2*n*p+m+1)*x^n)/(c*f*(2*n*p+m+1)*(m+n*(2*p+1)+1)) + 
-  2*a*n*p/((2*n*p+m+1)*(m+n*(2*p+1)+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p-1)*Simp[d*(m+n*(2*p+1)+1)+e*(2*n*p+m+1)*x^n,x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[p] && p>0 && 
-  NeQ[2*n*p+m+1] && NeQ[m+n*(2*p+1)+1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  f^(n-1)*(f*x)^(m-n+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(b*d-2*a*e-(b*e-2*c*d)*x^n)/(n*(p+1)*(b^2-4*a*c)) + 
-  f^n/(n*(p+1)*(b^2-4*a*c))*Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p+1)*
-      Simp[(n-m-1)*(b*d-2*a*e)+(2*n*p+2*n+m+1)*(b*e-2*c*d)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p] && p<-1 && m>n-1 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  f^(n-1)*(f*x)^(m-n+1)*(a+c*x^(2*n))^(p+1)*(a*e-c*d*x^n)/(2*a*c*n*(p+1)) + 
-  f^n/(2*a*c*n*(p+1))*Int[(f*x)^(m-n)*(a+c*x^(2*n))^(p+1)*(a*e*(n-m-1)+c*d*(2*n*p+2*n+m+1)*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n-1 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^n)/(a*f*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*
-      Simp[d*(b^2*(m+n*(p+1)+1)-2*a*c*(m+2*n*(p+1)+1))-a*b*e*(m+1)+c*(m+n*(2*p+3)+1)*(b*d-2*a*e)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && 
-  IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)*(d+e*x^n)/(2*a*f*n*(p+1)) + 
-  1/(2*a*n*(p+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p+1)*Simp[d*(m+2*n*(p+1)+1)+e*(m+n*(2*p+3)+1)*x^n,x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  e*f^(n-1)*(f*x)^(m-n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(m+n(2*p+1)+1)) - 
-  f^n/(c*(m+n(2*p+1)+1))*
-    Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^p*Simp[a*e*(m-n+1)+(b*e*(m+n*p+1)-c*d*(m+n(2*p+1)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && 
-  NeQ[m+n(2*p+1)+1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  e*f^(n-1)*(f*x)^(m-n+1)*(a+c*x^(2*n))^(p+1)/(c*(m+n(2*p+1)+1)) - 
-  f^n/(c*(m+n(2*p+1)+1))*Int[(f*x)^(m-n)*(a+c*x^(2*n))^p*(a*e*(m-n+1)-c*d*(m+n(2*p+1)+1)*x^n),x] /;
-FreeQ[{a,c,d,e,f,p},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m] && m>n-1 && NeQ[m+n(2*p+1)+1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  d*(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*f*(m+1)) + 
-  1/(a*f^n*(m+1))*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^p*Simp[a*e*(m+1)-b*d*(m+n*(p+1)+1)-c*d*(m+2*n(p+1)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && 
-  IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  d*(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)/(a*f*(m+1)) + 
-  1/(a*f^n*(m+1))*Int[(f*x)^(m+n)*(a+c*x^(2*n))^p*(a*e*(m+1)-c*d*(m+2*n(p+1)+1)*x^n),x] /;
-FreeQ[{a,c,d,e,f,p},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a*c,2]},
-  With[{r=Rt[2*c*q-b*c,2]},
-  c/(2*q*r)*Int[(f*x)^m*Simp[d*r-(c*d-e*q)*x^(n/2),x]/(q-r*x^(n/2)+c*x^n),x] + 
-  c/(2*q*r)*Int[(f*x)^m*Simp[d*r+(c*d-e*q)*x^(n/2),x]/(q+r*x^(n/2)+c*x^n),x]] /;
- Not[NegativeQ[2*c*q-b*c]]] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NegativeQ[b^2-4*a*c] && IntegersQ[m,n/2] && 0<m<n && PosQ[a*c]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a*c,2]},
-  With[{r=Rt[2*c*q,2]},
-  c/(2*q*r)*Int[(f*x)^m*Simp[d*r-(c*d-e*q)*x^(n/2),x]/(q-r*x^(n/2)+c*x^n),x] + 
-  c/(2*q*r)*Int[(f*x)^m*Simp[d*r+(c*d-e*q)*x^(n/2),x]/(q+r*x^(n/2)+c*x^n),x]] /;
- Not[NegativeQ[2*c*q]]] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveQ[a*c] && IntegersQ[m,n/2] && 0<m<n
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a*c,2]},
-  With[{r=Rt[2*c*q-b*c,2]},
-  c/(2*q*r)*Int[(f*x)^m*(d*r-(c*d-e*q)*x^(n/2))/(q-r*x^(n/2)+c*x^n),x] + 
-  c/(2*q*r)*Int[(f*x)^m*(d*r+(c*d-e*q)*x^(n/2))/(q+r*x^(n/2)+c*x^n),x]] /;
- Not[NegativeQ[2*c*q-b*c]]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NegativeQ[b^2-4*a*c] && IntegerQ[n/2] && n>2 && PosQ[a*c]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[a*c,2]},
-  With[{r=Rt[2*c*q,2]},
-  c/(2*q*r)*Int[(f*x)^m*(d*r-(c*d-e*q)*x^(n/2))/(q-r*x^(n/2)+c*x^n),x] + 
-  c/(2*q*r)*Int[(f*x)^m*(d*r+(c*d-e*q)*x^(n/2))/(q+r*x^(n/2)+c*x^n),x]] /;
- Not[NegativeQ[2*c*q]]] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && IntegerQ[n/2] && n>2 && PositiveQ[a*c]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (e/2+(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2-q/2+c*x^n),x] + (e/2-(2*c*d-b*e)/(2*q))*Int[(f*x)^m/(b/2+q/2+c*x^n),x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)/(a_+c_.*x_^n2_),x_Symbol] :=
-  With[{q=Rt[-a*c,2]},
-  -(e/2+c*d/(2*q))*Int[(f*x)^m/(q-c*x^n),x] + (e/2-c*d/(2*q))*Int[(f*x)^m/(q+c*x^n),x]] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[q] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[q] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m,(d+e*x^n)^q/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[q] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_./(a_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m,(d+e*x^n)^q/(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && IntegerQ[q] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  f^(2*n)/c^2*Int[(f*x)^(m-2*n)*(c*d-b*e+c*e*x^n)*(d+e*x^n)^(q-1),x] - 
-  f^(2*n)/c^2*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q-1)*Simp[a*(c*d-b*e)+(b*c*d-b^2*e+a*c*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[m,q] && q>0 && m>2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  f^(2*n)/c*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
-  a*f^(2*n)/c*Int[(f*x)^(m-2*n)*(d+e*x^n)^q/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m] && m>2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  e*f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1),x] - 
-  f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1)*Simp[a*e-(c*d-b*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[m,q] && q>0 && n-1<m<=2n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  e*f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1),x] - 
-  f^n/c*Int[(f*x)^(m-n)*(d+e*x^n)^(q-1)*Simp[a*e-c*d*x^n,x]/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && n-1<m<=2n-1
-
-
-Int[(f_.*x_)^m_*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  d/a*Int[(f*x)^m*(d+e*x^n)^(q-1),x] - 
-  1/(a*f^n)*Int[(f*x)^(m+n)*(d+e*x^n)^(q-1)*Simp[b*d-a*e+c*d*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[m,q] && q>0 && m<0
-
-
-Int[(f_.*x_)^m_*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  d/a*Int[(f*x)^m*(d+e*x^n)^(q-1),x] + 
-  1/(a*f^n)*Int[(f*x)^(m+n)*(d+e*x^n)^(q-1)*Simp[a*e-c*d*x^n,x]/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q>0 && m<0
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  d^2*f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
-  f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q+1)*Simp[a*d+(b*d-a*e)*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[m,q] && q<-1 && m>2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  d^2*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^q,x] - 
-  a*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && m>2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  -d*e*f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^q,x] + 
-  f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^(q+1)*Simp[a*e+c*d*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[m,q] && q<-1 && n-1<m<=2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_.+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  -d*e*f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^q,x] + 
-  f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(d+e*x^n)^(q+1)*Simp[a*e+c*d*x^n,x]/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[m,q] && q<-1 && n-1<m<=2*n-1
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_),x_Symbol] :=
-  e^2/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^n)^q,x] + 
-  1/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^m*(d+e*x^n)^(q+1)*Simp[c*d-b*e-c*e*x^n,x]/(a+b*x^n+c*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  RationalQ[q] && q<-1
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_),x_Symbol] :=
-  e^2/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^n)^q,x] + 
-  c/(c*d^2+a*e^2)*Int[(f*x)^m*(d+e*x^n)^(q+1)*(d-e*x^n)/(a+c*x^(2*n)),x] /;
-FreeQ[{a,c,d,e,f,m},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && RationalQ[q] && q<-1
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q,(f*x)^m/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,f,q,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^n)^q,(f*x)^m/(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,f,q,n},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q,1/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && 
-  Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q,1/(a+c*x^(2*n)),x],x] /;
-FreeQ[{a,c,d,e,f,m,q,n},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && Not[IntegerQ[q]] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
-  1/d^2*Int[(f*x)^m*(a*d+(b*d-a*e)*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] + 
-  (c*d^2-b*d*e+a*e^2)/(d^2*f^(2*n))*Int[(f*x)^(m+2*n)*(a+b*x^n+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-n
-
-
-Int[(f_.*x_)^m_*(a_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
-  a/d^2*Int[(f*x)^m*(d-e*x^n)*(a+c*x^(2*n))^(p-1),x] + 
-  (c*d^2+a*e^2)/(d^2*f^(2*n))*Int[(f*x)^(m+2*n)*(a+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<-n
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
-  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^n)*(a+b*x^n+c*x^(2*n))^(p-1),x] - 
-  (c*d^2-b*d*e+a*e^2)/(d*e*f^n)*Int[(f*x)^(m+n)*(a+b*x^n+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<0
-
-
-Int[(f_.*x_)^m_*(a_+c_.*x_^n2_.)^p_./(d_.+e_.*x_^n_),x_Symbol] :=
-  1/(d*e)*Int[(f*x)^m*(a*e+c*d*x^n)*(a+c*x^(2*n))^(p-1),x] - 
-  (c*d^2+a*e^2)/(d*e*f^n)*Int[(f*x)^(m+n)*(a+c*x^(2*n))^(p-1)/(d+e*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m<0
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
-  -f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(a*d+(b*d-a*e)*x^n)*(a+b*x^n+c*x^(2*n))^p,x] + 
-  d^2*f^(2*n)/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-2*n)*(a+b*x^n+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n
-
-
-Int[(f_.*x_)^m_.*(a_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
-  -a*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(d-e*x^n)*(a+c*x^(2*n))^p,x] + 
-  d^2*f^(2*n)/(c*d^2+a*e^2)*Int[(f*x)^(m-2*n)*(a+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>n
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*x_^n_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
-  f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(a*e+c*d*x^n)*(a+b*x^n+c*x^(2*n))^p,x] - 
-  d*e*f^n/(c*d^2-b*d*e+a*e^2)*Int[(f*x)^(m-n)*(a+b*x^n+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[(f_.*x_)^m_.*(a_+c_.*x_^n2_.)^p_/(d_.+e_.*x_^n_),x_Symbol] :=
-  f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(a*e+c*d*x^n)*(a+c*x^(2*n))^p,x] - 
-  d*e*f^n/(c*d^2+a*e^2)*Int[(f*x)^(m-n)*(a+c*x^(2*n))^(p+1)/(d+e*x^n),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && RationalQ[m,p] && p<-1 && m>0
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*x^n+c*x^(2*n))^p,(f*x)^m(d+e*x^n)^q,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && (PositiveIntegerQ[q] || IntegersQ[m,q])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+c*x^(2*n))^p,(f*x)^m(d+e*x^n)^q,x],x] /;
-FreeQ[{a,c,d,e,f,m,q},x] && EqQ[n2-2*n] && PositiveIntegerQ[n] && (PositiveIntegerQ[q] || IntegersQ[m,q])
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,e,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[m]},
-  -g/f*Subst[Int[(d+e*f^(-n)*x^(-g*n))^q*(a+b*f^(-n)*x^(-g*n)+c*f^(-2*n)*x^(-2*g*n))^p/x^(g*(m+1)+1),x],x,1/(f*x)^(1/g)]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[m]},
-  -g/f*Subst[Int[(d+e*f^(-n)*x^(-g*n))^q*(a+c*f^(-2*n)*x^(-2*g*n))^p/x^(g*(m+1)+1),x],x,1/(f*x)^(1/g)]] /;
-FreeQ[{a,c,d,e,f,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -f^IntPart[m]*(f*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(d+e*x^(-n))^q*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  -f^IntPart[m]*(f*x)^FracPart[m]*(x^(-1))^FracPart[m]*Subst[Int[(d+e*x^(-n))^q*(a+c*x^(-2*n))^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g*(m+1)-1)*(d+e*x^(g*n))^q*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,d,e,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g*(m+1)-1)*(d+e*x^(g*n))^q*(a+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,c,d,e,m,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && FractionQ[n]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(d+e*x^Simplify[n/(m+1)])^q*(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[(d+e*x^Simplify[n/(m+1)])^q*(a+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,p,q},x] && EqQ[n2-2*n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+b_.*x_^n_+c_.*x_^n2_.),x_Symbol] :=
-  With[{r=Rt[b^2-4*a*c,2]},
-  2*c/r*Int[(f*x)^m*(d+e*x^n)^q/(b-r+2*c*x^n),x] - 2*c/r*Int[(f*x)^m*(d+e*x^n)^q/(b+r+2*c*x^n),x]] /;
-FreeQ[{a,b,c,d,e,f,m,n,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_/(a_+c_.*x_^n2_.),x_Symbol] :=
-  With[{r=Rt[-a*c,2]},
-  -c/(2*r)*Int[(f*x)^m*(d+e*x^n)^q/(r-c*x^n),x] - c/(2*r)*Int[(f*x)^m*(d+e*x^n)^q/(r+c*x^n),x]] /;
-FreeQ[{a,c,d,e,f,m,n,q},x] && EqQ[n2-2*n]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)*(d*(b^2-2*a*c)-a*b*e+(b*d-2*a*e)*c*x^n)/(a*f*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(f*x)^m*(a+b*x^n+c*x^(2*n))^(p+1)*
-      Simp[d*(b^2*(m+n*(p+1)+1)-2*a*c*(m+2*n*(p+1)+1))-a*b*e*(m+1)+(m+n*(2*p+3)+1)*(b*d-2*a*e)*c*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -(f*x)^(m+1)*(a+c*x^(2*n))^(p+1)*(d+e*x^n)/(2*a*f*n*(p+1)) + 
-  1/(2*a*n*(p+1))*Int[(f*x)^m*(a+c*x^(2*n))^(p+1)*Simp[d*(m+2*n*(p+1)+1)+e*(m+n*(2*p+3)+1)*x^n,x],x] /;
-FreeQ[{a,c,d,e,f,m,n},x] && EqQ[n2-2*n] && NegativeIntegerQ[p+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && (PositiveIntegerQ[p] || PositiveIntegerQ[q])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(f*x)^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && (PositiveIntegerQ[p] || PositiveIntegerQ[q])
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  f^m*Int[ExpandIntegrand[x^m*(a+c*x^(2*n))^p,(d/(d^2-e^2*x^(2*n))-e*x^n/(d^2-e^2*x^(2*n)))^(-q),x],x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[q] && (IntegerQ[m] || PositiveQ[f])
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^n_)^q_*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  (f*x)^m/x^m*Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n] && NegativeIntegerQ[q] && Not[IntegerQ[m] || PositiveQ[f]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,n,p,q},x] && EqQ[n2-2*n]
-
-
-Int[u_^m_.*(d_+e_.*v_^n_)^q_.*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(d+e*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x]
-
-
-Int[u_^m_.*(d_+e_.*v_^n_)^q_.*(a_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*(d+e*x^n)^q*(a+c*x^(2*n))^p,x],x,v] /;
-FreeQ[{a,c,d,e,m,n,p},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2,2*n] && EqQ[mn,-n] && IntegerQ[q]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m+mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
-FreeQ[{a,c,d,e,m,mn,p},x] && EqQ[n2,-2*mn] && IntegerQ[q]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m+2*n*p)*(d+e*x^(-n))^q*(c+b*x^(-n)+a*x^(-2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && IntegerQ[p]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[x^(m-2*mn*p)*(d+e*x^mn)^q*(c+a*x^(2*mn))^p,x] /;
-FreeQ[{a,c,d,e,m,mn,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && IntegerQ[p]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  x^(n*FracPart[q])*(d+e*x^(-n))^FracPart[q]/(e+d*x^n)^FracPart[q]*Int[x^(m-n*q)*(e+d*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
-
-
-Int[x_^m_.*(d_+e_.*x_^mn_.)^q_*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  x^(-mn*FracPart[q])*(d+e*x^mn)^FracPart[q]/(e+d*x^(-mn))^FracPart[q]*Int[x^(m+mn*q)*(e+d*x^(-mn))^q*(a+c*x^n2)^p,x] /;
-FreeQ[{a,c,d,e,m,mn,p,q},x] && EqQ[n2,-2*mn] && Not[IntegerQ[q]] && Not[IntegerQ[p]]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^mn_.)^q_.*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^mn)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[n2,2*n] && EqQ[mn,-n]
-
-
-Int[(f_*x_)^m_*(d_+e_.*x_^mn_.)^q_.*(a_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^mn)^q*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,c,d,e,f,m,mn,p,q},x] && EqQ[n2,-2*mn]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[x^(m-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,q},x] && EqQ[mn,-n] && IntegerQ[p]
-
-
-Int[x_^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  x^(n*FracPart[p])*(a+b/x^n+c*x^n)^FracPart[p]/(b+a*x^n+c*x^(2*n))^FracPart[p]*
-    Int[x^(m-n*p)*(d+e*x^n)^q*(b+a*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p,q},x] && EqQ[mn,-n] && Not[IntegerQ[p]]
-
-
-Int[(f_*x_)^m_.*(d_+e_.*x_^n_)^q_.*(a_+b_.*x_^mn_+c_.*x_^n_.)^p_.,x_Symbol] :=
-  f^IntPart[m]*(f*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(d+e*x^n)^q*(a+b*x^(-n)+c*x^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[mn,-n]
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  Int[(f*x)^m*(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2] && 
-  (IntegerQ[q] || PositiveQ[d1] && PositiveQ[d2])
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_^non2_.)^q_.*(d2_+e2_.*x_^non2_.)^q_.*(a_.+b_.*x_^n_+c_.*x_^n2_)^p_.,x_Symbol] :=
-  (d1+e1*x^(n/2))^FracPart[q]*(d2+e2*x^(n/2))^FracPart[q]/(d1*d2+e1*e2*x^n)^FracPart[q]*
-    Int[(f*x)^m*(d1*d2+e1*e2*x^n)^q*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,n,p,q},x] && EqQ[n2-2*n] && EqQ[non2-n/2] && EqQ[d2*e1+d1*e2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.1.3.7 (c x)^m Pq(x) (a+b x^n)^p*)
-
-
-Int[x_^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^n_.)/(a_+c_.*x_^n_.)^(3/2),x_Symbol] :=
-  -(2*a*g+4*a*h*x^(n/4)-2*c*f*x^(n/2))/(a*c*n*Sqrt[a+c*x^n]) /;
-FreeQ[{a,c,e,f,g,h,m,n},x] && EqQ[q-n/4] && EqQ[r-3*n/4] && EqQ[4*m-n+4] && EqQ[c*e+a*h]
-
-
-Int[(d_*x_)^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^n_.)/(a_+c_.*x_^n_.)^(3/2),x_Symbol] :=
-  (d*x)^m/x^m*Int[x^m*(e+f*x^(n/4)+g*x^((3*n)/4)+h*x^n)/(a+c*x^n)^(3/2),x] /;
-FreeQ[{a,c,d,e,f,g,h,m,n},x] && EqQ[4*m-n+4] && EqQ[q-n/4] && EqQ[r-3*n/4] && EqQ[c*e+a*h]
-
-
-Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_)^p_,x_Symbol] :=
-  With[{n=Denominator[p]},
-  n/b*Subst[Int[x^(n*p+n-1)*(-a*c/b+c*x^n/b)^m*ReplaceAll[Pq,x->-a/b+x^n/b],x],x,(a+b*x)^(1/n)]] /;
-FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && FractionQ[p] && NegativeIntegerQ[m+1]
-
-
-(* Int[Pq_*(a_+b_.*x_)^p_,x_Symbol] :=
-  With[{n=Denominator[p]},
-  n/b*Subst[Int[x^(n*p+n-1)*ReplaceAll[Pq,x->-a/b+x^n/b],x],x,(a+b*x)^(1/n)]] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && FractionQ[p] *)
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[SubstFor[x^(m+1),Pq,x]*(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,m,n,p},x] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && PolyQ[Pq,x^(m+1)]
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  Coeff[Pq,x,n-1]*(a+b*x^n)^(p+1)/(b*n*(p+1)) + 
-  Int[ExpandToSum[Pq-Coeff[Pq,x,n-1]*x^(n-1),x]*(a+b*x^n)^p,x] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n,p] && NeQ[Coeff[Pq,x,n-1]]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*Pq*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PolyQ[Pq,x] && (PositiveIntegerQ[p] || EqQ[n-1])
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,n},x] && PolyQ[Pq,x] && (PositiveIntegerQ[p] || EqQ[n-1])
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a+b*x)^p,x],x,x^n] /;
-FreeQ[{a,b,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(c_*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Pq*(a+b*x^n)^(p+1)/(b*n*(p+1)) - 
-  1/(b*n*(p+1))*Int[D[Pq,x]*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b,m,n},x] && PolyQ[Pq,x] && EqQ[m-n+1] && RationalQ[p] && p<-1
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,d,m,n,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,n,p},x] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]] && SumQ[Pq]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  Module[{u=IntHide[x^m*Pq,x]},
-  u*(a+b*x^n)^p - b*n*p*Int[x^(m+n)*(a+b*x^n)^(p-1)*ExpandToSum[u/x^(m+1),x],x]] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[m,p] && p>0 && m+Expon[Pq,x]+1<0
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],i},
-  (c*x)^m*(a+b*x^n)^p*Sum[Coeff[Pq,x,i]*x^(i+1)/(m+n*p+i+1),{i,0,q}] + 
-  a*n*p*Int[(c*x)^m*(a+b*x^n)^(p-1)*Sum[Coeff[Pq,x,i]*x^i/(m+n*p+i+1),{i,0,q}],x]] /;
-FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && PositiveIntegerQ[(n-1)/2] && RationalQ[p] && p>0
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],i},
-  (a+b*x^n)^p*Sum[Coeff[Pq,x,i]*x^(i+1)/(n*p+i+1),{i,0,q}] + 
-  a*n*p*Int[(a+b*x^n)^(p-1)*Sum[Coeff[Pq,x,i]*x^i/(n*p+i+1),{i,0,q}],x]] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[(n-1)/2] && RationalQ[p] && p>0
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],i},
-  (a*Coeff[Pq,x,q]-b*x*ExpandToSum[Pq-Coeff[Pq,x,q]*x^q,x])*(a+b*x^n)^(p+1)/(a*b*n*(p+1)) + 
-  1/(a*n*(p+1))*Int[Sum[(n*(p+1)+i+1)*Coeff[Pq,x,i]*x^i,{i,0,q-1}]*(a+b*x^n)^(p+1),x] /;
- q==n-1] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  -x*Pq*(a+b*x^n)^(p+1)/(a*n*(p+1)) + 
-  1/(a*n*(p+1))*Int[ExpandToSum[n*(p+1)*Pq+D[x*Pq,x],x]*(a+b*x^n)^(p+1),x] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && Expon[Pq,x]<n-1
-
-
-Int[(d_+e_.*x_+f_.*x_^3+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  -(2*a*f+4*a*g*x-2*b*e*x^2)/(4*a*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,d,e,f,g},x] && EqQ[b*d+a*g]
-
-
-Int[(d_+f_.*x_^3+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  -(f+2*g*x)/(2*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,d,f,g},x] && EqQ[b*d+a*g]
-
-
-Int[(d_+e_.*x_+g_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  -x*(2*a*g-b*e*x)/(2*a*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,d,e,g},x] && EqQ[b*d+a*g]
-
-
-Int[x_^2*(e_.+f_.*x_+h_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  -(f-2*h*x^3)/(2*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,e,f,h},x] && EqQ[b*e-3*a*h]
-
-
-Int[x_^2*(e_.+h_.*x_^4)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  h*x^3/(b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,e,h},x] && EqQ[b*e-3*a*h]
-
-
-Int[(d_+e_.*x_^2+f_.*x_^3+g_.*x_^4+h_.*x_^6)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  -(a*f-2*b*d*x-2*a*h*x^3)/(2*a*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,d,e,f,g,h},x] && EqQ[b*e-3*a*h] && EqQ[b*d+a*g]
-
-
-Int[(d_+e_.*x_^2+g_.*x_^4+h_.*x_^6)/(a_+b_.*x_^4)^(3/2),x_Symbol] :=
-  x*(b*d+a*h*x^2)/(a*b*Sqrt[a+b*x^4]) /;
-FreeQ[{a,b,d,e,g,h},x] && EqQ[b*e-3*a*h] && EqQ[b*d+a*g]
-
-
-Int[Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  Module[{Q=PolynomialQuotient[b^(Floor[(q-1)/n]+1)*Pq,a+b*x^n,x],R=PolynomialRemainder[b^(Floor[(q-1)/n]+1)*Pq,a+b*x^n,x],i},
-  -x*R*(a+b*x^n)^(p+1)/(a*n*(p+1)*b^(Floor[(q-1)/n]+1)) + 
-  1/(a*n*(p+1)*b^(Floor[(q-1)/n]+1))*Int[(a+b*x^n)^(p+1)*ExpandToSum[a*n*(p+1)*Q+n*(p+1)*R+D[x*R,x],x],x]] /;
- q>=n] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*Pq_*(a_+b_.*x_^n_.)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  Module[{Q=PolynomialQuotient[a*b^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n,x],
-          R=PolynomialRemainder[a*b^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n,x],i},
-  -x*R*(a+b*x^n)^(p+1)/(a^2*n*(p+1)*b^(Floor[(q-1)/n]+1)) + 
-  1/(a*n*(p+1)*b^(Floor[(q-1)/n]+1))*Int[x^m*(a+b*x^n)^(p+1)*
-    ExpandToSum[n*(p+1)*x^(-m)*Q+Sum[(n*(p+1)+i+1)/a*Coeff[R,x,i]*x^(i-m),{i,0,n-1}],x],x]]] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[p] && p<-1 && NegativeIntegerQ[m]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{g=GCD[m+1,n]},
-  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a+b*x^(n/g))^p,x],x,x^g] /;
- g!=1] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x^n] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  B^3/b*Int[1/(A^2-A*B*x+B^2*x^2),x] /;
-FreeQ[{a,b,A,B},x] && EqQ[a*B^3-b*A^3]
-
-
-Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
-  -r*(B*r-A*s)/(3*a*s)*Int[1/(r+s*x),x] + 
-  r/(3*a*s)*Int[(r*(B*r+2*A*s)+s*(B*r-A*s)*x)/(r^2-r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b,A,B},x] && NeQ[a*B^3-b*A^3] && PosQ[a/b]
-
-
-Int[(A_+B_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
-  r*(B*r+A*s)/(3*a*s)*Int[1/(r-s*x),x] - 
-  r/(3*a*s)*Int[(r*(B*r-2*A*s)-s*(B*r+A*s)*x)/(r^2+r*s*x+s^2*x^2),x]] /;
-FreeQ[{a,b,A,B},x] && NeQ[a*B^3-b*A^3] && NegQ[a/b]
-
-
-Int[(A_+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  -C^2/b*Int[1/(B-C*x),x] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[B^2-A*C] && EqQ[b*B^3+a*C^3]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/b^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A*b^(2/3)-a^(1/3)*b^(1/3)*B-2*a^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/b^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[a^(1/3)*b^(1/3)*B+2*a^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/b^(1/3)},
-  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A*b^(2/3)-2*a^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/(-b)^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A*(-b)^(2/3)-(-a)^(1/3)*(-b)^(1/3)*B-2*(-a)^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/(-b)^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[(-a)^(1/3)*(-b)^(1/3)*B+2*(-a)^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/(-b)^(1/3)},
-  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A*(-b)^(2/3)-2*(-a)^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/b^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A*b^(2/3)+(-a)^(1/3)*b^(1/3)*B-2*(-a)^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/b^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[(-a)^(1/3)*b^(1/3)*B-2*(-a)^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a)^(1/3)/b^(1/3)},
-  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A*b^(2/3)-2*(-a)^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/(-b)^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A*(-b)^(2/3)+a^(1/3)*(-b)^(1/3)*B-2*a^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/(-b)^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[a^(1/3)*(-b)^(1/3)*B-2*a^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=a^(1/3)/(-b)^(1/3)},
-  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A*(-b)^(2/3)-2*a^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A-(a/b)^(1/3)*B-2*(a/b)^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[(a/b)^(1/3)*B+2*(a/b)^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A-2*(a/b)^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[a/b,3]},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A-Rt[a/b,3]*B-2*Rt[a/b,3]^2*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[a/b,3]},
-  C/b*Int[1/(q+x),x] + (B+C*q)/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[Rt[a/b,3]*B+2*Rt[a/b,3]^2*C]
-
-
-Int[(A_.+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[a/b,3]},
-  C/b*Int[1/(q+x),x] + C*q/b*Int[1/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A-2*Rt[a/b,3]^2*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A+(-a/b)^(1/3)*B-2*(-a/b)^(2/3)*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[(-a/b)^(1/3)*B-2*(-a/b)^(2/3)*C]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A-2*(-a/b)^(2/3)*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[-a/b,3]},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A+Rt[-a/b,3]*B-2*Rt[-a/b,3]^2*C]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[-a/b,3]},
-  -C/b*Int[1/(q-x),x] + (B-C*q)/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[Rt[-a/b,3]*B-2*Rt[-a/b,3]^2*C]
-
-
-Int[(A_.+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=Rt[-a/b,3]},
-  -C/b*Int[1/(q-x),x] - C*q/b*Int[1/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A-2*Rt[-a/b,3]^2*C]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  Int[(A+B*x)/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
-FreeQ[{a,b,A,B,C},x] && (EqQ[a*B^3-b*A^3] || Not[RationalQ[a/b]])
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  B*Int[x/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
-FreeQ[{a,b,B,C},x] && Not[RationalQ[a/b]]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  A*Int[1/(a+b*x^3),x] + C*Int[x^2/(a+b*x^3),x] /;
-FreeQ[{a,b,A,C},x] && Not[RationalQ[a,b,A,C]]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  q^2/a*Int[(A+C*q*x)/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A-B*(a/b)^(1/3)+C*(a/b)^(2/3)]
-
-
-Int[x_*(B_.+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  C*q^3/a*Int[x/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[B*(a/b)^(1/3)-C*(a/b)^(2/3)]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  q^2/a*Int[(A+C*q*x)/(q^2-q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A+C*(a/b)^(2/3)]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  q/a*Int[(A*q+(A+B*q)*x)/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A+B*(-a/b)^(1/3)+C*(-a/b)^(2/3)]
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  B*q^2/a*Int[x/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,B,C},x] && EqQ[B*(-a/b)^(1/3)+C*(-a/b)^(2/3)]
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  A*q/a*Int[(q+x)/(q^2+q*x+x^2),x]] /;
-FreeQ[{a,b,A,C},x] && EqQ[A+C*(-a/b)^(2/3)]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  q*(A-B*q+C*q^2)/(3*a)*Int[1/(q+x),x] + 
-  q/(3*a)*Int[(q*(2*A+B*q-C*q^2)-(A-B*q-2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
- NeQ[A-B*q+C*q^2]] /;
-FreeQ[{a,b,A,B,C},x] && NeQ[a*B^3-b*A^3] && RationalQ[a/b] && a/b>0
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  -q*(B*q-C*q^2)/(3*a)*Int[1/(q+x),x] + 
-  q/(3*a)*Int[(q*(B*q-C*q^2)+(B*q+2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
- NeQ[B*q-C*q^2]] /;
-FreeQ[{a,b,B,C},x] && RationalQ[a/b] && a/b>0
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(a/b)^(1/3)},
-  q*(A+C*q^2)/(3*a)*Int[1/(q+x),x] + 
-  q/(3*a)*Int[(q*(2*A-C*q^2)-(A-2*C*q^2)*x)/(q^2-q*x+x^2),x] /;
- NeQ[A+C*q^2]] /;
-FreeQ[{a,b,A,C},x] && RationalQ[a/b] && a/b>0
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  q*(A+B*q+C*q^2)/(3*a)*Int[1/(q-x),x] + 
-  q/(3*a)*Int[(q*(2*A-B*q-C*q^2)+(A+B*q-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
- NeQ[A+B*q+C*q^2]] /;
-FreeQ[{a,b,A,B,C},x] && NeQ[a*B^3-b*A^3] && RationalQ[a/b] && a/b<0
-
-
-Int[x_*(B_+C_.*x_)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  q*(B*q+C*q^2)/(3*a)*Int[1/(q-x),x] + 
-  q/(3*a)*Int[(-q*(B*q+C*q^2)+(B*q-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
- NeQ[B*q+C*q^2]] /;
-FreeQ[{a,b,B,C},x] && RationalQ[a/b] && a/b<0
-
-
-Int[(A_+C_.*x_^2)/(a_+b_.*x_^3),x_Symbol] :=
-  With[{q=(-a/b)^(1/3)},
-  q*(A+C*q^2)/(3*a)*Int[1/(q-x),x] + 
-  q/(3*a)*Int[(q*(2*A-C*q^2)+(A-2*C*q^2)*x)/(q^2+q*x+x^2),x] /;
- NeQ[A+C*q^2]] /;
-FreeQ[{a,b,A,C},x] && RationalQ[a/b] && a/b<0
-
-
-Int[(c_.*x_)^m_.*Pq_/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{v=Sum[(c*x)^(m+ii)*(Coeff[Pq,x,ii]+Coeff[Pq,x,n/2+ii]*x^(n/2))/(c^ii*(a+b*x^n)),{ii,0,n/2-1}]},
-  Int[v,x] /;
- SumQ[v]] /;
-FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Expon[Pq,x]<n
-
-
-Int[Pq_/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{v=Sum[x^ii*(Coeff[Pq,x,ii]+Coeff[Pq,x,n/2+ii]*x^(n/2))/(a+b*x^n),{ii,0,n/2-1}]},
-  Int[v,x] /;
- SumQ[v]] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Expon[Pq,x]<n
-
-
-(* Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  2*d*Sqrt[a+b*x^3]/(a*q^2*(1+Sqrt[3]+q*x)) + 
-  3^(1/4)*Sqrt[2-Sqrt[3]]*d*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/(q^2*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
-    EllipticE[ArcSin[(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)],-7-4*Sqrt[3]] /;
- EqQ[c*q-d*(1-Sqrt[3])]] /;
-FreeQ[{a,b,c,d},x] && PosQ[a] *)
-
-
-Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  2*d*s^3*Sqrt[a+b*x^3]/(a*r^2*((1+Sqrt[3])*s+r*x)) - 
-  3^(1/4)*Sqrt[2-Sqrt[3]]*d*s*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1+Sqrt[3])*s+r*x)^2]/
-    (r^2*Sqrt[a+b*x^3]*Sqrt[s*(s+r*x)/((1+Sqrt[3])*s+r*x)^2])*
-    EllipticE[ArcSin[((1-Sqrt[3])*s+r*x)/((1+Sqrt[3])*s+r*x)],-7-4*Sqrt[3]]] /;
-FreeQ[{a,b,c,d},x] && PosQ[a] && EqQ[c*Rt[b/a,3]-d*(1-Sqrt[3])]
-
-
-Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  (c*r-(1-Sqrt[3])*d*s)/r*Int[1/Sqrt[a+b*x^3],x] + d/r*Int[((1-Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
-FreeQ[{a,b,c,d},x] && PosQ[a] && NeQ[c*Rt[b/a,3]-d*(1-Sqrt[3])]
-
-
-Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  2*d*s^3*Sqrt[a+b*x^3]/(a*r^2*((1-Sqrt[3])*s+r*x)) + 
-  3^(1/4)*Sqrt[2+Sqrt[3]]*d*s*(s+r*x)*Sqrt[(s^2-r*s*x+r^2*x^2)/((1-Sqrt[3])*s+r*x)^2]/
-    (r^2*Sqrt[a+b*x^3]*Sqrt[-s*(s+r*x)/((1-Sqrt[3])*s+r*x)^2])*
-    EllipticE[ArcSin[((1+Sqrt[3])*s+r*x)/((1-Sqrt[3])*s+r*x)],-7+4*Sqrt[3]]] /;
-FreeQ[{a,b,c,d},x] && NegQ[a] && EqQ[c*Rt[b/a,3]-d*(1+Sqrt[3])]
-
-
-Int[(c_+d_.*x_)/Sqrt[a_+b_.*x_^3],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  (c*r-(1+Sqrt[3])*d*s)/r*Int[1/Sqrt[a+b*x^3],x] + d/r*Int[((1+Sqrt[3])*s+r*x)/Sqrt[a+b*x^3],x]] /;
-FreeQ[{a,b,c,d},x] && NegQ[a] && NeQ[c*Rt[b/a,3]-d*(1+Sqrt[3])]
-
-
-Int[(c_+d_.*x_^4)/Sqrt[a_+b_.*x_^6],x_Symbol] :=
-  With[{r=Numer[Rt[b/a,3]], s=Denom[Rt[b/a,3]]},
-  (1+Sqrt[3])*d*s^3*x*Sqrt[a+b*x^6]/(2*a*r^2*(s+(1+Sqrt[3])*r*x^2)) - 
-  3^(1/4)*d*s*x*(s+r*x^2)*Sqrt[(s^2-r*s*x^2+r^2*x^4)/(s+(1+Sqrt[3])*r*x^2)^2]/
-    (2*r^2*Sqrt[(r*x^2*(s+r*x^2))/(s+(1+Sqrt[3])*r*x^2)^2]*Sqrt[a+b*x^6])*
-    EllipticE[ArcCos[(s+(1-Sqrt[3])*r*x^2)/(s+(1+Sqrt[3])*r*x^2)],(2+Sqrt[3])/4]] /;
-FreeQ[{a,b,c,d},x] && EqQ[2*Rt[b/a,3]^2*c-(1-Sqrt[3])*d]
-
-
-Int[(c_+d_.*x_^4)/Sqrt[a_+b_.*x_^6],x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  (2*c*q^2-(1-Sqrt[3])*d)/(2*q^2)*Int[1/Sqrt[a+b*x^6],x] + d/(2*q^2)*Int[(1-Sqrt[3]+2*q^2*x^4)/Sqrt[a+b*x^6],x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[2*Rt[b/a,3]^2*c-(1-Sqrt[3])*d]
-
-
-Int[(c_+d_.*x_^2)/Sqrt[a_+b_.*x_^8],x_Symbol] :=
-  -c*d*x^3*Sqrt[-(c-d*x^2)^2/(c*d*x^2)]*Sqrt[-d^2*(a+b*x^8)/(b*c^2*x^4)]/(Sqrt[2+Sqrt[2]]*(c-d*x^2)*Sqrt[a+b*x^8])*
-    EllipticF[ArcSin[1/2*Sqrt[(Sqrt[2]*c^2+2*c*d*x^2+Sqrt[2]*d^2*x^4)/(c*d*x^2)]],-2*(1-Sqrt[2])] /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c^4-a*d^4]
-
-
-Int[(c_+d_.*x_^2)/Sqrt[a_+b_.*x_^8],x_Symbol] :=
-  (d+Rt[b/a,4]*c)/(2*Rt[b/a,4])*Int[(1+Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] - 
-  (d-Rt[b/a,4]*c)/(2*Rt[b/a,4])*Int[(1-Rt[b/a,4]*x^2)/Sqrt[a+b*x^8],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c^4-a*d^4]
-
-
-Int[Pq_/(x_*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
-  Coeff[Pq,x,0]*Int[1/(x*Sqrt[a+b*x^n]),x] + 
-  Int[ExpandToSum[(Pq-Coeff[Pq,x,0])/x,x]/Sqrt[a+b*x^n],x] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && NeQ[Coeff[Pq,x,0]]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],j,k},
-  Int[Sum[(c*x)^(m+j)/c^j*Sum[Coeff[Pq,x,j+k*n/2]*x^(k*n/2),{k,0,2*(q-j)/n+1}]*(a+b*x^n)^p,{j,0,n/2-1}],x]] /;
-FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Not[PolyQ[Pq,x^(n/2)]]
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],j,k},
-  Int[Sum[x^j*Sum[Coeff[Pq,x,j+k*n/2]*x^(k*n/2),{k,0,2*(q-j)/n+1}]*(a+b*x^n)^p,{j,0,n/2-1}],x]] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n/2] && Not[PolyQ[Pq,x^(n/2)]]
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  Coeff[Pq,x,n-1]*Int[x^(n-1)*(a+b*x^n)^p,x] + 
-  Int[ExpandToSum[Pq-Coeff[Pq,x,n-1]*x^(n-1),x]*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && Expon[Pq,x]==n-1
-
-
-Int[(c_.*x_)^m_.*Pq_/(a_+b_.*x_^n_),x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*Pq/(a+b*x^n),x],x] /;
-FreeQ[{a,b,c,m},x] && PolyQ[Pq,x] && IntegerQ[n]
-
-
-Int[Pq_/(a_+b_.*x_^n_),x_Symbol] :=
-  Int[ExpandIntegrand[Pq/(a+b*x^n),x],x] /;
-FreeQ[{a,b},x] && PolyQ[Pq,x] && IntegerQ[n]
-
-
-Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{Pq0=Coeff[Pq,x,0]},
-    Pq0*(c*x)^(m+1)*(a+b*x^n)^(p+1)/(a*c*(m+1)) + 
-    1/(2*a*c*(m+1))*Int[(c*x)^(m+1)*ExpandToSum[2*a*(m+1)*(Pq-Pq0)/x-2*b*Pq0*(m+n*(p+1)+1)*x^(n-1),x]*(a+b*x^n)^p,x] /;
- NeQ[Pq0]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1 && n-1<=Expon[Pq,x]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    Pqq*(c*x)^(m+q-n+1)*(a+b*x^n)^(p+1)/(b*c^(q-n+1)*(m+q+n*p+1)) + 
-    1/(b*(m+q+n*p+1))*Int[(c*x)^m*ExpandToSum[b*(m+q+n*p+1)*(Pq-Pqq*x^q)-a*Pqq*(m+q-n+1)*x^(q-n),x]*(a+b*x^n)^p,x]] /;
-  NeQ[m+q+n*p+1] && q-n>=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
-FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n]
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    Pqq*x^(q-n+1)*(a+b*x^n)^(p+1)/(b*(q+n*p+1)) + 
-    1/(b*(q+n*p+1))*Int[ExpandToSum[b*(q+n*p+1)*(Pq-Pqq*x^q)-a*Pqq*(q-n+1)*x^(q-n),x]*(a+b*x^n)^p,x]] /;
-  NeQ[q+n*p+1] && q-n>=0 && (IntegerQ[2*p] || IntegerQ[p+(q+1)/(2*n)])] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  -Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n))^p/x^(m+q+2),x],x,1/x]] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{g=Denominator[m],q=Expon[Pq,x]},
-  -g/c*Subst[Int[ExpandToSum[x^(g*q)*ReplaceAll[Pq,x->c^(-1)*x^(-g)],x]*
-    (a+b*c^(-n)*x^(-g*n))^p/x^(g*(m+q+1)+1),x],x,1/(c*x)^(1/g)]] /;
-FreeQ[{a,b,c,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(c_.*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  -(c*x)^m*(x^(-1))^m*Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n))^p/x^(m+q+2),x],x,1/x]] /;
-FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g*(m+1)-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,m,p},x] && PolyQ[Pq,x] && FractionQ[n]
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,p},x] && PolyQ[Pq,x] && FractionQ[n]
-
-
-Int[(c_*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,p},x] && PolyQ[Pq,x] && FractionQ[n]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a+b*x^Simplify[n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(c_*x_)^m_*Pq_*(a_+b_.*x_^n_)^p_,x_Symbol] :=
-  c^IntPart[m]*(c*x)^FracPart[m]/x^FracPart[m]*Int[x^m*Pq*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && PolyQ[Pq,x^n] && IntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*x_^m_.)*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  A*Int[(a+b*x^n)^p,x] + B*Int[x^m*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,A,B,m,n,p},x] && EqQ[m-n+1]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*Pq*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,m,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
-
-
-Int[Pq_*(a_+b_.*x_^n_)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,n,p},x] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
-
-
-Int[u_^m_.*Pq_*(a_+b_.*v_^n_.)^p_,x_Symbol] :=
-  u^m/(Coeff[v,x,1]*v^m)*Subst[Int[x^m*SubstFor[v,Pq,x]*(a+b*x^n)^p,x],x,v] /;
-FreeQ[{a,b,m,n,p},x] && LinearPairQ[u,v,x] && PolyQ[Pq,v^n]
-
-
-Int[Pq_*(a_+b_.*v_^n_.)^p_,x_Symbol] :=
-  1/Coeff[v,x,1]*Subst[Int[SubstFor[v,Pq,x]*(a+b*x^n)^p,x],x,v] /;
-FreeQ[{a,b,n,p},x] && LinearQ[v,x] && PolyQ[Pq,v^n]
-
-
-Int[(c_.*x_)^m_.*Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[(c*x)^m*Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && (IntegerQ[p] || PositiveQ[a1] && PositiveQ[a2])
-
-
-Int[(c_.*x_)^m_.*Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
-  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*
-    Int[(c*x)^m*Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,c,m,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && Not[EqQ[n,1] && LinearQ[Pq,x]]
-
-
-Int[Pq_*(a1_+b1_.*x_^n_.)^p_.*(a2_+b2_.*x_^n_.)^p_.,x_Symbol] :=
-  (a1+b1*x^n)^FracPart[p]*(a2+b2*x^n)^FracPart[p]/(a1*a2+b1*b2*x^(2*n))^FracPart[p]*
-    Int[Pq*(a1*a2+b1*b2*x^(2*n))^p,x] /;
-FreeQ[{a1,b1,a2,b2,n,p},x] && PolyQ[Pq,x] && EqQ[a2*b1+a1*b2] && Not[EqQ[n,1] && LinearQ[Pq,x]]
-
-
-Int[(e_+f_.*x_^n_.+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
-  e*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c) /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[a*c*f-e*(b*c+a*d)*(n*(p+1)+1)] && EqQ[a*c*g-b*d*e*(2*n*(p+1)+1)]
-
-
-Int[(e_+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
-  e*x*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c) /;
-FreeQ[{a,b,c,d,e,g,n,p},x] && EqQ[n2-2*n] && EqQ[n*(p+1)+1] && EqQ[a*c*g-b*d*e*(2*n*(p+1)+1)]
-
-
-Int[(h_.*x_)^m_.*(e_+f_.*x_^n_.+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
-  e*(h*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c*h*(m+1)) /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[n2-2*n] && EqQ[a*c*f*(m+1)-e*(b*c+a*d)*(m+n*(p+1)+1)] && 
-  EqQ[a*c*g*(m+1)-b*d*e*(m+2*n*(p+1)+1)] && NeQ[m+1]
-
-
-Int[(h_.*x_)^m_.*(e_+g_.*x_^n2_.)*(a_+b_.*x_^n_.)^p_.*(c_+d_.*x_^n_.)^p_.,x_Symbol] :=
-  e*(h*x)^(m+1)*(a+b*x^n)^(p+1)*(c+d*x^n)^(p+1)/(a*c*h*(m+1)) /;
-FreeQ[{a,b,c,d,e,g,h,m,n,p},x] && EqQ[n2-2*n] && EqQ[m+n*(p+1)+1] && EqQ[a*c*g*(m+1)-b*d*e*(m+2*n*(p+1)+1)] && 
-  NeQ[m+1]
-
-
-Int[(A_+B_.*x_^m_.)*(a_.+b_.*x_^n_)^p_.*(c_+d_.*x_^n_)^q_.,x_Symbol] :=
-  A*Int[(a+b*x^n)^p*(c+d*x^n)^q,x] + B*Int[x^m*(a+b*x^n)^p*(c+d*x^n)^q,x] /;
-FreeQ[{a,b,c,d,A,B,m,n,p,q},x] && NeQ[b*c-a*d] && EqQ[m-n+1]
-
-
-Int[Px_^q_.*(a_.+b_.*(c_+d_.*x_)^n_)^p_,x_Symbol] :=
-  With[{k=Denominator[n]},
-  k/d*Subst[Int[SimplifyIntegrand[x^(k-1)*ReplaceAll[Px,x->x^k/d-c/d]^q*(a+b*x^(k*n))^p,x],x],x,(c+d*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,p},x] && PolynomialQ[Px,x] && IntegerQ[q] && RationalQ[n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.3.5 (d x)^m Pq(x) (a+b x^n+c x^(2 n))^p*)
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/n*Subst[Int[SubstFor[x^n,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && EqQ[Simplify[m-n+1]]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && PositiveIntegerQ[p]
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_^n_.+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*x*(a+b*x^n+c*x^(2*n))^(p+1)/a /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EqQ[a*e-b*d*(n*(p+1)+1)] && EqQ[a*f-c*d*(2*n*(p+1)+1)]
-
-
-Int[(d_+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*x*(a+b*x^n+c*x^(2*n))^(p+1)/a /;
-FreeQ[{a,b,c,d,f,n,p},x] && EqQ[n2-2*n] && EqQ[n*(p+1)+1] && EqQ[c*d+a*f]
-
-
-Int[(g_.*x_)^m_.*(d_+e_.*x_^n_.+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*(g*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*g*(m+1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[n2-2*n] && EqQ[a*e*(m+1)-b*d*(m+n*(p+1)+1)] && EqQ[a*f*(m+1)-c*d*(m+2*n*(p+1)+1)] && 
-  NeQ[m+1]
-
-
-Int[(g_.*x_)^m_.*(d_+f_.*x_^n2_.)*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*(g*x)^(m+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*g*(m+1)) /;
-FreeQ[{a,b,c,d,f,g,m,n,p},x] && EqQ[n2-2*n] && EqQ[m+n*(p+1)+1] && EqQ[c*d+a*f] && NeQ[m+1]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*Int[(d*x)^m*Pq*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[b^2-4*a*c] && Not[IntegerQ[2*p]]
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^FracPart[p]/((4*c)^IntPart[p]*(b+2*c*x^n)^(2*FracPart[p]))*Int[Pq*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[b^2-4*a*c] && Not[IntegerQ[2*p]]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*SubstFor[x^n,Pq,x]*(a+b*x+c*x^2)^p,x],x,x^n] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(d_*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/d*Int[(d*x)^(m+1)*ExpandToSum[Pq/x,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]]
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  Int[x*ExpandToSum[Pq/x,x]*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && EqQ[Coeff[Pq,x,0]] && SumQ[Pq]
-
-
-Int[(d_+e_.*x_^n_+f_.*x_^n2_.+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  x*(a*d*(n+1)+(a*e-b*d*(n*(p+1)+1))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
-  EqQ[a^2*g*(n+1)-c*(n*(2*p+3)+1)*(a*e-b*d*(n*(p+1)+1))] && 
-  EqQ[a^2*f*(n+1)-a*c*d*(n+1)*(2*n*(p+1)+1)-b*(n*(p+2)+1)*(a*e-b*d*(n*(p+1)+1))]
-
-
-Int[(d_+f_.*x_^n2_.+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*x*(a*(n+1)-b*(n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
-FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
-  EqQ[a^2*g*(n+1)+c*b*d*(n*(2*p+3)+1)*(n*(p+1)+1)] && 
-  EqQ[a^2*f*(n+1)-a*c*d*(n+1)*(2*n*(p+1)+1)+b^2*d*(n*(p+2)+1)*(n*(p+1)+1)]
-
-
-Int[(d_+e_.*x_^n_+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  x*(a*d*(n+1)+(a*e-b*d*(n*(p+1)+1))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
-FreeQ[{a,b,c,d,e,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
-  EqQ[a^2*g*(n+1)-c*(n*(2*p+3)+1)*(a*e-b*d*(n*(p+1)+1))] && 
-  EqQ[a*c*d*(n+1)*(2*n*(p+1)+1)+b*(n*(p+2)+1)*(a*e-b*d*(n*(p+1)+1))]
-
-
-Int[(d_+g_.*x_^n3_.)*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  d*x*(a*(n+1)-b*(n*(p+1)+1)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*(n+1)) /;
-FreeQ[{a,b,c,d,g,n,p},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && 
-  EqQ[a^2*g*(n+1)+c*b*d*(n*(2*p+3)+1)*(n*(p+1)+1)] && 
-  EqQ[a*c*d*(n+1)*(2*n*(p+1)+1)-b^2*d*(n*(p+2)+1)*(n*(p+1)+1)]
-
-
-Int[x_^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^s_.)/(a_+b_.*x_^n_.+c_.*x_^n2_.)^(3/2),x_Symbol] :=
-  -(2*c*(b*f-2*a*g)+2*h*(b^2-4*a*c)*x^(n/2)+2*c*(2*c*f-b*g)*x^n)/(c*n*(b^2-4*a*c)*Sqrt[a+b*x^n+c*x^(2*n)]) /;
-FreeQ[{a,b,c,e,f,g,h,m,n},x] && EqQ[n2-2*n] && EqQ[q-n/2] && EqQ[r-3*n/2] && EqQ[s-2*n] && 
-  NeQ[b^2-4*a*c] && EqQ[2*m-n+2] && EqQ[c*e+a*h]
-
-
-Int[(d_*x_)^m_.*(e_+f_.*x_^q_.+g_.*x_^r_.+h_.*x_^s_.)/(a_+b_.*x_^n_.+c_.*x_^n2_.)^(3/2),x_Symbol] :=
-  (d*x)^m/x^m*Int[x^m*(e+f*x^(n/2)+g*x^((3*n)/2)+h*x^(2*n))/(a+b*x^n+c*x^(2*n))^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[n2-2*n] && EqQ[q-n/2] && EqQ[r-3*n/2] && EqQ[s-2*n] && 
-  NeQ[b^2-4*a*c] && EqQ[2*m-n+2] && EqQ[c*e+a*h]
-
-
-Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],i},
-  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c))*
-    Sum[((b^2-2*a*c)*Coeff[Pq,x,i]-a*b*Coeff[Pq,x,n+i])*x^i+
-      c*(b*Coeff[Pq,x,i]-2*a*Coeff[Pq,x,n+i])*x^(n+i),{i,0,n-1}] + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Sum[((b^2*(n*(p+1)+i+1)-2*a*c*(2*n*(p+1)+i+1))*Coeff[Pq,x,i]-a*b*(i+1)*Coeff[Pq,x,n+i])*x^i+
-      c*(n*(2*p+3)+i+1)*(b*Coeff[Pq,x,i]-2*a*Coeff[Pq,x,n+i])*x^(n+i),{i,0,n-1}],x] /;
- q<2*n] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  Module[{Q=PolynomialQuotient[(b*c)^(Floor[(q-1)/n]+1)*Pq,a+b*x^n+c*x^(2*n),x],
-          R=PolynomialRemainder[(b*c)^(Floor[(q-1)/n]+1)*Pq,a+b*x^n+c*x^(2*n),x],i},
-  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*
-    Sum[((b^2-2*a*c)*Coeff[R,x,i]-a*b*Coeff[R,x,n+i])*x^i+
-      c*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}] + 
-  1/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*ExpandToSum[a*n*(p+1)*(b^2-4*a*c)*Q+
-    Sum[((b^2*(n*(p+1)+i+1)-2*a*c*(2*n*(p+1)+i+1))*Coeff[R,x,i]-a*b*(i+1)*Coeff[R,x,n+i])*x^i+
-     c*(n*(2*p+3)+i+1)*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}],x],x]] /;
- q>=2*n] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x]},
-  Module[{Q=PolynomialQuotient[a*(b*c)^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n+c*x^(2*n),x],
-          R=PolynomialRemainder[a*(b*c)^(Floor[(q-1)/n]+1)*x^m*Pq,a+b*x^n+c*x^(2*n),x],i},
-  -x*(a+b*x^n+c*x^(2*n))^(p+1)/(a^2*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*
-    Sum[((b^2-2*a*c)*Coeff[R,x,i]-a*b*Coeff[R,x,n+i])*x^i+
-      c*(b*Coeff[R,x,i]-2*a*Coeff[R,x,n+i])*x^(n+i),{i,0,n-1}] + 
-  1/(a*n*(p+1)*(b^2-4*a*c)*(b*c)^(Floor[(q-1)/n]+1))*Int[x^m*(a+b*x^n+c*x^(2*n))^(p+1)*
-    ExpandToSum[n*(p+1)*(b^2-4*a*c)*x^(-m)*Q+
-      Sum[((b^2*(n*(p+1)+i+1)/a-2*c*(2*n*(p+1)+i+1))*Coeff[R,x,i]-b*(i+1)*Coeff[R,x,n+i])*x^(i-m)+
-       c*(n*(2*p+3)+i+1)*(b/a*Coeff[R,x,i]-2*Coeff[R,x,n+i])*x^(n+i-m),{i,0,n-1}],x],x]] /;
- q>=2*n] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[p] && p<-1 && NegativeIntegerQ[m]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  With[{g=GCD[m+1,n]},
-  1/g*Subst[Int[x^((m+1)/g-1)*ReplaceAll[Pq,x->x^(1/g)]*(a+b*x^(n/g)+c*x^(2*n/g))^p,x],x,x^g] /;
- g!=1] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && NiceSqrtQ[b^2-4*a*c]
-
-
-Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_),x_Symbol] :=
-  Int[ExpandIntegrand[Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  (NiceSqrtQ[b^2-4*a*c] || Expon[Pq,x]<n)
-
-
-Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    c^p*Pqq*Log[a+b*x+c*x^2]/2 + 
-    1/2*Int[ExpandToSum[2*Pq-c^p*Pqq*(b+2*c*x)/(a+b*x+c*x^2)^(p+1),x]*(a+b*x+c*x^2)^p,x]] /;
-  q+2*p+1==0] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p]
-
-
-Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    c^p*Pqq*ArcTanh[(b+2*c*x)/(2*Rt[c,2]*Sqrt[a+b*x+c*x^2])] + 
-    Int[ExpandToSum[Pq-c^(p+1/2)*Pqq/(a+b*x+c*x^2)^(p+1/2),x]*(a+b*x+c*x^2)^p,x]] /;
-  q+2*p+1==0] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1/2] && PosQ[c]
-
-
-Int[Pq_*(a_+b_.*x_+c_.*x_^2)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    -(-c)^p*Pqq*ArcTan[(b+2*c*x)/(2*Rt[-c,2]*Sqrt[a+b*x+c*x^2])] + 
-    Int[ExpandToSum[Pq-(-c)^(p+1/2)*Pqq/(a+b*x+c*x^2)^(p+1/2),x]*(a+b*x+c*x^2)^p,x]] /;
-  q+2*p+1==0] /;
-FreeQ[{a,b,c},x] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1/2] && NegQ[c]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    Pqq*(d*x)^(m+q-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*d^(q-2*n+1)*(m+q+2*n*p+1)) + 
-    Int[(d*x)^m*ExpandToSum[Pq-Pqq*x^q-Pqq*(a*(m+q-2*n+1)*x^(q-2*n)+b*(m+q+n*(p-1)+1)*x^(q-n))/(c*(m+q+2*n*p+1)),x]*
-      (a+b*x^n+c*x^(2*n))^p,x]] /;
-  q>=2*n && m+q+2*n*p+1!=0 && (IntegerQ[2*p] || n==1 && IntegerQ[4*p] || IntegerQ[p+(q+1)/(2*n)])] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-    With[{Pqq=Coeff[Pq,x,q]},
-    Pqq*x^(q-2*n+1)*(a+b*x^n+c*x^(2*n))^(p+1)/(c*(q+2*n*p+1)) + 
-    Int[ExpandToSum[Pq-Pqq*x^q-Pqq*(a*(q-2*n+1)*x^(q-2*n)+b*(q+n*(p-1)+1)*x^(q-n))/(c*(q+2*n*p+1)),x]*(a+b*x^n+c*x^(2*n))^p,x]] /;
-  q>=2*n && q+2*n*p+1!=0 && (IntegerQ[2*p] || n==1 && IntegerQ[4*p] || IntegerQ[p+(q+1)/(2*n)])] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],j,k},
-  Int[Sum[1/d^j*(d*x)^(m+j)*Sum[Coeff[Pq,x,j+k*n]*x^(k*n),{k,0,(q-j)/n+1}]*(a+b*x^n+c*x^(2*n))^p,{j,0,n-1}],x]] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[PolyQ[Pq,x^n]]
-
-
-Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  Module[{q=Expon[Pq,x],j,k},
-  Int[Sum[x^j*Sum[Coeff[Pq,x,j+k*n]*x^(k*n),{k,0,(q-j)/n+1}]*(a+b*x^n+c*x^(2*n))^p,{j,0,n-1}],x]] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && Not[PolyQ[Pq,x^n]]
-
-
-Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
-  Int[RationalFunctionExpand[(d*x)^m*Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
-  Int[RationalFunctionExpand[Pq/(a+b*x^n+c*x^(2*n)),x],x] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  -Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+q+2),x],x,1/x]] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[m],q=Expon[Pq,x]},
-  -g/d*Subst[Int[ExpandToSum[x^(g*q)*ReplaceAll[Pq,x->d^(-1)*x^(-g)],x]*
-    (a+b*d^(-n)*x^(-g*n)+c*d^(-2*n)*x^(-2*g*n))^p/x^(g*(m+q+1)+1),x],x,1/(d*x)^(1/g)]] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(d_.*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{q=Expon[Pq,x]},
-  -(d*x)^m*(x^(-1))^m*Subst[Int[ExpandToSum[x^q*ReplaceAll[Pq,x->x^(-1)],x]*(a+b*x^(-n)+c*x^(-2*n))^p/x^(m+q+2),x],x,1/x]] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g*(m+1)-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  With[{g=Denominator[n]},
-  g*Subst[Int[x^(g-1)*ReplaceAll[Pq,x->x^g]*(a+b*x^(g*n)+c*x^(2*g*n))^p,x],x,x^(1/g)]] /;
-FreeQ[{a,b,c,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^(m-1/2)*Sqrt[d*x]/Sqrt[x]*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n] && PositiveIntegerQ[m+1/2]
-
-
-Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  d^(m+1/2)*Sqrt[x]/Sqrt[d*x]*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n] && NegativeIntegerQ[m-1/2]
-
-
-Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c] && FractionQ[n]
-
-
-Int[x_^m_.*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  1/(m+1)*Subst[Int[ReplaceAll[SubstFor[x^n,Pq,x],x->x^Simplify[n/(m+1)]]*(a+b*x^Simplify[n/(m+1)]+c*x^Simplify[2*n/(m+1)])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && 
-  Not[IntegerQ[n]]
-
-
-Int[(d_*x_)^m_*Pq_*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (d*x)^m/x^m*Int[x^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,p},x] && EqQ[n2-2*n] && PolyQ[Pq,x^n] && NeQ[b^2-4*a*c] && IntegerQ[Simplify[n/(m+1)]] && 
-  Not[IntegerQ[n]]
-
-
-Int[(d_.*x_)^m_.*Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[(d*x)^m*Pq/(b-q+2*c*x^n),x] -
-  2*c/q*Int[(d*x)^m*Pq/(b+q+2*c*x^n),x]] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c]
-
-
-Int[Pq_/(a_+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[Pq/(b-q+2*c*x^n),x] -
-  2*c/q*Int[Pq/(b+q+2*c*x^n),x]] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NeQ[b^2-4*a*c]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NegativeIntegerQ[p+1]
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[Pq*(a+b*x^n+c*x^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && PolyQ[Pq,x] && NegativeIntegerQ[p+1]
-
-
-Int[(d_.*x_)^m_.*Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[n2-2*n] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
-
-
-Int[Pq_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  Defer[Int][Pq*(a+b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && (PolyQ[Pq,x] || PolyQ[Pq,x^n])
-
-
-Int[u_^m_.*Pq_*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  u^m/(Coefficient[v,x,1]*v^m)*Subst[Int[x^m*SubstFor[v,Pq,x]*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && LinearPairQ[u,v,x] && PolyQ[Pq,v^n]
-
-
-Int[Pq_*(a_+b_.*v_^n_+c_.*v_^n2_.)^p_.,x_Symbol] :=
-  1/Coefficient[v,x,1]*Subst[Int[SubstFor[v,Pq,x]*(a+b*x^n+c*x^(2*n))^p,x],x,v] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && LinearQ[v,x] && PolyQ[Pq,v^n]
-
-
-
-`)
+(* ::Text:: *)
+(*(g Tan[e+f x])^p (a+b Sec[e+f x])^m == (-g Cot[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m*)
 
-func resourcesRubi123GeneralTrinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi123GeneralTrinomialProductsM, nil
-}
 
-func resourcesRubi123GeneralTrinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi123GeneralTrinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+UnifyInertTrigFunction[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
+  (-g*cot[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m /;
+FreeQ[{a,b,e,f,g,m,p},x]
 
-	info := bindataFileInfo{name: "resources/rubi/1.2.3 General trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi124ImproperTrinomialProductsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.2.4 Improper Trinomial Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.4.1 (a x^q+b x^n+c x^(2 n-q))^p*)
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  Int[((a+b+c)*x^n)^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n-q] && EqQ[r-n]
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  Int[x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && IntegerQ[p]
-
-
-Int[Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
-    Int[x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q]
-
-
-Int[1/Sqrt[a_.*x_^2+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  -2/(n-2)*Subst[Int[1/(4*a-x^2),x],x,x*(2*a+b*x^(n-2))/Sqrt[a*x^2+b*x^n+c*x^r]] /;
-FreeQ[{a,b,c,n,r},x] && EqQ[r,2*n-2] && PosQ[n-2] && NeQ[b^2-4*a*c,0]
-
-
-Int[1/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[1/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]),x] /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q]
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x*(a*x^q+b*x^n+c*x^(2*n-q))^p/(p*(2*n-q)+1) + 
-  (n-q)*p/(p*(2*n-q)+1)*
-    Int[x^q*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && 
-  NeQ[p*(2*n-q)+1]
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  -x^(-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(-q)*((p*q+1)*(b^2-2*a*c)+(n-q)*(p+1)*(b^2-4*a*c)+b*c*(p*q+(n-q)*(2*p+3)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  (a*x^q+b*x^n+c*x^(2*n-q))^p/(x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p)*
-    Int[x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]]
-
-
-Int[(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  Defer[Int][(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)]
-
-
-Int[(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
-FreeQ[{a,b,c,n,p,q},x] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.4.2 (d x)^m (a x^q+b x^n+c x^(2 n-q))^p*)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
-  Int[x^m*((a+b+c)*x^n)^p,x] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[q-n] && EqQ[r-n]
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
-  Int[x^(m+p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,m,n,q},x] && EqQ[r-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
-
-
-Int[x_^m_./Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  -2/(n-q)*Subst[Int[1/(4*a-x^2),x],x,x^(m+1)*(2*a+b*x^(n-q))/Sqrt[a*x^q+b*x^n+c*x^r]] /;
-FreeQ[{a,b,c,m,n,q,r},x] && EqQ[r,2*n-q] && PosQ[n-q] && NeQ[b^2-4*a*c,0] && EqQ[m,q/2-1]
-
-
-Int[x_^m_./Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[x^(m-q/2)/Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
-FreeQ[{a,b,c,m,n,q},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && (EqQ[m-1] && EqQ[n-3] && EqQ[q-2]  ||  
-  (EqQ[m+1/2] || EqQ[m-3/2] || EqQ[m-1/2] || EqQ[m-5/2]) && EqQ[n-3] && EqQ[q-1])
-
-
-Int[x_^m_./(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^(3/2),x_Symbol] :=
-  -2*x^((n-1)/2)*(b+2*c*x)/((b^2-4*a*c)*Sqrt[a*x^(n-1)+b*x^n+c*x^(n+1)]) /;
-FreeQ[{a,b,c,n},x] && EqQ[m-3*(n-1)/2] && EqQ[q-n+1] && EqQ[r-n-1] && NeQ[b^2-4*a*c]
-
-
-Int[x_^m_./(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^(3/2),x_Symbol] :=
-  x^((n-1)/2)*(4*a+2*b*x)/((b^2-4*a*c)*Sqrt[a*x^(n-1)+b*x^n+c*x^(n+1)]) /;
-FreeQ[{a,b,c,n},x] && EqQ[m-(3*n-1)/2] && EqQ[q-n+1] && EqQ[r-n-1] && NeQ[b^2-4*a*c]
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-n)*(a*x^(n-1)+b*x^n+c*x^(n+1))^(p+1)/(2*c*(p+1)) - 
-  b/(2*c)*Int[x^(m-1)*(a*x^(n-1)+b*x^n+c*x^(n+1))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && m+p*(n-1)-1==0
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-n+q+1)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/(2*c*(n-q)*(2*p+1)) - 
-  p*(b^2-4*a*c)/(2*c*(2*p+1))*Int[x^(m+q)*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q+1==n-q
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-n+q+1)*(b*(n-q)*p+c*(m+p*q+(n-q)*(2*p-1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p-1)+1)) + 
-  (n-q)*p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p-1)+1))*
-    Int[x^(m-(n-2*q))*
-      Simp[-a*b*(m+p*q-n+q+1)+(2*a*c*(m+p*q+(n-q)*(2*p-1)+1)-b^2*(m+p*q+(n-q)*(p-1)+1))*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q+1>n-q && m+p*(2*n-q)+1!=0 && m+p*q+(n-q)*(2*p-1)+1!=0
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m+1)*(a*x^q+b*x^n+c*x^(2*n-q))^p/(m+p*q+1) - 
-  (n-q)*p/(m+p*q+1)*Int[x^(m+n)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q+1<=-(n-q)+1 && NeQ[m+p*q+1]
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m+1)*(a*x^q+b*x^n+c*x^(2*n-q))^p/(m+p*(2*n-q)+1) + 
-  (n-q)*p/(m+p*(2*n-q)+1)*Int[x^(m+q)*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q+1>-(n-q) && m+p*(2*n-q)+1!=0
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  -x^(m-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
-  (2*a*c-b^2*(p+2))/(a*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-q)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && m+p*q+1==-(n-q)*(2*p+3)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  -x^(m-2*n+q+1)*(2*a+b*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/((n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-2*n+q)*(2*a*(m+p*q-2*(n-q)+1)+b*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && m+p*q+1>2*(n-q)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  -x^(m-q+1)*(b^2-2*a*c+b*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-q)*
-      (b^2*(m+p*q+(n-q)*(p+1)+1)-2*a*c*(m+p*q+2*(n-q)*(p+1)+1)+b*c*(m+p*q+(n-q)*(2*p+3)+1)*x^(n-q))*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && m+p*q+1<n-q
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-n+1)*(b+2*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) - 
-  1/((n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-n)*(b*(m+p*q-n+q+1)+2*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && n-q<m+p*q+1<2*(n-q)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-2*n+q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(2*c*(n-q)*(p+1)) - 
-  b/(2*c)*Int[x^(m-n+q)*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1==2*(n-q)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  -x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(2*a*(n-q)*(p+1)) - 
-  b/(2*a)*Int[x^(m+n-q)*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1==-2*(n-q)*(p+1)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-2*n+q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(c*(m+p*q+2*(n-q)*p+1)) - 
-  1/(c*(m+p*q+2*(n-q)*p+1))*
-    Int[x^(m-2*(n-q))*(a*(m+p*q-2*(n-q)+1)+b*(m+p*q+(n-q)*(p-1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1>2*(n-q)
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) - 
-  1/(a*(m+p*q+1))*
-    Int[x^(m+n-q)*(b*(m+p*q+(n-q)*(p+1)+1)+c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c},x] && EqQ[r-(2*n-q)] && PosQ[n-q] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && -1<=p<0 && m+p*q+1<0
-
-
-Int[x_^m_.*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  (a*x^q+b*x^n+c*x^(2*n-q))^p/(x^(p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p)*
-    Int[x^(m+p*q)*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,m,n,p,q},x] && EqQ[r-(2*n-q)] && Not[IntegerQ[p]] && PosQ[n-q]
-
-
-Int[u_^m_.*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[x^m*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
-FreeQ[{a,b,c,m,n,p,q},x] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.4.3 (d+e x^(n-q)) (a x^q+b x^n+c x^(2 n-q))^p*)
-
-
-Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  Int[x^(p*q)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
-
-
-(* Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
-    Int[x^(q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && PositiveIntegerQ[p+1/2] *)
-
-
-(* Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[x^(q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && NegativeIntegerQ[p-1/2] *)
-
-
-(* Int[(A_+B_.*x_^j_.)*Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
-    Int[x^(q/2)*(A+B*x^(n-q))*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
-FreeQ[{a,b,c,A,B,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] *)
-
-
-Int[(A_+B_.*x_^j_.)/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[(A+B*x^(n-q))/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]),x] /;
-FreeQ[{a,b,c,A,B,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && 
-  EqQ[n-3] && EqQ[q-2]
-
-
-Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_,x_Symbol] :=
-  x*(b*B*(n-q)*p+A*c*(p*q+(n-q)*(2*p+1)+1)+B*c*(p*(2*n-q)+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/
-    (c*(p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1)) + 
-  (n-q)*p/(c*(p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1))*
-    Int[x^q*
-      (2*a*A*c*(p*q+(n-q)*(2*p+1)+1)-a*b*B*(p*q+1)+(2*a*B*c*(p*(2*n-q)+1)+A*b*c*(p*q+(n-q)*(2*p+1)+1)-b^2*B*(p*q+(n-q)*p+1))*x^(n-q))*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p>0 && 
-  NeQ[p*(2*n-q)+1] && NeQ[p*q+(n-q)*(2*p+1)+1]
-
-
-Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_,x_Symbol] :=
-  With[{n=q+r},
-  x*(A*(p*q+(n-q)*(2*p+1)+1)+B*(p*(2*n-q)+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/((p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1)) + 
-  (n-q)*p/((p*(2*n-q)+1)*(p*q+(n-q)*(2*p+1)+1))*
-    Int[x^q*(2*a*A*(p*q+(n-q)*(2*p+1)+1)+(2*a*B*(p*(2*n-q)+1))*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
- EqQ[j-(2*n-q)] && NeQ[p*(2*n-q)+1] && NeQ[p*q+(n-q)*(2*p+1)+1]] /;
-FreeQ[{a,c,A,B,q},x] && Not[IntegerQ[p]] && RationalQ[p] && p>0
-
-
-Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_,x_Symbol] :=
-  -x^(-q+1)*(A*b^2-a*b*B-2*a*A*c+(A*b-2*a*B)*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(-q)*
-      ((A*b^2*(p*q+(n-q)*(p+1)+1)-a*b*B*(p*q+1)-2*a*A*c*(p*q+2*(n-q)*(p+1)+1)+(p*q+(n-q)*(2*p+3)+1)*(A*b-2*a*B)*c*x^(n-q))*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1)),x] /;
-FreeQ[{a,b,c,A,B,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && RationalQ[p] && p<-1
-
-
-Int[(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_,x_Symbol] :=
-  With[{n=q+r},
-  -x^(-q+1)*(a*A*c+a*B*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(2*a*c)) + 
-  1/(a*(n-q)*(p+1)*(2*a*c))*
-    Int[x^(-q)*((a*A*c*(p*q+2*(n-q)*(p+1)+1)+a*B*c*(p*q+(n-q)*(2*p+3)+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)),x] /;
- EqQ[j-(2*n-q)]] /;
-FreeQ[{a,c,A,B,q},x] && Not[IntegerQ[p]] && RationalQ[p] && p<-1
-
-
-(* Int[(A_+B_.*x_^q_)*(a_.*x_^j_.+b_.*x_^k_.+c_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^k+c*x^n)^p/(x^(j*p)*(a+b*x^(k-j)+c*x^(2*(k-j)))^p)*
-    Int[x^(j*p)*(A+B*x^(k-j))*(a+b*x^(k-j)+c*x^(2*(k-j)))^p,x] /;
-FreeQ[{a,b,c,A,B,j,k,p},x] && EqQ[q-(k-j)] && EqQ[n-(2*k-j)] && PosQ[k-j] && Not[IntegerQ[p]] *)
-
-
-Int[(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_.,x_Symbol] :=
-  Defer[Int][(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)]
-
-
-Int[(A_+B_.*u_^j_.)*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
-FreeQ[{a,b,c,A,B,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.2.4.4 (f x)^m (d+e x^(n-q)) (a x^q+b x^n+c x^(2 n-q))^p*)
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  Int[x^(m+p*q)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,m,n,q},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && IntegerQ[p] && PosQ[n-q]
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
-  (n-q)*p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(n+m)*
-      Simp[2*a*B*(m+p*q+1)-A*b*(m+p*q+(n-q)*(2*p+1)+1)+(b*B*(m+p*q+1)-2*A*c*(m+p*q+(n-q)*(2*p+1)+1))*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q<=-(n-q) && m+p*q+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
-  2*(n-q)*p/((m+p*q+1)*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(n+m)*Simp[a*B*(m+p*q+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q<=-(n-q) && m+p*q+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p>0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  x^(m-n+1)*(A*b-2*a*B-(b*B-2*A*c)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/((n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/((n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-n)*
-      Simp[(m+p*q-n+q+1)*(2*a*B-A*b)+(m+p*q+2*(n-q)*(p+1)+1)*(b*B-2*A*c)*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && m+p*q>n-q-1
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  x^(m-n+1)*(a*B-A*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(2*a*c*(n-q)*(p+1)) - 
-  1/(2*a*c*(n-q)*(p+1))*
-    Int[x^(m-n)*Simp[a*B*(m+p*q-n+q+1)-A*c*(m+p*q+(n-q)*2*(p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p+1),x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>n-q-1] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p<-1
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  x^(m+1)*(b*B*(n-q)*p+A*c*(m+p*q+(n-q)*(2*p+1)+1)+B*c*(m+p*q+2*(n-q)*p+1)*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p/
-    (c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
-  (n-q)*p/(c*(m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(m+q)*
-      Simp[2*a*A*c*(m+p*q+(n-q)*(2*p+1)+1)-a*b*B*(m+p*q+1)+
-        (2*a*B*c*(m+p*q+2*(n-q)*p+1)+A*b*c*(m+p*q+(n-q)*(2*p+1)+1)-b^2*B*(m+p*q+(n-q)*p+1))*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p-1),x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p>0 && m+p*q>-(n-q)-1 && m+p*(2*n-q)+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  x^(m+1)*(A*(m+p*q+(n-q)*(2*p+1)+1)+B*(m+p*q+2*(n-q)*p+1)*x^(n-q))*(a*x^q+c*x^(2*n-q))^p/
-    ((m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1)) + 
-  (n-q)*p/((m+p*(2*n-q)+1)*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(m+q)*Simp[2*a*A*(m+p*q+(n-q)*(2*p+1)+1)+2*a*B*(m+p*q+2*(n-q)*p+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p-1),x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>-(n-q) && m+p*q+2*(n-q)*p+1!=0 && m+p*q+(n-q)*(2*p+1)+1!=0 && m+1!=n] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p>0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  -x^(m-q+1)*(A*b^2-a*b*B-2*a*A*c+(A*b-2*a*B)*c*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(n-q)*(p+1)*(b^2-4*a*c)) + 
-  1/(a*(n-q)*(p+1)*(b^2-4*a*c))*
-    Int[x^(m-q)*
-      Simp[A*b^2*(m+p*q+(n-q)*(p+1)+1)-a*b*B*(m+p*q+1)-2*a*A*c*(m+p*q+2*(n-q)*(p+1)+1)+
-        (m+p*q+(n-q)*(2*p+3)+1)*(A*b-2*a*B)*c*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^(p+1),x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && p<-1 && m+p*q<n-q-1
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  -x^(m-q+1)*(A*c+B*c*x^(n-q))*(a*x^q+c*x^(2*n-q))^(p+1)/(2*a*c*(n-q)*(p+1)) + 
-  1/(2*a*c*(n-q)*(p+1))*
-    Int[x^(m-q)*Simp[A*c*(m+p*q+2*(n-q)*(p+1)+1)+B*(m+p*q+(n-q)*(2*p+3)+1)*c*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^(p+1),x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q<n-q-1] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && p<-1
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  B*x^(m-n+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(c*(m+p*q+(n-q)*(2*p+1)+1)) - 
-  1/(c*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(m-n+q)*
-      Simp[a*B*(m+p*q-n+q+1)+(b*B*(m+p*q+(n-q)*p+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1))*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && -1<=p<0 && m+p*q>=n-q-1 && m+p*q+(n-q)*(2*p+1)+1!=0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  B*x^(m-n+1)*(a*x^q+c*x^(2*n-q))^(p+1)/(c*(m+p*q+(n-q)*(2*p+1)+1)) - 
-  1/(c*(m+p*q+(n-q)*(2*p+1)+1))*
-    Int[x^(m-n+q)*Simp[a*B*(m+p*q-n+q+1)-A*c*(m+p*q+(n-q)*(2*p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^p,x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && m+p*q>=n-q-1 && m+p*q+(n-q)*(2*p+1)+1!=0] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q] && -1<=p<0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  A*x^(m-q+1)*(a*x^q+b*x^n+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) + 
-  1/(a*(m+p*q+1))*
-    Int[x^(m+n-q)*
-      Simp[a*B*(m+p*q+1)-A*b*(m+p*q+(n-q)*(p+1)+1)-A*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q),x]*
-      (a*x^q+b*x^n+c*x^(2*n-q))^p,x] /;
-FreeQ[{a,b,c,A,B},x] && EqQ[r-(n-q)] && EqQ[j-(2*n-q)] && Not[IntegerQ[p]] && NeQ[b^2-4*a*c] && PositiveIntegerQ[n] && 
-  RationalQ[m,p,q] && (-1<=p<0 || m+p*q+(n-q)*(2*p+1)+1==0) && m+p*q<=-(n-q) && m+p*q+1!=0
-
-
-Int[x_^m_.*(A_+B_.*x_^r_.)*(a_.*x_^q_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  With[{n=q+r},
-  A*x^(m-q+1)*(a*x^q+c*x^(2*n-q))^(p+1)/(a*(m+p*q+1)) + 
-  1/(a*(m+p*q+1))*
-    Int[x^(m+n-q)*Simp[a*B*(m+p*q+1)-A*c*(m+p*q+2*(n-q)*(p+1)+1)*x^(n-q),x]*(a*x^q+c*x^(2*n-q))^p,x] /;
- EqQ[j-(2*n-q)] && PositiveIntegerQ[n] && (-1<=p<0 || m+p*q+(n-q)*(2*p+1)+1==0) && m+p*q<=-(n-q) && m+p*q+1!=0] /;
-FreeQ[{a,c,A,B},x] && Not[IntegerQ[p]] && RationalQ[m,p,q]
-
-
-Int[x_^m_.*(A_+B_.*x_^j_.)/Sqrt[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.],x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[x^(m-q/2)*(A+B*x^(n-q))/Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))],x] /;
-FreeQ[{a,b,c,A,B,m,n,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PosQ[n-q] && 
-	(EqQ[m-1/2] || EqQ[m+1/2]) && EqQ[n-3] && EqQ[q-1]
-
-
-(* Int[x_^m_.*(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]/(x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))])*
-    Int[x^(m+q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && PositiveIntegerQ[p+1/2] && PosQ[n-q] *)
-
-
-(* Int[x_^m_.*(A_+B_.*x_^j_.)*(a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.)^p_,x_Symbol] :=
-  x^(q/2)*Sqrt[a+b*x^(n-q)+c*x^(2*(n-q))]/Sqrt[a*x^q+b*x^n+c*x^(2*n-q)]*
-    Int[x^(m+q*p)*(A+B*x^(n-q))*(a+b*x^(n-q)+c*x^(2*(n-q)))^p,x] /;
-FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && NegativeIntegerQ[p-1/2] && PosQ[n-q] *)
-
-
-Int[x_^m_.*(A_+B_.*x_^q_)*(a_.*x_^j_.+b_.*x_^k_.+c_.*x_^n_.)^p_,x_Symbol] :=
-  (a*x^j+b*x^k+c*x^n)^p/(x^(j*p)*(a+b*x^(k-j)+c*x^(2*(k-j)))^p)*
-    Int[x^(m+j*p)*(A+B*x^(k-j))*(a+b*x^(k-j)+c*x^(2*(k-j)))^p,x] /;
-FreeQ[{a,b,c,A,B,j,k,m,p},x] && EqQ[q-(k-j)] && EqQ[n-(2*k-j)] && Not[IntegerQ[p]] && PosQ[k-j]
-
-
-Int[u_^m_.*(A_+B_.*u_^j_.)*(a_.*u_^q_.+b_.*u_^n_.+c_.*u_^r_.)^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[x^m*(A+B*x^(n-q))*(a*x^q+b*x^n+c*x^(2*n-q))^p,x],x,u] /;
-FreeQ[{a,b,c,A,B,m,n,p,q},x] && EqQ[j-(n-q)] && EqQ[r-(2*n-q)] && LinearQ[u,x] && NeQ[u-x]
-
-
-
-`)
+(* ::Subsubsection::Closed:: *)
+(*3.2.1 (a+b sec)^m (c+d sec)^n*)
 
-func resourcesRubi124ImproperTrinomialProductsMBytes() ([]byte, error) {
-	return _resourcesRubi124ImproperTrinomialProductsM, nil
-}
 
-func resourcesRubi124ImproperTrinomialProductsM() (*asset, error) {
-	bytes, err := resourcesRubi124ImproperTrinomialProductsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.2.4 Improper trinomial products.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi13MiscellaneousAlgebraicFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*1.3 Miscellaneous Algebraic Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*1.3.1 u (a+b x+c x^2+d x^3)^p*)
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*a^(2*p))*Int[(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
-FreeQ[{a,b,d},x] && IntegerQ[p] && EqQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandToSum[(a+b*x+d*x^3)^p,x],x] /;
-FreeQ[{a,b,d},x] && PositiveIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+b*x+d*x^3]},
-  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,b,d},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
-FreeQ[{a,b,d},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  (a+b*x+d*x^3)^p/((3*a-b*x)^p*(3*a+2*b*x)^(2*p))*Int[(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
-FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && EqQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+b*x+d*x^3],x]},
-  (a+b*x+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
-  (a+b*x+d*x^3)^p/(((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p)*
-    Int[((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
-FreeQ[{a,b,d,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*a^(2*p))*Int[(e+f*x)^m*(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
-FreeQ[{a,b,d,e,f,m},x] && IntegerQ[p] && EqQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(e+f*x)^m*(a+b*x+d*x^3)^p,x],x] /;
-FreeQ[{a,b,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+b*x+d*x^3]},
-  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,b,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[(e+f*x)^m*((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
-FreeQ[{a,b,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  (a+b*x+d*x^3)^p/((3*a-b*x)^p*(3*a+2*b*x)^(2*p))*Int[(e+f*x)^m*(3*a-b*x)^p*(3*a+2*b*x)^(2*p),x] /;
-FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+b*x+d*x^3],x]},
-  (a+b*x+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*b^3*d+27*a^2*d^2],3]},
-  (a+b*x+d*x^3)^p/(((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p)*
-    Int[(e+f*x)^m*((6*b*d-2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      ((6*(1+I*Sqrt[3])*b*d-2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p*
-      ((6*(1-I*Sqrt[3])*b*d-2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)-3*d*x)^p,x]] /;
-FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*b^3+27*a^2*d]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  -1/(3^(3*p)*d^(2*p))*Int[(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
-FreeQ[{a,c,d},x] && IntegerQ[p] && EqQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandToSum[(a+c*x^2+d*x^3)^p,x],x] /;
-FreeQ[{a,c,d},x] && PositiveIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+c*x^2+d*x^3]},
-  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,c,d},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,c,d},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  (a+c*x^2+d*x^3)^p/((c-3*d*x)^p*(2*c+3*d*x)^(2*p))*Int[(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
-FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && EqQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+c*x^2+d*x^3],x]},
-  (a+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
-  (a+c*x^2+d*x^3)^p/((c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
-    Int[(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,c,d,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  -1/(3^(3*p)*d^(2*p))*Int[(e+f*x)^m*(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
-FreeQ[{a,c,d,e,f,m},x] && IntegerQ[p] && EqQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(e+f*x)^m*(a+c*x^2+d*x^3)^p,x],x] /;
-FreeQ[{a,c,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+c*x^2+d*x^3]},
-  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[(e+f*x)^m*(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  (a+c*x^2+d*x^3)^p/((c-3*d*x)^p*(2*c+3*d*x)^(2*p))*Int[(e+f*x)^m*(c-3*d*x)^p*(2*c+3*d*x)^(2*p),x] /;
-FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+c*x^2+d*x^3],x]},
-  (a+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3-27*a*d^2+3*Sqrt[3]*d*Sqrt[4*a*c^3+27*a^2*d^2],3]},
-  (a+c*x^2+d*x^3)^p/((c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
-    Int[(e+f*x)^m*(c-(2*c^2+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2+2^(1/3)*(1-I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2+2^(1/3)*(1+I*Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[4*c^3+27*a*d^2]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^p*b^p*c^p)*Int[(b+c*x)^(3*p),x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^p*b^p*c^p)*Subst[Int[(3*a*b*c-b^3+c^3*x^3)^p,x],x,x+c/(3*d)] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[b^3-3*a*b*c,3]},
-  1/(3^p*b^p*c^p)*Int[(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[c^3-3*b*c*d,3]},
-  1/(3^p*b^p*c^p)*Int[(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandToSum[(a+b*x+c*x^2+d*x^3)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+b*x+c*x^2+d*x^3]},
-  FreeFactors[u,x]^p*Int[DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  (a+b*x+c*x^2+d*x^3)^p/(b+c*x)^(3*p)*Int[(b+c*x)^(3*p),x] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[b^3-3*a*b*c,3]},
-  (a+b*x+c*x^2+d*x^3)^p/((b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p)*
-    Int[(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[c^3-3*b*c*d,3]},
-  (a+b*x+c*x^2+d*x^3)^p/((b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p)*
-    Int[(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+b*x+c*x^2+d*x^3],x]},
-  (a+b*x+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-(* Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] *)
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
-  (a+b*x+c*x^2+d*x^3)^p/
-    ((c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
-    Int[(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,b,c,d,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[u_^p_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^p,x] /;
-FreeQ[p,x] && PolyQ[u,x,3] && Not[CubicMatchQ[u,x]]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b+c*x)^(3*p),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[b^3-3*a*b*c,3]},
-  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[c^3-3*b*c*d,3]},
-  1/(3^p*b^p*c^p)*Int[(e+f*x)^m*(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[p] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  Int[ExpandIntegrand[(e+f*x)^m*(a+b*x+c*x^2+d*x^3)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=Factor[a+b*x+c*x^2+d*x^3]},
-  FreeFactors[u,x]^p*Int[(e+f*x)^m*DistributeDegree[NonfreeFactors[u,x],p],x] /;
- ProductQ[NonfreeFactors[u,x]]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-(* Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
-  1/(3^(3*p)*d^(2*p))*
-    Int[(e+f*x)^m*(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NegativeIntegerQ[p] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c] *)
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  (a+b*x+c*x^2+d*x^3)^p/(b+c*x)^(3*p)*Int[(e+f*x)^m*(b+c*x)^(3*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[b^3-3*a*b*c,3]},
-  (a+b*x+c*x^2+d*x^3)^p/((b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p)*
-    Int[(e+f*x)^m*(b-r+c*x)^p*(b+(1-I*Sqrt[3])*r/2+c*x)^p*(b+(1+I*Sqrt[3])*r/2+c*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && EqQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[c^3-3*b*c*d,3]},
-  (a+b*x+c*x^2+d*x^3)^p/((b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p)*
-    Int[(e+f*x)^m*(b+(c-r)*x)^p*(b+(c+(1-I*Sqrt[3])*r/2)*x)^p*(b+(c+(1+I*Sqrt[3])*r/2)*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && EqQ[b^2-3*a*c]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{u=NonfreeFactors[Factor[a+b*x+c*x^2+d*x^3],x]},
-  (a+b*x+c*x^2+d*x^3)^p/DistributeDegree[u,p]*Int[(e+f*x)^m*DistributeDegree[u,p],x] /;
- ProductQ[u]] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-(* Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  1/(3^(3*p)*d^(2*p))*Subst[Int[(2*c^3-9*b*c*d+27*a*d^2-9*d*(c^2-3*b*d)*x+27*d^3*x^3)^p,x],x,x+c/(3*d)] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] *)
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3)^p_,x_Symbol] :=
-  With[{r=Rt[-2*c^3+9*b*c*d-27*a*d^2+3*Sqrt[3]*d*Sqrt[-b^2*c^2+4*a*c^3+4*b^3*d-18*a*b*c*d+27*a^2*d^2],3]},
-  (a+b*x+c*x^2+d*x^3)^p/
-    ((c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p)*
-    Int[(e+f*x)^m*(c-(2*c^2-6*b*d+2^(1/3)*r^2)/(2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1+I*Sqrt[3])*c^2-6*(1+I*Sqrt[3])*b*d-I*2^(1/3)*(I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p*
-      (c+(2*(1-I*Sqrt[3])*c^2-6*(1-I*Sqrt[3])*b*d+I*2^(1/3)*(-I+Sqrt[3])*r^2)/(2*2^(2/3)*r)+3*d*x)^p,x]] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && Not[IntegerQ[p]] && NeQ[c^2-3*b*d] && NeQ[b^2-3*a*c]
-
-
-Int[u_^m_.*v_^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*ExpandToSum[v,x]^p,x] /;
-FreeQ[{m,p},x] && LinearQ[u,x] && PolyQ[v,x,3] && Not[LinearMatchQ[u,x] && CubicMatchQ[v,x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.3.2 u (a+b x+c x^2+d x^3+e x^4)^p*)
-
-
-Int[(f_+g_.*x_^2)/((d_+e_.*x_+d_.*x_^2)*Sqrt[a_+b_.*x_+c_.*x_^2+b_.*x_^3+a_.*x_^4]),x_Symbol] :=
-  a*f/(d*Rt[a^2*(2*a-c),2])*ArcTan[(a*b+(4*a^2+b^2-2*a*c)*x+a*b*x^2)/(2*Rt[a^2*(2*a-c),2]*Sqrt[a+b*x+c*x^2+b*x^3+a*x^4])] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*d-a*e] && EqQ[f+g] && PosQ[a^2*(2*a-c)]
-
-
-Int[(f_+g_.*x_^2)/((d_+e_.*x_+d_.*x_^2)*Sqrt[a_+b_.*x_+c_.*x_^2+b_.*x_^3+a_.*x_^4]),x_Symbol] :=
-  -a*f/(d*Rt[-a^2*(2*a-c),2])*ArcTanh[(a*b+(4*a^2+b^2-2*a*c)*x+a*b*x^2)/(2*Rt[-a^2*(2*a-c),2]*Sqrt[a+b*x+c*x^2+b*x^3+a*x^4])] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*d-a*e] && EqQ[f+g] && NegQ[a^2*(2*a-c)]
-
-
-Int[(a_.+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
-  Subst[Int[SimplifyIntegrand[(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[d^3-4*c*d*e+8*b*e^2] && p=!=2 && p=!=3
-
-
-Int[v_^p_,x_Symbol] :=
-  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
-  Subst[Int[SimplifyIntegrand[(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
- EqQ[d^3-4*c*d*e+8*b*e^2] && NeQ[d]] /;
-FreeQ[p,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && p=!=2 && p=!=3
-
-
-Int[u_*(a_.+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
-  Subst[Int[SimplifyIntegrand[ReplaceAll[u,x->-d/(4*e)+x]*(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
-FreeQ[{a,b,c,d,e,p},x] && PolynomialQ[u,x] && EqQ[d^3-4*c*d*e+8*b*e^2] && Not[PositiveIntegerQ[p]]
-
-
-Int[u_*v_^p_,x_Symbol] :=
-  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
-  Subst[Int[SimplifyIntegrand[ReplaceAll[u,x->-d/(4*e)+x]*(a+d^4/(256*e^3)-b*d/(8*e)+(c-3*d^2/(8*e))*x^2+e*x^4)^p,x],x],x,d/(4*e)+x] /;
- EqQ[d^3-4*c*d*e+8*b*e^2] && NeQ[d]] /;
-FreeQ[p,x] && PolynomialQ[u,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && Not[PositiveIntegerQ[p]]
-
-
-Int[(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4)^p_,x_Symbol] :=
-  -16*a^2*Subst[
-    Int[1/(b-4*a*x)^2*(a*(-3*b^4+16*a*b^2*c-64*a^2*b*d+256*a^3*e-32*a^2*(3*b^2-8*a*c)*x^2+256*a^4*x^4)/(b-4*a*x)^4)^p,x],x,b/(4*a)+1/x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[b^3-4*a*b*c+8*a^2*d] && IntegerQ[2*p]
-
-
-Int[v_^p_,x_Symbol] :=
-  With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[v,x,2],d=Coefficient[v,x,3],e=Coefficient[v,x,4]},
-  -16*a^2*Subst[
-    Int[1/(b-4*a*x)^2*(a*(-3*b^4+16*a*b^2*c-64*a^2*b*d+256*a^3*e-32*a^2*(3*b^2-8*a*c)*x^2+256*a^4*x^4)/(b-4*a*x)^4)^p,x],x,b/(4*a)+1/x] /;
- NeQ[a] && NeQ[b] && EqQ[b^3-4*a*b*c+8*a^2*d]] /;
-FreeQ[p,x] && PolynomialQ[v,x] && Exponent[v,x]==4 && IntegerQ[2*p]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
-  1/q*Int[(b*A-2*a*B+2*a*D+A*q+(2*a*A-2*a*C+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
-  1/q*Int[(b*A-2*a*B+2*a*D-A*q+(2*a*A-2*a*C+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
-FreeQ[{a,b,c,A,B,C,D},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
-
-
-Int[(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
-  1/q*Int[(b*A-2*a*B+2*a*D+A*q+(2*a*A+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
-  1/q*Int[(b*A-2*a*B+2*a*D-A*q+(2*a*A+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
-FreeQ[{a,b,c,A,B,D},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
-
-
-Int[x_^m_.*(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
-  1/q*Int[x^m*(b*A-2*a*B+2*a*D+A*q+(2*a*A-2*a*C+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
-  1/q*Int[x^m*(b*A-2*a*B+2*a*D-A*q+(2*a*A-2*a*C+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
-FreeQ[{a,b,c,A,B,C,D,m},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
-
-
-Int[x_^m_.*(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Sqrt[8*a^2+b^2-4*a*c]},
-  1/q*Int[x^m*(b*A-2*a*B+2*a*D+A*q+(2*a*A+b*D+D*q)*x)/(2*a+(b+q)*x+2*a*x^2),x] -
-  1/q*Int[x^m*(b*A-2*a*B+2*a*D-A*q+(2*a*A+b*D-D*q)*x)/(2*a+(b-q)*x+2*a*x^2),x]] /;
-FreeQ[{a,b,c,A,B,D,m},x] && EqQ[d-b] && EqQ[e-a] && SumQ[Factor[a+b*x+c*x^2+b*x^3+a*x^4]]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Rt[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e)),2]},
-  -2*C^2/q*ArcTanh[(C*d-B*e+2*C*e*x)/q] + 
-  2*C^2/q*ArcTanh[C*(4*B*c*C-3*B^2*d-4*A*C*d+12*A*B*e+4*C*(2*c*C-B*d+2*A*e)*x+4*C*(2*C*d-B*e)*x^2+8*C^2*e*x^3)/(q*(B^2-4*A*C))]] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B^2*d+2*C*(b*C+A*d)-2*B*(c*C+2*A*e)] && 
-  EqQ[2*B^2*c*C-8*a*C^3-B^3*d-4*A*B*C*d+4*A*(B^2+2*A*C)*e] && PosQ[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e))]
-
-
-Int[(A_.+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Rt[C*(-8*A*e^2+C*(d^2-4*c*e)),2]},
-  -2*C^2/q*ArcTanh[C*(d+2*e*x)/q] + 2*C^2/q*ArcTanh[C*(A*d-2*(c*C+A*e)*x-2*C*d*x^2-2*C*e*x^3)/(A*q)]] /;
-FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b*C+A*d] && EqQ[a*C^2-A^2*e] && PosQ[C*(-8*A*e^2+C*(d^2-4*c*e))]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e)),2]},
-  2*C^2/q*ArcTan[(C*d-B*e+2*C*e*x)/q] - 
-  2*C^2/q*ArcTan[C*(4*B*c*C-3*B^2*d-4*A*C*d+12*A*B*e+4*C*(2*c*C-B*d+2*A*e)*x+4*C*(2*C*d-B*e)*x^2+8*C^2*e*x^3)/(q*(B^2-4*A*C))]] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B^2*d+2*C*(b*C+A*d)-2*B*(c*C+2*A*e)] && 
-  EqQ[2*B^2*c*C-8*a*C^3-B^3*d-4*A*B*C*d+4*A*(B^2+2*A*C)*e] && NegQ[C*(2*e*(B*d-4*A*e)+C*(d^2-4*c*e))]
-
-
-Int[(A_.+C_.*x_^2)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  With[{q=Rt[-C*(-8*A*e^2+C*(d^2-4*c*e)),2]},
-  2*C^2/q*ArcTan[(C*d+2*C*e*x)/q] - 2*C^2/q*ArcTan[-C*(-A*d+2*(c*C+A*e)*x+2*C*d*x^2+2*C*e*x^3)/(A*q)]] /;
-FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b*C+A*d] && EqQ[a*C^2-A^2*e] && NegQ[C*(-8*A*e^2+C*(d^2-4*c*e))]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  D/(4*e)*Log[a+b*x+c*x^2+d*x^3+e*x^4] - 
-  1/(4*e)*Int[(b*D-4*A*e+2*(c*D-2*B*e)*x+(3*d*D-4*C*e)*x^2)/(a+b*x+c*x^2+d*x^3+e*x^4),x] /;
-FreeQ[{a,b,c,d,e,A,B,C,D},x] && 
-  EqQ[4*d*(c*D-2*B*e)^2+8*(3*d*D-4*C*e)*(b*d*D-b*C*e-A*d*e)-4*(c*D-2*B*e)*(3*c*d*D-4*c*C*e+2*b*D*e-8*A*e^2)] && 
-  EqQ[8*d*(c*D-2*B*e)^3+8*d*(b*D-4*A*e)*(c*D-2*B*e)*(3*d*D-4*C*e)+8*a*(3*d*D-4*C*e)^3-8*c*(c*D-2*B*e)^2*(3*d*D-4*C*e)-
-    4*e*(b*D-4*A*e)*(4*(c*D-2*B*e)^2+2*(b*D-4*A*e)*(3*d*D-4*C*e))]
-
-
-Int[(A_.+B_.*x_+D_.*x_^3)/(a_+b_.*x_+c_.*x_^2+d_.*x_^3+e_.*x_^4),x_Symbol] :=
-  D/(4*e)*Log[a+b*x+c*x^2+d*x^3+e*x^4] - 
-  1/(4*e)*Int[(b*D-4*A*e+2*(c*D-2*B*e)*x+(3*d*D)*x^2)/(a+b*x+c*x^2+d*x^3+e*x^4),x] /;
-FreeQ[{a,b,c,d,e,A,B,D},x] && 
-  EqQ[c^2*d*D^2+2*(3*d*D-4*C*e)*(b*d*D-b*C*e-A*d*e)-c*D*(3*c*d*D-4*c*C*e+2*b*D*e-8*A*e^2)] && 
-  EqQ[54*a*d^3*D^3+6*d^2*D*(b*D-4*A*e)*(c*D-2*B*e)-6*c*d*D*(c*D-2*B*e)^2+2*d*(c*D-2*B*e)^3-
-    e*(b*D-4*A*e)*(6*d*D*(b*D-4*A*e)+4*(c*D-2*B*e)^2)]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*1.3.3 Miscellaneous algebraic functions*)
-
-
-Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  c/(e*(b*c-a*d))*Int[(u*Sqrt[a+b*x])/x,x] - a/(f*(b*c-a*d))*Int[(u*Sqrt[c+d*x])/x,x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a*e^2-c*f^2]
-
-
-Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  -d/(e*(b*c-a*d))*Int[u*Sqrt[a+b*x],x] + b/(f*(b*c-a*d))*Int[u*Sqrt[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[b*e^2-d*f^2]
-
-
-Int[u_/(e_.*Sqrt[a_.+b_.*x_]+f_.*Sqrt[c_.+d_.*x_]),x_Symbol] :=
-  e*Int[(u*Sqrt[a+b*x])/(a*e^2-c*f^2+(b*e^2-d*f^2)*x),x] - 
-  f*Int[(u*Sqrt[c+d*x])/(a*e^2-c*f^2+(b*e^2-d*f^2)*x),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a*e^2-c*f^2] && NeQ[b*e^2-d*f^2]
-
-
-Int[u_./(d_.*x_^n_.+c_.*Sqrt[a_.+b_.*x_^p_.]),x_Symbol] :=
-  -b/(a*d)*Int[u*x^n,x] + 1/(a*c)*Int[u*Sqrt[a+b*x^(2*n)],x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[p-2*n] && EqQ[b*c^2-d^2]
-
-
-Int[x_^m_./(d_.*x_^n_.+c_.*Sqrt[a_.+b_.*x_^p_.]),x_Symbol] :=
-  -d*Int[x^(m+n)/(a*c^2+(b*c^2-d^2)*x^(2*n)),x] + 
-  c*Int[(x^m*Sqrt[a+b*x^(2*n)])/(a*c^2+(b*c^2-d^2)*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[p-2*n] && NeQ[b*c^2-d^2]
-
-
-Int[1/((a_+b_.*x_^3)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
-  r/(3*a)*Int[1/((r+s*x)*Sqrt[d+e*x+f*x^2]),x] +
-  r/(3*a)*Int[(2*r-s*x)/((r^2-r*s*x+s^2*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,d,e,f},x] && PosQ[a/b]
-
-
-Int[1/((a_+b_.*x_^3)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  With[{r=Numerator[Rt[a/b,3]], s=Denominator[Rt[a/b,3]]},
-  r/(3*a)*Int[1/((r+s*x)*Sqrt[d+f*x^2]),x] +
-  r/(3*a)*Int[(2*r-s*x)/((r^2-r*s*x+s^2*x^2)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,d,f},x] && PosQ[a/b]
-
-
-Int[1/((a_+b_.*x_^3)*Sqrt[d_.+e_.*x_+f_.*x_^2]),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
-  r/(3*a)*Int[1/((r-s*x)*Sqrt[d+e*x+f*x^2]),x] +
-  r/(3*a)*Int[(2*r+s*x)/((r^2+r*s*x+s^2*x^2)*Sqrt[d+e*x+f*x^2]),x]] /;
-FreeQ[{a,b,d,e,f},x] && NegQ[a/b]
-
-
-Int[1/((a_+b_.*x_^3)*Sqrt[d_.+f_.*x_^2]),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,3]], s=Denominator[Rt[-a/b,3]]},
-  r/(3*a)*Int[1/((r-s*x)*Sqrt[d+f*x^2]),x] +
-  r/(3*a)*Int[(2*r+s*x)/((r^2+r*s*x+s^2*x^2)*Sqrt[d+f*x^2]),x]] /;
-FreeQ[{a,b,d,f},x] && NegQ[a/b]
-
-
-Int[1/((d_+e_.*x_)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  d*Int[1/((d^2-e^2*x^2)*Sqrt[a+b*x^2+c*x^4]),x] - e*Int[x/((d^2-e^2*x^2)*Sqrt[a+b*x^2+c*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[1/((d_+e_.*x_)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  d*Int[1/((d^2-e^2*x^2)*Sqrt[a+c*x^4]),x] - e*Int[x/((d^2-e^2*x^2)*Sqrt[a+c*x^4]),x] /;
-FreeQ[{a,c,d,e},x]
-
-
-Int[1/((d_+e_.*x_)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  -e^3*Sqrt[a+b*x^2+c*x^4]/((c*d^4+b*d^2*e^2+a*e^4)*(d+e*x)) - 
-  c/(c*d^4+b*d^2*e^2+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+b*x^2+c*x^4],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[c*d^4+b*d^2*e^2+a*e^4] && EqQ[2*c*d^3+b*d*e^2]
-
-
-Int[1/((d_+e_.*x_)^2*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  -e^3*Sqrt[a+b*x^2+c*x^4]/((c*d^4+b*d^2*e^2+a*e^4)*(d+e*x)) - 
-  c/(c*d^4+b*d^2*e^2+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+b*x^2+c*x^4],x] + 
-  (2*c*d^3+b*d*e^2)/(c*d^4+b*d^2*e^2+a*e^4)*Int[1/((d+e*x)*Sqrt[a+b*x^2+c*x^4]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[c*d^4+b*d^2*e^2+a*e^4] && NeQ[2*c*d^3+b*d*e^2]
-
-
-Int[1/((d_+e_.*x_)^2*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  -e^3*Sqrt[a+c*x^4]/((c*d^4+a*e^4)*(d+e*x)) - 
-  c/(c*d^4+a*e^4)*Int[(d^2-e^2*x^2)/Sqrt[a+c*x^4],x] + 
-  2*c*d^3/(c*d^4+a*e^4)*Int[1/((d+e*x)*Sqrt[a+c*x^4]),x] /;
-FreeQ[{a,c,d,e},x] && NeQ[c*d^4+a*e^4]
-
-
-Int[(A_+B_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  A*Subst[Int[1/(d-(b*d-2*a*e)*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[B*d+A*e] && EqQ[c*d^2-a*e^2]
-
-
-Int[(A_+B_.*x_^2)/((d_+e_.*x_^2)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  A*Subst[Int[1/(d+2*a*e*x^2),x],x,x/Sqrt[a+c*x^4]] /;
-FreeQ[{a,c,d,e,A,B},x] && EqQ[B*d+A*e] && EqQ[c*d^2-a*e^2]
-
-
-Int[(A_+B_.*x_^4)/((d_+e_.*x_^2+f_.*x_^4)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  A*Subst[Int[1/(d-(b*d-a*e)*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
-
-
-Int[(A_+B_.*x_^4)/((d_+e_.*x_^2+f_.*x_^4)*Sqrt[a_+c_.*x_^4]),x_Symbol] :=
-  A*Subst[Int[1/(d+a*e*x^2),x],x,x/Sqrt[a+c*x^4]] /;
-FreeQ[{a,c,d,e,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
-
-
-Int[(A_+B_.*x_^4)/((d_+f_.*x_^4)*Sqrt[a_+b_.*x_^2+c_.*x_^4]),x_Symbol] :=
-  A*Subst[Int[1/(d-b*d*x^2),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
-FreeQ[{a,b,c,d,f,A,B},x] && EqQ[c*d-a*f] && EqQ[a*B+A*c]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^4),x_Symbol] :=
-  a/d*Subst[Int[1/(1-2*b*x^2+(b^2-4*a*c)*x^4),x],x,x/Sqrt[a+b*x^2+c*x^4]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d+a*e] && PosQ[a*c]
-
-
-Int[Sqrt[a_+b_.*x_^2+c_.*x_^4]/(d_+e_.*x_^4),x_Symbol] :=
-  With[{q=Sqrt[b^2-4*a*c]},
-  -a*Sqrt[b+q]/(2*Sqrt[2]*Rt[-a*c,2]*d)*ArcTan[Sqrt[b+q]*x*(b-q+2*c*x^2)/(2*Sqrt[2]*Rt[-a*c,2]*Sqrt[a+b*x^2+c*x^4])] + 
-  a*Sqrt[-b+q]/(2*Sqrt[2]*Rt[-a*c,2]*d)*ArcTanh[Sqrt[-b+q]*x*(b+q+2*c*x^2)/(2*Sqrt[2]*Rt[-a*c,2]*Sqrt[a+b*x^2+c*x^4])]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c*d+a*e] && NegQ[a*c]
-
-
-Int[1/((a_+b_.*x_)*Sqrt[c_+d_.*x_^2]*Sqrt[e_+f_.*x_^2]),x_Symbol] :=
-  a*Int[1/((a^2-b^2*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] - b*Int[x/((a^2-b^2*x^2)*Sqrt[c+d*x^2]*Sqrt[e+f*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x]
-
-
-Int[(g_.+h_.*x_)*Sqrt[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
-  2*(f*(5*b*c*g^2-2*b^2*g*h-3*a*c*g*h+2*a*b*h^2)+c*f*(10*c*g^2-b*g*h+a*h^2)*x+9*c^2*f*g*h*x^2+3*c^2*f*h^2*x^3-
-    (e*g-d*h)*(5*c*g-2*b*h+c*h*x)*Sqrt[a+b*x+c*x^2])/
-  (15*c^2*f*(g+h*x))*Sqrt[d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[(e*g-d*h)^2-f^2*(c*g^2-b*g*h+a*h^2)] && EqQ[2*e^2*g-2*d*e*h-f^2*(2*c*g-b*h)]
-
-
-Int[(g_.+h_.*x_)^m_.*(u_+f_.*(j_.+k_.*Sqrt[v_]))^n_.,x_Symbol] :=
-  Int[(g+h*x)^m*(ExpandToSum[u+f*j,x]+f*k*Sqrt[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{f,g,h,j,k,m,n},x] && LinearQ[u,x] && QuadraticQ[v,x] && 
-  Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x] && (EqQ[j] || EqQ[f-1])] && 
-  EqQ[(Coefficient[u,x,1]*g-h*(Coefficient[u,x,0]+f*j))^2-f^2*k^2*(Coefficient[v,x,2]*g^2-Coefficient[v,x,1]*g*h+Coefficient[v,x,0]*h^2)]
-
-
-(* Int[1/(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]),x_Symbol] :=
-  Int[(d+e*x)/(d^2-a*f^2+(2*d*e-b*f^2)*x),x] - 
-  f*Int[Sqrt[a+b*x+c*x^2]/(d^2-a*f^2+(2*d*e-b*f^2)*x),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e^2-c*f^2] *)
-
-
-(* Int[1/(d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]),x_Symbol] :=
-  Int[(d+e*x)/(d^2-a*f^2+2*d*e*x),x] - 
-  f*Int[Sqrt[a+c*x^2]/(d^2-a*f^2+2*d*e*x),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[e^2-c*f^2] *)
-
-
-Int[(g_.+h_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_)^p_.,x_Symbol] :=
-  2*Subst[Int[(g+h*x^n)^p*(d^2*e-(b*d-a*e)*f^2-(2*d*e-b*f^2)*x+e*x^2)/(-2*d*e+b*f^2+2*e*x)^2,x],x,d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[p]
-
-
-Int[(g_.+h_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_)^p_.,x_Symbol] :=
-  1/(2*e)*Subst[Int[(g+h*x^n)^p*(d^2+a*f^2-2*d*x+x^2)/(d-x)^2,x],x,d+e*x+f*Sqrt[a+c*x^2]] /;
-FreeQ[{a,c,d,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[p]
-
-
-Int[(g_.+h_.*(u_+f_. Sqrt[v_])^n_)^p_.,x_Symbol] :=
-  Int[(g+h*(ExpandToSum[u,x]+f*Sqrt[ExpandToSum[v,x]])^n)^p,x] /;
-FreeQ[{f,g,h,n},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]] && 
-  EqQ[Coefficient[u,x,1]^2-Coefficient[v,x,2]*f^2] && IntegerQ[p]
-
-
-Int[(g_.+h_.*x_)^m_.*(e_.*x_+f_.*Sqrt[a_.+c_.*x_^2])^n_.,x_Symbol] :=
-  1/(2^(m+1)*e^(m+1))*Subst[Int[x^(n-m-2)*(a*f^2+x^2)*(-a*f^2*h+2*e*g*x+h*x^2)^m,x],x,e*x+f*Sqrt[a+c*x^2]] /;
-FreeQ[{a,c,e,f,g,h,n},x] && EqQ[e^2-c*f^2] && IntegerQ[m]
-
-
-Int[x_^p_.*(g_+i_.*x_^2)^m_.*(e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
-  1/(2^(2*m+p+1)*e^(p+1)*f^(2*m))*(i/c)^m*Subst[Int[x^(n-2*m-p-2)*(-a*f^2+x^2)^p*(a*f^2+x^2)^(2*m+1),x],x,e*x+f*Sqrt[a+c*x^2]] /;
-FreeQ[{a,c,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && IntegersQ[p,2*m] && (IntegerQ[m] || PositiveQ[i/c])
-
-
-Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
-  2/f^(2*m)*(i/c)^m*
-    Subst[Int[x^n*(d^2*e-(b*d-a*e)*f^2-(2*d*e-b*f^2)*x+e*x^2)^(2*m+1)/(-2*d*e+b*f^2+2*e*x)^(2*(m+1)),x],x,d+e*x+f*Sqrt[a+b*x+c*x^2]] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && IntegerQ[2*m] && (IntegerQ[m] || PositiveQ[i/c])
-
-
-Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
-  1/(2^(2*m+1)*e*f^(2*m))*(i/c)^m*
-    Subst[Int[x^n*(d^2+a*f^2-2*d*x+x^2)^(2*m+1)/(-d+x)^(2*(m+1)),x],x,d+e*x+f*Sqrt[a+c*x^2]] /;
-FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && IntegerQ[2*m] && (IntegerQ[m] || PositiveQ[i/c])
-
-
-Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
-  (i/c)^(m-1/2)*Sqrt[g+h*x+i*x^2]/Sqrt[a+b*x+c*x^2]*Int[(a+b*x+c*x^2)^m*(d+e*x+f*Sqrt[a+b*x+c*x^2])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && PositiveIntegerQ[m+1/2] && Not[PositiveQ[i/c]]
-
-
-Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
-  (i/c)^(m-1/2)*Sqrt[g+i*x^2]/Sqrt[a+c*x^2]*Int[(a+c*x^2)^m*(d+e*x+f*Sqrt[a+c*x^2])^n,x] /;
-FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && PositiveIntegerQ[m+1/2] && Not[PositiveQ[i/c]]
-
-
-Int[(g_.+h_.*x_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2])^n_.,x_Symbol] :=
-  (i/c)^(m+1/2)*Sqrt[a+b*x+c*x^2]/Sqrt[g+h*x+i*x^2]*Int[(a+b*x+c*x^2)^m*(d+e*x+f*Sqrt[a+b*x+c*x^2])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && EqQ[c*h-b*i] && NegativeIntegerQ[m-1/2] && Not[PositiveQ[i/c]]
-
-
-Int[(g_+i_.*x_^2)^m_.*(d_.+e_.*x_+f_.*Sqrt[a_+c_.*x_^2])^n_.,x_Symbol] :=
-  (i/c)^(m+1/2)*Sqrt[a+c*x^2]/Sqrt[g+i*x^2]*Int[(a+c*x^2)^m*(d+e*x+f*Sqrt[a+c*x^2])^n,x] /;
-FreeQ[{a,c,d,e,f,g,i,n},x] && EqQ[e^2-c*f^2] && EqQ[c*g-a*i] && NegativeIntegerQ[m-1/2] && Not[PositiveQ[i/c]]
-
-
-Int[w_^m_.*(u_+f_.*(j_.+k_.*Sqrt[v_]))^n_.,x_Symbol] :=
-  Int[ExpandToSum[w,x]^m*(ExpandToSum[u+f*j,x]+f*k*Sqrt[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{f,j,k,m,n},x] && LinearQ[u,x] && QuadraticQ[{v,w},x] && 
-  Not[LinearMatchQ[u,x] && QuadraticMatchQ[{v,w},x] && (EqQ[j] || EqQ[f-1])] && 
-  EqQ[Coefficient[u,x,1]^2-Coefficient[v,x,2]*f^2*k^2]
-
-
-Int[1/((a_+b_.*x_^n_.)*Sqrt[c_.*x_^2+d_.*(a_+b_.*x_^n_.)^p_.]),x_Symbol] :=
-  1/a*Subst[Int[1/(1-c*x^2),x],x,x/Sqrt[c*x^2+d*(a+b*x^n)^(2/n)]] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[p-2/n]
-
-
-Int[Sqrt[a_+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
-  2*b^2*d*x^3/(3*(a+b*Sqrt[c+d*x^2])^(3/2)) + 2*a*x/Sqrt[a+b*Sqrt[c+d*x^2]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2*c]
-
-
-Int[Sqrt[a_.*x_^2+b_.*x_*Sqrt[c_+d_.*x_^2]]/(x_*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  Sqrt[2]*b/a*Subst[Int[1/Sqrt[1+x^2/a],x],x,a*x+b*Sqrt[c+d*x^2]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2*d] && EqQ[b^2*c+a]
-
-
-Int[Sqrt[e_.*x_*(a_.*x_+b_.*Sqrt[c_+d_.*x_^2])]/(x_*Sqrt[c_+d_.*x_^2]),x_Symbol] :=
-  Int[Sqrt[a*e*x^2+b*e*x*Sqrt[c+d*x^2]]/(x*Sqrt[c+d*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2*d] && EqQ[b^2*c*e+a]
-
-
-Int[Sqrt[c_.*x_^2+d_.*Sqrt[a_+b_.*x_^4]]/Sqrt[a_+b_.*x_^4],x_Symbol] :=
-  d*Subst[Int[1/(1-2*c*x^2),x],x,x/Sqrt[c*x^2+d*Sqrt[a+b*x^4]]] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-b*d^2]
-
-
-Int[(c_.+d_.*x_)^m_.*Sqrt[b_.*x_^2+Sqrt[a_+e_.*x_^4]]/Sqrt[a_+e_.*x_^4],x_Symbol] :=
-  (1-I)/2*Int[(c+d*x)^m/Sqrt[Sqrt[a]-I*b*x^2],x] +
-  (1+I)/2*Int[(c+d*x)^m/Sqrt[Sqrt[a]+I*b*x^2],x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[e-b^2] && PositiveQ[a]
-
-
-Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -q/((1+Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  d/((1+Sqrt[3])*d-c*q)*Int[(1+Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
-FreeQ[{a,b,c,d},x] && PosQ[a] && PosQ[b]
-
-
-Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  q/((1+Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  d/((1+Sqrt[3])*d+c*q)*Int[(1+Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
-FreeQ[{a,b,c,d},x] && PosQ[a] && NegQ[b]
-
-
-Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  q/((1-Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  d/((1-Sqrt[3])*d+c*q)*Int[(1-Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
-FreeQ[{a,b,c,d},x] && NegQ[a] && PosQ[b]
-
-
-Int[1/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -q/((1-Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  d/((1-Sqrt[3])*d-c*q)*Int[(1-Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x]] /;
-FreeQ[{a,b,c,d},x] && NegQ[a] && NegQ[b]
-
-
-Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  4*3^(1/4)*Sqrt[2-Sqrt[3]]*f*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1+Sqrt[3]+q*x)^2]/
-    (q*Sqrt[a+b*x^3]*Sqrt[(1+q*x)/(1+Sqrt[3]+q*x)^2])*
-    Subst[Int[1/(((1-Sqrt[3])*d-c*q+((1+Sqrt[3])*d-c*q)*x)*Sqrt[1-x^2]*Sqrt[7-4*Sqrt[3]+x^2]),x],x,(-1+Sqrt[3]-q*x)/(1+Sqrt[3]+q*x)] /;
- EqQ[(1+Sqrt[3])*f-e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && PosQ[b]
-
-
-Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  ((1+Sqrt[3])*f-e*q)/((1+Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  (d*e-c*f)/((1+Sqrt[3])*d-c*q)*Int[(1+Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
- NeQ[(1+Sqrt[3])*f-e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && PosQ[b]
-
-
-Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  -4*3^(1/4)*Sqrt[2-Sqrt[3]]*f*(1-q*x)*Sqrt[(1+q*x+q^2*x^2)/(1+Sqrt[3]-q*x)^2]/
-    (q*Sqrt[a+b*x^3]*Sqrt[(1-q*x)/(1+Sqrt[3]-q*x)^2])*
-    Subst[Int[1/(((1-Sqrt[3])*d+c*q+((1+Sqrt[3])*d+c*q)*x)*Sqrt[1-x^2]*Sqrt[7-4*Sqrt[3]+x^2]),x],x,(-1+Sqrt[3]+q*x)/(1+Sqrt[3]-q*x)] /;
- EqQ[(1+Sqrt[3])*f+e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && NegQ[b]
-
-
-Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  ((1+Sqrt[3])*f+e*q)/((1+Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  (d*e-c*f)/((1+Sqrt[3])*d+c*q)*Int[(1+Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
- NeQ[(1+Sqrt[3])*f+e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && PosQ[a] && NegQ[b]
-
-
-Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  4*3^(1/4)*Sqrt[2+Sqrt[3]]*f*(1-q*x)*Sqrt[(1+q*x+q^2*x^2)/(1-Sqrt[3]-q*x)^2]/
-    (q*Sqrt[a+b*x^3]*Sqrt[-(1-q*x)/(1-Sqrt[3]-q*x)^2])*
-  Subst[Int[1/(((1+Sqrt[3])*d+c*q+((1-Sqrt[3])*d+c*q)*x)*Sqrt[1-x^2]*Sqrt[7+4*Sqrt[3]+x^2]),x],x,(1+Sqrt[3]-q*x)/(-1+Sqrt[3]+q*x)] /;
- EqQ[(1-Sqrt[3])*f+e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && PosQ[b]
-
-
-Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[-b/a,3]},
-  ((1-Sqrt[3])*f+e*q)/((1-Sqrt[3])*d+c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  (d*e-c*f)/((1-Sqrt[3])*d+c*q)*Int[(1-Sqrt[3]-q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
- NeQ[(1-Sqrt[3])*f+e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && PosQ[b]
-
-
-Int[(e_+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  -4*3^(1/4)*Sqrt[2+Sqrt[3]]*f*(1+q*x)*Sqrt[(1-q*x+q^2*x^2)/(1-Sqrt[3]+q*x)^2]/
-   (q*Sqrt[a +b*x^3]*Sqrt[-(1+q*x)/(1-Sqrt[3]+q*x)^2])*
-   Subst[Int[1/(((1+Sqrt[3])*d-c*q+((1-Sqrt[3])*d-c*q)*x)*Sqrt[1-x^2]*Sqrt[7+4*Sqrt[3]+x^2]),x],x,(1+Sqrt[3]+q*x)/(-1+Sqrt[3]-q*x)] /;
- EqQ[(1-Sqrt[3])*f-e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && NegQ[b]
-
-
-Int[(e_.+f_.*x_)/((c_+d_.*x_)*Sqrt[a_+b_.*x_^3]),x_Symbol] :=
-  With[{q=Rt[b/a,3]},
-  ((1-Sqrt[3])*f-e*q)/((1-Sqrt[3])*d-c*q)*Int[1/Sqrt[a+b*x^3],x] + 
-  (d*e-c*f)/((1-Sqrt[3])*d-c*q)*Int[(1-Sqrt[3]+q*x)/((c+d*x)*Sqrt[a+b*x^3]),x] /;
- NeQ[(1-Sqrt[3])*f-e*q]] /;
-FreeQ[{a,b,c,d,e,f},x] && NegQ[a] && NegQ[b]
-
-
-Int[x_^m_./(c_+d_.*x_^n_+e_.*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
-  1/n*Subst[Int[x^((m+1)/n-1)/(c+d*x+e*Sqrt[a+b*x]),x],x,x^n] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[b*c-a*d,0] && IntegerQ[(m+1)/n]
-
-
-Int[u_./(c_+d_.*x_^n_+e_.*Sqrt[a_+b_.*x_^n_]),x_Symbol] :=
-  c*Int[u/(c^2-a*e^2+c*d*x^n),x] - a*e*Int[u/((c^2-a*e^2+c*d*x^n)*Sqrt[a+b*x^n]),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[b*c-a*d,0]
-
-
-Int[(A_+B_.*x_^n_)/(a_+b_.*x_^2+c_.*x_^n_+d_.*x_^n2_), x_Symbol] :=
-  A^2*(n-1)*Subst[Int[1/(a+A^2*b*(n-1)^2*x^2),x],x,x/(A*(n-1)-B*x^n)] /;
-FreeQ[{a,b,c,d,A,B,n},x] && EqQ[n2-2*n] && NeQ[n-2] && EqQ[a*B^2-A^2*d*(n-1)^2] && EqQ[B*c+2*A*d*(n-1)]
-
-
-Int[x_^m_.*(A_+B_.*x_^n_.)/(a_+b_.*x_^k_.+c_.*x_^n_.+d_.*x_^n2_), x_Symbol] :=
-  A^2*(m-n+1)/(m+1)*Subst[Int[1/(a+A^2*b*(m-n+1)^2*x^2),x],x,x^(m+1)/(A*(m-n+1)+B*(m+1)*x^n)] /;
-FreeQ[{a,b,c,d,A,B,m,n},x] && EqQ[n2-2*n] && EqQ[k-2*(m+1)] && EqQ[a*B^2*(m+1)^2-A^2*d*(m-n+1)^2] && EqQ[B*c*(m+1)-2*A*d*(m-n+1)]
-
-
-Int[(d_+e_.*x_^n_+f_.*x_^n2_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*c*d-2*a*c*(c*d-a*f)-a*b*(c*e+a*g)+(b*c*(c*d+a*f)-a*b^2*g-2*a*c*(c*e-a*g))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(b^2-4*a*c)) - 
-  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[a*b*(c*e+a*g)-b^2*c*d*(n+n*p+1)-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
-      (a*b^2*g*(n*(p+2)+1)-b*c*(c*d+a*f)*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+e_.*x_^n_+f_.*x_^n2_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*d-2*a*(c*d-a*f)-a*b*e+(b*(c*d+a*f)-2*a*c*e)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) - 
-  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[a*b*e-b^2*d*(n+n*p+1)-2*a*(a*f-c*d*(2*n*(p+1)+1))-
-      (b*(c*d+a*f)*(n*(2*p+3)+1)-2*a*c*e*(n*(2*p+3)+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+e_.*x_^n_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*c*d-2*a*c^2*d-a*b*(c*e+a*g)+(b*c^2*d-a*b^2*g-2*a*c*(c*e-a*g))*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(b^2-4*a*c)) - 
-  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[a*b*(c*e+a*g)-b^2*c*d*(n+n*p+1)+2*a*c^2*d*(2*n*(p+1)+1)+
-      (a*b^2*g*(n*(p+2)+1)-b*c^2*d*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
-FreeQ[{a,b,c,d,e,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+f_.*x_^n2_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*c*d-2*a*c*(c*d-a*f)-a^2*b*g+(b*c*(c*d+a*f)-a*b^2*g+2*a^2*c*g)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(b^2-4*a*c)) - 
-  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[a^2*b*g-b^2*c*d*(n+n*p+1)-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
-      (a*b^2*g*(n*(p+2)+1)-b*c*(c*d+a*f)*(n*(2*p+3)+1)-2*a^2*c*g*(n+1))*x^n,x],x] /;
-FreeQ[{a,b,c,d,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+f_.*x_^n2_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*d-2*a*(c*d-a*f)+b*(c*d+a*f)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/(a*n*(p+1)*(b^2-4*a*c)) + 
-  1/(a*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[b^2*d*(n+n*p+1)+2*a*(a*f-c*d*(2*n*(p+1)+1))+b*(c*d+a*f)*(n*(2*p+3)+1)*x^n,x],x] /;
-FreeQ[{a,b,c,d,f,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+g_*x_^n3_)*(a_+b_.*x_^n_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(b^2*c*d-2*a*c^2*d-a^2*b*g+(b*c^2*d-a*b^2*g+2*a^2*c*g)*x^n)*(a+b*x^n+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(b^2-4*a*c)) - 
-  1/(a*c*n*(p+1)*(b^2-4*a*c))*Int[(a+b*x^n+c*x^(2*n))^(p+1)*
-    Simp[a^2*b*g-b^2*c*d*(n+n*p+1)+2*a*c^2*d*(2*n*(p+1)+1)+
-      (a*b^2*g*(n*(p+2)+1)-b*c^2*d*(n*(2*p+3)+1)-2*a*c*(a*g*(n+1)))*x^n,x],x] /;
-FreeQ[{a,b,c,d,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NeQ[b^2-4*a*c] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+e_.*x_^n_+f_.*x_^n2_+g_*x_^n3_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(-2*a*c*(c*d-a*f)+(-2*a*c*(c*e-a*g))*x^n)*(a+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(-4*a*c)) - 
-  1/(a*c*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
-    Simp[-2*a*c*(a*f-c*d*(2*n*(p+1)+1))+
-      (-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
-FreeQ[{a,c,d,e,f,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+e_.*x_^n_+f_.*x_^n2_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(-2*a*(c*d-a*f)+(-2*a*c*e)*x^n)*(a+c*x^(2*n))^(p+1)/(a*n*(p+1)*(-4*a*c)) - 
-  1/(a*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
-    Simp[-2*a*(a*f-c*d*(2*n*(p+1)+1))-
-      (-2*a*c*e*(n*(2*p+3)+1))*x^n,x],x] /;
-FreeQ[{a,c,d,e,f,n},x] && EqQ[n2-2*n] && NegativeIntegerQ[p+1]
-
-
-Int[(d_+e_.*x_^n_+g_*x_^n3_)*(a_+c_.*x_^n2_)^p_,x_Symbol] :=
-  -x*(-2*a*c^2*d+(-2*a*c*(c*e-a*g))*x^n)*(a+c*x^(2*n))^(p+1)/
-    (a*c*n*(p+1)*(-4*a*c)) - 
-  1/(a*c*n*(p+1)*(-4*a*c))*Int[(a+c*x^(2*n))^(p+1)*
-    Simp[2*a*c^2*d*(2*n*(p+1)+1)+
-      (-2*a*c*(a*g*(n+1)-c*e*(n*(2*p+3)+1)))*x^n,x],x] /;
-FreeQ[{a,c,d,e,g,n},x] && EqQ[n2-2*n] && EqQ[n3-3*n] && NegativeIntegerQ[p+1]
-
-
-Int[(a_.+b_.*x_^2+c_.*x_^4)/(d_+e_.*x_^2+f_.*x_^4+g_.*x_^6),x_Symbol] :=
-  With[{q=Rt[(-a*c*f^2+12*a^2*g^2+f*(3*c^2*d-2*a*b*g))/(c*g*(3*c*d-a*f)),2],
-        r=Rt[(a*c*f^2+4*g*(b*c*d+a^2*g)-f*(3*c^2*d+2*a*b*g))/(c*g*(3*c*d-a*f)),2]},
-  c/(g*q)*ArcTan[(r+2*x)/q] - 
-  c/(g*q)*ArcTan[(r-2*x)/q] - 
-  c/(g*q)*ArcTan[(3*c*d-a*f)*x/(g*q*(b*c*d-2*a^2*g)*(b*c*d-a*b*f+4*a^2*g))*
-    (b*c^2*d*f-a*b^2*f*g-2*a^2*c*f*g+6*a^2*b*g^2+c*(3*c^2*d*f-a*c*f^2-b*c*d*g+2*a^2*g^2)*x^2+c^2*g*(3*c*d-a*f)*x^4)]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[9*c^3*d^2-c*(b^2+6*a*c)*d*f+a^2*c*f^2+2*a*b*(3*c*d+a*f)*g-12*a^3*g^2] && 
-  EqQ[3*c^4*d^2*e-3*a^2*c^2*d*f*g+a^3*c*f^2*g+2*a^3*g^2*(b*f-6*a*g)-c^3*d*(2*b*d*f+a*e*f-12*a*d*g)] && 
-  NeQ[3*c*d-a*f] && NeQ[b*c*d-2*a^2*g] && NeQ[b*c*d-a*b*f+4*a^2*g] && 
-  PosQ[(-a*c*f^2+12*a^2*g^2+f*(3*c^2*d-2*a*b*g))/(c*g*(3*c*d-a*f))]
-
-
-Int[(a_.+c_.*x_^4)/(d_+e_.*x_^2+f_.*x_^4+g_.*x_^6),x_Symbol] :=
-  With[{q=Rt[(-a*c*f^2+12*a^2*g^2+3*f*c^2*d)/(c*g*(3*c*d-a*f)),2],
-        r=Rt[(a*c*f^2+4*a^2*g^2-3*c^2*d*f)/(c*g*(3*c*d-a*f)),2]},
-  c/(g*q)*ArcTan[(r+2*x)/q] - 
-  c/(g*q)*ArcTan[(r-2*x)/q] - 
-  c/(g*q)*ArcTan[(c*(3*c*d-a*f)*x*(2*a^2*f*g-(3*c^2*d*f-a*c*f^2+2*a^2*g^2)*x^2-c*(3*c*d-a*f)*g*x^4))/(8*a^4*g^3*q)]] /;
-FreeQ[{a,c,d,e,f,g},x] && EqQ[9*c^3*d^2-6*a*c^2*d*f+a^2*c*f^2-12*a^3*g^2] && 
-  EqQ[3*c^4*d^2*e-3*a^2*c^2*d*f*g+a^3*c*f^2*g-12*a^4*g^3-a*c^3*d*(e*f-12*d*g)] && 
-  NeQ[3*c*d-a*f] && PosQ[(-a*c*f^2+12*a^2*g^2+3*c^2*d*f)/(c*g*(3*c*d-a*f))]
-
-
-If[ShowSteps,
-
-Int[u_*v_^p_,x_Symbol] :=
-  With[{m=Exponent[u,x],n=Exponent[v,x]},
-  Module[{c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p)),w},
-  w=Apart[u-c*x^(m-n)*((m-n+1)*v+(p+1)*x*D[v,x]),x];
-  If[EqQ[w],
-    ShowStep["
-If p>1, 1<n<=m+1, and m+1-n*p<0, let c=pm/(qn*(m+1-n*p)), then if (Pm[x]-c*x^(m-n)*((m-n+1)*Qn[x]+(1-p)*x*D[Qn[x],x]))==0,",
-	  "Int[Pm[x]/Qn[x]^p,x]", "c*x^(m-n+1)/Qn[x]^(p-1)",
-      Hold[c*x^(m-n+1)*v^(p+1)]],
-  ShowStep["If p>1, 1<n<=m+1, and m+1-n*p<0, let c=pm/(qn*(m+1-n*p)), then",
-	"Int[Pm[x]/Qn[x]^p,x]",
-	"c*x^(m-n+1)/Qn[x]^(p-1)+Int[(Pm[x]-c*x^(m-n)*((m-n+1)*Qn[x]+(1-p)*x*D[Qn[x],x]))/Qn[x]^p,x]",
-	Hold[c*x^(m-n+1)*v^(p+1) + Int[w*v^p,x]]]]] /;
- 1<n<=m+1 && m+n*p<-1 && FalseQ[DerivativeDivides[v,u,x]]] /;
-SimplifyFlag && RationalQ[p] && p<-1 && PolynomialQ[u,x] && PolynomialQ[v,x] && SumQ[v] && 
-Not[MonomialQ[u,x] && BinomialQ[v,x]] && 
-Not[EqQ[Coefficient[u,x,0]] && EqQ[Coefficient[v,x,0]]],
-
-Int[u_*v_^p_,x_Symbol] :=
-  With[{m=Exponent[u,x],n=Exponent[v,x]},
-  Module[{c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p)),w},
-  c=Coefficient[u,x,m]/(Coefficient[v,x,n]*(m+1+n*p));
-  w=Apart[u-c*x^(m-n)*((m-n+1)*v+(p+1)*x*D[v,x]),x];
-  If[EqQ[w],
-    c*x^(m-n+1)*v^(p+1),
-  c*x^(m-n+1)*v^(p+1) + Int[w*v^p,x]]] /;
- 1<n<=m+1 && m+n*p<-1 && FalseQ[DerivativeDivides[v,u,x]]] /;
-RationalQ[p] && p<-1 && PolynomialQ[u,x] && PolynomialQ[v,x] && SumQ[v] && 
-Not[MonomialQ[u,x] && BinomialQ[v,x]] && 
-Not[EqQ[Coefficient[u,x,0]] && EqQ[Coefficient[v,x,0]]]]
-
-
-
-`)
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,m,n},x]
 
-func resourcesRubi13MiscellaneousAlgebraicFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi13MiscellaneousAlgebraicFunctionsM, nil
-}
 
-func resourcesRubi13MiscellaneousAlgebraicFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi13MiscellaneousAlgebraicFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Subsubsection::Closed:: *)
+(*3.2.2 (g sec)^p (a+b sec)^m (c+d sec)^n*)
 
-	info := bindataFileInfo{name: "resources/rubi/1.3 Miscellaneous algebraic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi2ExponentialsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Exponential Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*2.1 (c+d x)^m (a+b (F^(g (e+f x)))^n)^p*)
-
-
-$UseGamma=False;
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_.,x_Symbol] :=
-  (c+d*x)^m*(b*F^(g*(e+f*x)))^n/(f*g*n*Log[F]) - 
-  d*m/(f*g*n*Log[F])*Int[(c+d*x)^(m-1)*(b*F^(g*(e+f*x)))^n,x] /;
-FreeQ[{F,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0 && IntegerQ[2*m] && Not[$UseGamma===True]
-
-
-Int[(c_.+d_.*x_)^m_*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_.,x_Symbol] :=
-  (c+d*x)^(m+1)*(b*F^(g*(e+f*x)))^n/(d*(m+1)) - 
-  f*g*n*Log[F]/(d*(m+1))*Int[(c+d*x)^(m+1)*(b*F^(g*(e+f*x)))^n,x] /;
-FreeQ[{F,b,c,d,e,f,g,n},x] && RationalQ[m] && m<-1 && IntegerQ[2*m] && Not[$UseGamma===True]
-
-
-Int[F_^(g_.*(e_.+f_.*x_))/(c_.+d_.*x_),x_Symbol] :=
-  F^(g*(e-c*f/d))/d*ExpIntegralEi[f*g*(c+d*x)*Log[F]/d] /;
-FreeQ[{F,c,d,e,f,g},x] && Not[$UseGamma===True]
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(g_.*(e_.+f_.*x_)),x_Symbol] :=
-  (-d)^m*F^(g*(e-c*f/d))/(f^(m+1)*g^(m+1)*Log[F]^(m+1))*Gamma[m+1,-f*g*Log[F]/d*(c+d*x)] /;
-FreeQ[{F,c,d,e,f,g},x] && IntegerQ[m]
-
-
-Int[F_^(g_.*(e_.+f_.*x_))/Sqrt[c_.+d_.*x_],x_Symbol] :=
-  2/d*Subst[Int[F^(g*(e-c*f/d)+f*g*x^2/d),x],x,Sqrt[c+d*x]] /;
-FreeQ[{F,c,d,e,f,g},x] && Not[$UseGamma===True]
-
-
-Int[(c_.+d_.*x_)^m_*F_^(g_.*(e_.+f_.*x_)),x_Symbol] :=
-  -F^(g*(e-c*f/d))*(c+d*x)^FracPart[m]/(d*(-f*g*Log[F]/d)^(IntPart[m]+1)*(-f*g*Log[F]*(c+d*x)/d)^FracPart[m])*
-    Gamma[m+1,(-f*g*Log[F]/d)*(c+d*x)] /;
-FreeQ[{F,c,d,e,f,g,m},x] && Not[IntegerQ[m]]
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*F_^(g_.*(e_.+f_.*x_)))^n_,x_Symbol] :=
-  (b*F^(g*(e+f*x)))^n/F^(g*n*(e+f*x))*Int[(c+d*x)^m*F^(g*n*(e+f*x)),x] /;
-FreeQ[{F,b,c,d,e,f,g,m,n},x]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(a+b*(F^(g*(e+f*x)))^n)^p,x],x] /;
-FreeQ[{F,a,b,c,d,e,f,g,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.),x_Symbol] :=
-  -(c+d*x)^m/(a*f*g*n*Log[F])*Log[1+a/(b*(F^(g*(e+f*x)))^n)] + 
-  d*m/(a*f*g*n*Log[F])*Int[(c+d*x)^(m-1)*Log[1+a/(b*(F^(g*(e+f*x)))^n)],x] /;
-FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_,x_Symbol] :=
-  1/a*Int[(c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^(p+1),x] - 
-  b/a*Int[(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
-FreeQ[{F,a,b,c,d,e,f,g,n},x] && NegativeIntegerQ[p] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_,x_Symbol] :=
-  With[{u=IntHide[(a+b*(F^(g*(e+f*x)))^n)^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m,p] && m>0 && p<-1
-
-
-Int[u_^m_.*(a_.+b_.*(F_^(g_.*v_))^n_.)^p_.,x_Symbol] :=
-  Int[NormalizePowerOfLinear[u,x]^m*(a+b*(F^(g*ExpandToSum[v,x]))^n)^p,x] /;
-FreeQ[{F,a,b,g,n,p},x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[LinearMatchQ[v,x] && PowerOfLinearMatchQ[u,x]] && IntegerQ[m]
-
-
-Int[u_^m_.*(a_.+b_.*(F_^(g_.*v_))^n_.)^p_.,x_Symbol] :=
-  Module[{uu=NormalizePowerOfLinear[u,x],z},
-  z=If[PowerQ[uu] && FreeQ[uu[[2]],x], uu[[1]]^(m*uu[[2]]), uu^m];
-  uu^m/z*Int[z*(a+b*(F^(g*ExpandToSum[v,x]))^n)^p,x]] /; 
-FreeQ[{F,a,b,g,m,n,p},x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[LinearMatchQ[v,x] && PowerOfLinearMatchQ[u,x]] && 
-  Not[IntegerQ[m]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
-  Defer[Int][(c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*2.2 (c+d x)^m (F^(g (e+f x)))^n (a+b (F^(g (e+f x)))^n)^p*)
-
-
-Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_./(a_+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.),x_Symbol] :=
-  (c+d*x)^m/(b*f*g*n*Log[F])*Log[1+b*(F^(g*(e+f*x)))^n/a] - 
-  d*m/(b*f*g*n*Log[F])*Int[(c+d*x)^(m-1)*Log[1+b*(F^(g*(e+f*x)))^n/a],x] /;
-FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
-  (c+d*x)^m*(a+b*(F^(g*(e+f*x)))^n)^(p+1)/(b*f*g*n*(p+1)*Log[F]) - 
-  d*m/(b*f*g*n*(p+1)*Log[F])*Int[(c+d*x)^(m-1)*(a+b*(F^(g*(e+f*x)))^n)^(p+1),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,m,n,p},x] && NeQ[p+1]
-
-
-Int[(c_.+d_.*x_)^m_.*(F_^(g_.*(e_.+f_.*x_)))^n_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
-  Defer[Int][(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
-FreeQ[{F,a,b,c,d,e,f,g,m,n,p},x]
-
-
-Int[(c_.+d_.*x_)^m_.*(k_.*G_^(j_.*(h_.+i_.*x_)))^q_.*(a_.+b_.*(F_^(g_.*(e_.+f_.*x_)))^n_.)^p_.,x_Symbol] :=
-  (k*G^(j*(h+i*x)))^q/(F^(g*(e+f*x)))^n*Int[(c+d*x)^m*(F^(g*(e+f*x)))^n*(a+b*(F^(g*(e+f*x)))^n)^p,x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,i,j,k,m,n,p,q},x] && EqQ[f*g*n*Log[F]-i*j*q*Log[G]] && NeQ[(k*G^(j*(h+i*x)))^q-(F^(g*(e+f*x)))^n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*2.3 Miscellaneous exponentials*)
-
-
-Int[(F_^(c_.*(a_.+b_.*x_)))^n_.,x_Symbol] :=
-  (F^(c*(a+b*x)))^n/(b*c*n*Log[F]) /;
-FreeQ[{F,a,b,c,n},x]
-
-
-Int[u_*F_^(c_.*v_),x_Symbol] :=
-  Int[ExpandIntegrand[u*F^(c*ExpandToSum[v,x]),x],x] /;
-FreeQ[{F,c},x] && PolynomialQ[u,x] && LinearQ[v,x] && $UseGamma===True
-
-
-Int[u_*F_^(c_.*v_),x_Symbol] :=
-  Int[ExpandIntegrand[F^(c*ExpandToSum[v,x]),u,x],x] /;
-FreeQ[{F,c},x] && PolynomialQ[u,x] && LinearQ[v,x] && Not[$UseGamma===True]
-
-
-Int[u_^m_.*F_^(c_.*v_)*w_,x_Symbol] :=
-  Coefficient[w,x,1]*u^(m+1)*F^(c*v)/(Coefficient[v,x,1]*c*Coefficient[u,x,1]*Log[F]) /;
-FreeQ[{F,c,m},x] && LinearQ[{u,v,w},x] && 
-  EqQ[Coefficient[u,x,1]*Coefficient[w,x,1]*(m+1)-
-    Coefficient[v,x,1]*c*(Coefficient[u,x,1]*Coefficient[w,x,0]-Coefficient[u,x,0]*Coefficient[w,x,1])*Log[F]]
-
-
-Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
-  Int[ExpandIntegrand[w*NormalizePowerOfLinear[u,x]^m*F^(c*ExpandToSum[v,x]),x],x] /;
-FreeQ[{F,c},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && IntegerQ[m] && $UseGamma===True
-
-
-Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
-  Int[ExpandIntegrand[F^(c*ExpandToSum[v,x]),w*NormalizePowerOfLinear[u,x]^m,x],x] /;
-FreeQ[{F,c},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && IntegerQ[m] && Not[$UseGamma===True]
-
-
-Int[w_*u_^m_.*F_^(c_.*v_),x_Symbol] :=
-  Module[{uu=NormalizePowerOfLinear[u,x],z},
-  z=If[PowerQ[uu] && FreeQ[uu[[2]],x], uu[[1]]^(m*uu[[2]]), uu^m];
-  uu^m/z*Int[ExpandIntegrand[w*z*F^(c*ExpandToSum[v,x]),x],x]] /;
-FreeQ[{F,c,m},x] && PolynomialQ[w,x] && LinearQ[v,x] && PowerOfLinearQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Log[d_.*x_]^n_.*(e_+h_.*(f_.+g_.*x_)*Log[d_.*x_]),x_Symbol] :=
-  e*x*F^(c*(a+b*x))*Log[d*x]^(n+1)/(n+1) /;
-FreeQ[{F,a,b,c,d,e,f,g,h,n},x] && EqQ[e-f*h*(n+1)] && EqQ[g*h*(n+1)-b*c*e*Log[F]] && NeQ[n+1]
-
-
-Int[x_^m_.*F_^(c_.*(a_.+b_.*x_))*Log[d_.*x_]^n_.*(e_+h_.*(f_.+g_.*x_)*Log[d_.*x_]),x_Symbol] :=
-  e*x^(m+1)*F^(c*(a+b*x))*Log[d*x]^(n+1)/(n+1) /;
-FreeQ[{F,a,b,c,d,e,f,g,h,m,n},x] && EqQ[e*(m+1)-f*h*(n+1)] && EqQ[g*h*(n+1)-b*c*e*Log[F]] && NeQ[n+1]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)),x_Symbol] :=
-  F^(a+b*(c+d*x))/(b*d*Log[F]) /;
-FreeQ[{F,a,b,c,d},x]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
-  F^a*Sqrt[Pi]*Erfi[(c+d*x)*Rt[b*Log[F],2]]/(2*d*Rt[b*Log[F],2]) /;
-FreeQ[{F,a,b,c,d},x] && PosQ[b]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
-  F^a*Sqrt[Pi]*Erf[(c+d*x)*Rt[-b*Log[F],2]]/(2*d*Rt[-b*Log[F],2]) /;
-FreeQ[{F,a,b,c,d},x] && NegQ[b]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (c+d*x)*F^(a+b*(c+d*x)^n)/d -
-  b*n*Log[F]*Int[(c+d*x)^n*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d},x] && IntegerQ[2/n] && NegativeIntegerQ[n]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  With[{k=Denominator[n]},
-  k/d*Subst[Int[x^(k-1)*F^(a+b*x^(k*n)),x],x,(c+d*x)^(1/k)]] /;
-FreeQ[{F,a,b,c,d},x] && IntegerQ[2/n] && Not[IntegerQ[n]]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  -F^a*(c+d*x)*Gamma[1/n,-b*(c+d*x)^n*Log[F]]/(d*n*(-b*(c+d*x)^n*Log[F])^(1/n)) /;
-FreeQ[{F,a,b,c,d,n},x] && Not[IntegerQ[2/n]]
-
-
-Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (e+f*x)^n*F^(a+b*(c+d*x)^n)/(b*f*n*(c+d*x)^n*Log[F]) /;
-FreeQ[{F,a,b,c,d,e,f,n},x] && EqQ[m-(n-1)] && EqQ[d*e-c*f]
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_)/(e_.+f_.*x_),x_Symbol] :=
-  F^a*ExpIntegralEi[b*(c+d*x)^n*Log[F]]/(f*n) /;
-FreeQ[{F,a,b,c,d,e,f,n},x] && EqQ[d*e-c*f]
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  1/(d*(m+1))*Subst[Int[F^(a+b*x^2),x],x,(c+d*x)^(m+1)] /;
-FreeQ[{F,a,b,c,d,m,n},x] && EqQ[n-2*(m+1)]
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (c+d*x)^(m-n+1)*F^(a+b*(c+d*x)^n)/(b*d*n*Log[F]) -
-  (m-n+1)/(b*n*Log[F])*Int[(c+d*x)^(m-n)*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d},x] && RationalQ[m] && IntegerQ[2*(m+1)/n] && 0<(m+1)/n<5 && IntegerQ[n] && (0<n<m+1 || m<n<0)
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (c+d*x)^(m-n+1)*F^(a+b*(c+d*x)^n)/(b*d*n*Log[F]) -
-  (m-n+1)/(b*n*Log[F])*Int[(c+d*x)^Simplify[m-n]*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d,m,n},x] && IntegerQ[2*Simplify[(m+1)/n]] && 0<Simplify[(m+1)/n]<5 && Not[RationalQ[m]] && SumSimplerQ[m,-n]
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (c+d*x)^(m+1)*F^(a+b*(c+d*x)^n)/(d*(m+1)) -
-  b*n*Log[F]/(m+1)*Int[(c+d*x)^(m+n)*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d},x] && RationalQ[m] && IntegerQ[2*(m+1)/n] && -4<(m+1)/n<5 && IntegerQ[n] && (n>0 && m<-1 || 0<-n<=m+1)
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (c+d*x)^(m+1)*F^(a+b*(c+d*x)^n)/(d*(m+1)) -
-  b*n*Log[F]/(m+1)*Int[(c+d*x)^Simplify[m+n]*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d,m,n},x] && IntegerQ[2*Simplify[(m+1)/n]] && -4<Simplify[(m+1)/n]<5 && Not[RationalQ[m]] && SumSimplerQ[m,n]
-
-
-Int[(c_.+d_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  With[{k=Denominator[n]},
-  k/d*Subst[Int[x^(k*(m+1)-1)*F^(a+b*x^(k*n)),x],x,(c+d*x)^(1/k)]] /;
-FreeQ[{F,a,b,c,d},x] && RationalQ[m,n] && IntegerQ[2*(m+1)/n] && 0<(m+1)/n<5 && Not[IntegerQ[n]]
-
-
-Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (e+f*x)^m/(c+d*x)^m*Int[(c+d*x)^m*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d,e,f,m,n},x] && EqQ[d*e-c*f] && IntegerQ[2*Simplify[(m+1)/n]] && NeQ[f-d] && Not[IntegerQ[m]] && NeQ[c*e]
-
-
-Int[(e_.+f_.*x_)^m_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-(*-F^a*(e+f*x)^(m+1)/(f*n)*ExpIntegralE[1-(m+1)/n,-b*(c+d*x)^n*Log[F]] *)
-  -F^a*(e+f*x)^(m+1)/(f*n*(-b*(c+d*x)^n*Log[F])^((m+1)/n))*Gamma[(m+1)/n,-b*(c+d*x)^n*Log[F]] /;
-FreeQ[{F,a,b,c,d,e,f,m,n},x] && EqQ[d*e-c*f]
-
-
-Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
-  f*(e+f*x)^(m-1)*F^(a+b*(c+d*x)^2)/(2*b*d^2*Log[F]) + 
-  (d*e-c*f)/d*Int[(e+f*x)^(m-1)*F^(a+b*(c+d*x)^2),x] - 
-  (m-1)*f^2/(2*b*d^2*Log[F])*Int[(e+f*x)^(m-2)*F^(a+b*(c+d*x)^2),x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && FractionQ[m] && m>1
-
-
-Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^2),x_Symbol] :=
-  f*(e+f*x)^(m+1)*F^(a+b*(c+d*x)^2)/((m+1)*f^2) + 
-  2*b*d*(d*e-c*f)*Log[F]/(f^2*(m+1))*Int[(e+f*x)^(m+1)*F^(a+b*(c+d*x)^2),x] - 
-  2*b*d^2*Log[F]/(f^2*(m+1))*Int[(e+f*x)^(m+2)*F^(a+b*(c+d*x)^2),x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && RationalQ[m] && m<-1
-
-
-Int[(e_.+f_.*x_)^m_*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  (e+f*x)^(m+1)*F^(a+b*(c+d*x)^n)/(f*(m+1)) -
-  b*d*n*Log[F]/(f*(m+1))*Int[(e+f*x)^(m+1)*(c+d*x)^(n-1)*F^(a+b*(c+d*x)^n),x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && IntegerQ[n] && n>2 && RationalQ[m] && m<-1
-
-
-Int[F_^(a_.+b_./(c_.+d_.*x_))/(e_.+f_.*x_),x_Symbol] :=
-  d/f*Int[F^(a+b/(c+d*x))/(c+d*x),x] - 
-  (d*e-c*f)/f*Int[F^(a+b/(c+d*x))/((c+d*x)*(e+f*x)),x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f]
-
-
-Int[(e_.+f_.*x_)^m_*F_^(a_.+b_./(c_.+d_.*x_)),x_Symbol] :=
-  (e+f*x)^(m+1)*F^(a+b/(c+d*x))/(f*(m+1)) + 
-  b*d*Log[F]/(f*(m+1))*Int[(e+f*x)^(m+1)*F^(a+b/(c+d*x))/(c+d*x)^2,x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && NeQ[d*e-c*f] && IntegerQ[m] && m<-1
-
-
-Int[F_^(a_.+b_.*(c_.+d_.*x_)^n_)/(e_.+f_.*x_),x_Symbol] :=
-  Defer[Int][F^(a+b*(c+d*x)^n)/(e+f*x),x] /;
-FreeQ[{F,a,b,c,d,e,f,n},x] && NeQ[d*e-c*f]
-
-
-Int[u_^m_.*F_^v_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*F^ExpandToSum[v,x],x] /;
-FreeQ[{F,m},x] && LinearQ[u,x] && BinomialQ[v,x] && Not[LinearMatchQ[u,x] && BinomialMatchQ[v,x]]
-
-
-Int[u_*F_^(a_.+b_.*(c_.+d_.*x_)^n_),x_Symbol] :=
-  Int[ExpandLinearProduct[F^(a+b*(c+d*x)^n),u,c,d,x],x] /;
-FreeQ[{F,a,b,c,d,n},x] && PolynomialQ[u,x]
-
-
-Int[u_.*F_^(a_.+b_.*v_),x_Symbol] :=
-  Int[u*F^(a+b*NormalizePowerOfLinear[v,x]),x] /;
-FreeQ[{F,a,b},x] && PolynomialQ[u,x] && PowerOfLinearQ[v,x] && Not[PowerOfLinearMatchQ[v,x]]
-
-
-(* Int[u_.*F_^(a_.+b_.*v_^n_),x_Symbol] :=
-  Int[u*F^(a+b*ExpandToSum[v,x]^n),x] /;
-FreeQ[{F,a,b,n},x] && PolynomialQ[u,x] && LinearQ[v,x] && Not[LinearMatchQ[v,x]] *)
-
-
-(* Int[u_.*F_^u_,x_Symbol] :=
-  Int[u*F^ExpandToSum[u,x],x] /;
-FreeQ[F,x] && PolynomialQ[u,x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]] *)
-
-
-Int[F_^(a_.+b_./(c_.+d_.*x_))/((e_.+f_.*x_)*(g_.+h_.*x_)),x_Symbol] :=
-  -d/(f*(d*g-c*h))*Subst[Int[F^(a-b*h/(d*g-c*h)+d*b*x/(d*g-c*h))/x,x],x,(g+h*x)/(c+d*x)] /;
-FreeQ[{F,a,b,c,d,e,f},x] && EqQ[d*e-c*f]
-
-
-Int[(g_.+h_.*x_)^m_.*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
-  F^(e+f*b/d)*Int[(g+h*x)^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,m},x] && EqQ[b*c-a*d]
-
-
-Int[(g_.+h_.*x_)^m_.*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
-  Int[(g+h*x)^m*F^((d*e+b*f)/d-f*(b*c-a*d)/(d*(c+d*x))),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,m},x] && NeQ[b*c-a*d] && EqQ[d*g-c*h]
-
-
-Int[F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_))/(g_.+h_.*x_),x_Symbol] :=
-  d/h*Int[F^(e+f*(a+b*x)/(c+d*x))/(c+d*x),x] - 
-  (d*g-c*h)/h*Int[F^(e+f*(a+b*x)/(c+d*x))/((c+d*x)*(g+h*x)),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h},x] && NeQ[b*c-a*d] && NeQ[d*g-c*h]
-
-
-Int[(g_.+h_.*x_)^m_*F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_)),x_Symbol] :=
-  (g+h*x)^(m+1)*F^(e+f*(a+b*x)/(c+d*x))/(h*(m+1)) - 
-  f*(b*c-a*d)*Log[F]/(h*(m+1))*Int[(g+h*x)^(m+1)*F^(e+f*(a+b*x)/(c+d*x))/(c+d*x)^2,x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h},x] && NeQ[b*c-a*d] && NeQ[d*g-c*h] && IntegerQ[m] && m<-1
-
-
-Int[F_^(e_.+f_.*(a_.+b_.*x_)/(c_.+d_.*x_))/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
-  -d/(h*(d*i-c*j))*Subst[Int[F^(e+f*(b*i-a*j)/(d*i-c*j)-(b*c-a*d)*f*x/(d*i-c*j))/x,x],x,(i+j*x)/(c+d*x)] /;
-FreeQ[{F,a,b,c,d,e,f,g,h},x] && EqQ[d*g-c*h]
-
-
-Int[F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  F^(a-b^2/(4*c))*Int[F^((b+2*c*x)^2/(4*c)),x] /;
-FreeQ[{F,a,b,c},x]
-
-
-Int[F_^v_,x_Symbol] :=
-  Int[F^ExpandToSum[v,x],x] /;
-FreeQ[F,x] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
-
-
-Int[(d_.+e_.*x_)*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*F^(a+b*x+c*x^2)/(2*c*Log[F]) /;
-FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m-1)*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
-  (m-1)*e^2/(2*c*Log[F])*Int[(d+e*x)^(m-2)*F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d] && RationalQ[m] && m>1
-
-
-Int[F_^(a_.+b_.*x_+c_.*x_^2)/(d_.+e_.*x_),x_Symbol] :=
-  1/(2*e)*F^(a-b^2/(4*c))*ExpIntegralEi[(b+2*c*x)^2*Log[F]/(4*c)] /;
-FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  (d+e*x)^(m+1)*F^(a+b*x+c*x^2)/(e*(m+1)) - 
-  2*c*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+2)*F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && EqQ[b*e-2*c*d] && RationalQ[m] && m<-1
-
-
-Int[(d_.+e_.*x_)*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
-  (b*e-2*c*d)/(2*c)*Int[F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  e*(d+e*x)^(m-1)*F^(a+b*x+c*x^2)/(2*c*Log[F]) -
-  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*F^(a+b*x+c*x^2),x] -
-  (m-1)*e^2/(2*c*Log[F])*Int[(d+e*x)^(m-2)*F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d] && RationalQ[m] && m>1
-
-
-Int[(d_.+e_.*x_)^m_*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  (d+e*x)^(m+1)*F^(a+b*x+c*x^2)/(e*(m+1)) -
-  (b*e-2*c*d)*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+1)*F^(a+b*x+c*x^2),x] -
-  2*c*Log[F]/(e^2*(m+1))*Int[(d+e*x)^(m+2)*F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[b*e-2*c*d] && RationalQ[m] && m<-1
-
-
-Int[(d_.+e_.*x_)^m_.*F_^(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Defer[Int][(d+e*x)^m*F^(a+b*x+c*x^2),x] /;
-FreeQ[{F,a,b,c,d,e,m},x]
-
-
-Int[u_^m_.*F_^v_,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*F^ExpandToSum[v,x],x] /;
-FreeQ[{F,m},x] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-Int[x_^m_.*F_^(e_.*(c_.+d_.*x_))*(a_.+b_.*F_^v_)^p_,x_Symbol] :=
-  With[{u=IntHide[F^(e*(c+d*x))*(a+b*F^v)^p,x]},
-  Dist[x^m,u,x] - m*Int[x^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e},x] && EqQ[2*e*(c+d*x)-v] && RationalQ[m] && m>0 && NegativeIntegerQ[p]
-
-
-Int[(F_^(e_.*(c_.+d_.*x_)))^n_.*(a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.)^p_.,x_Symbol] :=
-  1/(d*e*n*Log[F])*Subst[Int[(a+b*x)^p,x],x,(F^(e*(c+d*x)))^n] /;
-FreeQ[{F,a,b,c,d,e,n,p},x]
-
-
-Int[(G_^(h_.(f_.+g_.*x_)))^m_.*(a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.)^p_.,x_Symbol] :=
-  (G^(h*(f+g*x)))^m/(F^(e*(c+d*x)))^n*Int[(F^(e*(c+d*x)))^n*(a+b*(F^(e*(c+d*x)))^n)^p,x] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[d*e*n*Log[F]-g*h*m*Log[G]]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  With[{m=FullSimplify[g*h*Log[G]/(d*e*Log[F])]},
-  Denominator[m]*G^(f*h-c*g*h/d)/(d*e*Log[F])*Subst[Int[x^(Numerator[m]-1)*(a+b*x^Denominator[m])^p,x],x,F^(e*(c+d*x)/Denominator[m])] /;
- RationalQ[m] && Abs[m]>=1] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  With[{m=FullSimplify[d*e*Log[F]/(g*h*Log[G])]},
-  Denominator[m]/(g*h*Log[G])*Subst[Int[x^(Denominator[m]-1)*(a+b*F^(c*e-d*e*f/g)*x^Numerator[m])^p,x],x,G^(h*(f+g*x)/Denominator[m])] /;
- RationalQ[m] && Abs[m]>1] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  Int[Expand[G^(h*(f+g*x))*(a+b*F^(e*(c+d*x)))^p,x],x] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[p]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
-  a^p*G^(h*(f+g*x))/(g*h*Log[G])*Hypergeometric2F1[-p,g*h*Log[G]/(d*e*Log[F]),g*h*Log[G]/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x] && (NegativeIntegerQ[p] || RationalQ[a] && a>0)
-
-
-Int[G_^(h_.(f_.+g_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
-  (a+b*F^(e*(c+d*x)))^p/(1+(b/a)*F^(e*(c+d*x)))^p*Int[G^(h*(f+g*x))*(1+b/a*F^(e*(c+d*x)))^p,x] /;
-FreeQ[{F,G,a,b,c,d,e,f,g,h,p},x] && Not[NegativeIntegerQ[p] || RationalQ[a] && a>0]
-
-
-Int[G_^(h_. u_)*(a_+b_.*F_^(e_.*v_))^p_,x_Symbol] :=
-  Int[G^(h*ExpandToSum[u,x])*(a+b*F^(e*ExpandToSum[v,x]))^p,x] /;
-FreeQ[{F,G,a,b,e,h,p},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  With[{m=FullSimplify[(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])]},
-  Denominator[m]*G^(f*h-c*g*h/d)*H^(r*t-c*s*t/d)/(d*e*Log[F])*
-    Subst[Int[x^(Numerator[m]-1)*(a+b*x^Denominator[m])^p,x],x,F^(e*(c+d*x)/Denominator[m])] /;
- RationalQ[m]] /;
-FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t,p},x]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  G^((f-c*g/d)*h)*Int[H^(t*(r+s*x))*(b+a*F^(-e*(c+d*x)))^p,x] /;
-FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && EqQ[d*e*p*Log[F]+g*h*Log[G]] && IntegerQ[p]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  Int[Expand[G^(h*(f+g*x))*H^(t*(r+s*x))*(a+b*F^(e*(c+d*x)))^p,x],x] /;
-FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && PositiveIntegerQ[p]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
-  a^p*G^(h*(f+g*x))*H^(t*(r+s*x))/(g*h*Log[G]+s*t*Log[H])*
-    Hypergeometric2F1[-p,(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F]),(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
-FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t},x] && NegativeIntegerQ[p]
-
-
-Int[G_^(h_.(f_.+g_.*x_))*H_^(t_.(r_.+s_.*x_))*(a_+b_.*F_^(e_.*(c_.+d_.*x_)))^p_,x_Symbol] :=
-  G^(h*(f+g*x))*H^(t*(r+s*x))*(a+b*F^(e*(c+d*x)))^p/((g*h*Log[G]+s*t*Log[H])*((a+b*F^(e*(c+d*x)))/a)^p)*
-    Hypergeometric2F1[-p,(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F]),(g*h*Log[G]+s*t*Log[H])/(d*e*Log[F])+1,Simplify[-b/a*F^(e*(c+d*x))]] /;
-FreeQ[{F,G,H,a,b,c,d,e,f,g,h,r,s,t,p},x] && Not[IntegerQ[p]]
-
-
-Int[G_^(h_. u_)*H_^(t_. w_)*(a_+b_.*F_^(e_.*v_))^p_,x_Symbol] :=
-  Int[G^(h*ExpandToSum[u,x])*H^(t*ExpandToSum[w,x])*(a+b*F^(e*ExpandToSum[v,x]))^p,x] /;
-FreeQ[{F,G,H,a,b,e,h,t,p},x] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
-
-
-Int[F_^(e_.*(c_.+d_.*x_))*(a_.*x_^n_.+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  (a*x^n+b*F^(e*(c+d*x)))^(p+1)/(b*d*e*(p+1)*Log[F]) - 
-  a*n/(b*d*e*Log[F])*Int[x^(n-1)*(a*x^n+b*F^(e*(c+d*x)))^p,x] /;
-FreeQ[{F,a,b,c,d,e,n,p},x] && NeQ[p+1]
-
-
-Int[x_^m_.*F_^(e_.*(c_.+d_.*x_))*(a_.*x_^n_.+b_.*F_^(e_.*(c_.+d_.*x_)))^p_.,x_Symbol] :=
-  x^m*(a*x^n+b*F^(e*(c+d*x)))^(p+1)/(b*d*e*(p+1)*Log[F]) - 
-  a*n/(b*d*e*Log[F])*Int[x^(m+n-1)*(a*x^n+b*F^(e*(c+d*x)))^p,x] - 
-  m/(b*d*e*(p+1)*Log[F])*Int[x^(m-1)*(a*x^n+b*F^(e*(c+d*x)))^(p+1),x] /;
-FreeQ[{F,a,b,c,d,e,m,n,p},x] && NeQ[p+1]
-
-
-Int[(f_.+g_.*x_)^m_./(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[(f+g*x)^m/(b-q+2*c*F^u),x] - 2*c/q*Int[(f+g*x)^m/(b+q+2*c*F^u),x]] /;
-FreeQ[{F,a,b,c,f,g},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*F_^u_/(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[(f+g*x)^m*F^u/(b-q+2*c*F^u),x] - 2*c/q*Int[(f+g*x)^m*F^u/(b+q+2*c*F^u),x]] /;
-FreeQ[{F,a,b,c,f,g},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*(h_+i_.*F_^u_)/(a_.+b_.*F_^u_+c_.*F_^v_),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]},
-  (Simplify[(2*c*h-b*i)/q]+i)*Int[(f+g*x)^m/(b-q+2*c*F^u),x] - 
-  (Simplify[(2*c*h-b*i)/q]-i)*Int[(f+g*x)^m/(b+q+2*c*F^u),x]] /;
-FreeQ[{F,a,b,c,f,g,h,i},x] && EqQ[v-2*u] && LinearQ[u,x] && NeQ[b^2-4*a*c] && PositiveIntegerQ[m]
-
-
-Int[x_^m_./(a_.*F_^(c_.+d_.*x_)+b_.*F_^v_),x_Symbol] :=
-  With[{u=IntHide[1/(a*F^(c+d*x)+b*F^v),x]},
-  x^m*u - m*Int[x^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d},x] && EqQ[(c+d*x)+v] && RationalQ[m] && m>0
-
-
-Int[u_/(a_+b_.*F_^v_+c_.*F_^w_),x_Symbol] :=
-  Int[u*F^v/(c+a*F^v+b*F^(2*v)),x] /;
-FreeQ[{F,a,b,c},x] && LinearQ[v,x] && LinearQ[w,x] && EqQ[v+w] &&
-  If[RationalQ[Coefficient[v,x,1]], Coefficient[v,x,1]>0, LeafCount[v]<LeafCount[w]]
-
-
-Int[F_^(g_.*(d_.+e_.*x_)^n_.)/(a_.+b_.*x_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[F^(g*(d+e*x)^n),1/(a+b*x+c*x^2),x],x] /;
-FreeQ[{F,a,b,c,d,e,g,n},x]
-
-
-Int[F_^(g_.*(d_.+e_.*x_)^n_.)/(a_+c_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[F^(g*(d+e*x)^n),1/(a+c*x^2),x],x] /;
-FreeQ[{F,a,c,d,e,g,n},x]
-
-
-Int[u_^m_.*F_^(g_.*(d_.+e_.*x_)^n_.)/(a_.+b_.*x_+c_*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[F^(g*(d+e*x)^n),u^m/(a+b*x+c*x^2),x],x] /;
-FreeQ[{F,a,b,c,d,e,g,n},x] && PolynomialQ[u,x] && IntegerQ[m]
-
-
-Int[u_^m_.*F_^(g_.*(d_.+e_.*x_)^n_.)/(a_+c_*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[F^(g*(d+e*x)^n),u^m/(a+c*x^2),x],x] /;
-FreeQ[{F,a,c,d,e,g,n},x] && PolynomialQ[u,x] && IntegerQ[m]
-
-
-Int[F_^((a_.+b_.*x_^4)/x_^2),x_Symbol] :=
-  Sqrt[Pi]*Exp[2*Sqrt[-a*Log[F]]*Sqrt[-b*Log[F]]]*Erf[(Sqrt[-a*Log[F]]+Sqrt[-b*Log[F]]*x^2)/x]/
-    (4*Sqrt[-b*Log[F]]) -
-  Sqrt[Pi]*Exp[-2*Sqrt[-a*Log[F]]*Sqrt[-b*Log[F]]]*Erf[(Sqrt[-a*Log[F]]-Sqrt[-b*Log[F]]*x^2)/x]/
-    (4*Sqrt[-b*Log[F]]) /;
-FreeQ[{F,a,b},x]
-
-
-Int[x_^m_.*(E^x_+x_^m_.)^n_,x_Symbol] :=
-  -(E^x+x^m)^(n+1)/(n+1) +
-  Int[(E^x+x^m)^(n+1),x] +
-  m*Int[x^(m-1)*(E^x+x^m)^n,x] /;
-RationalQ[m,n] && m>0 && n<0 && n!=-1
-
-
-Int[Log[a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.],x_Symbol] :=
-  1/(d*e*n*Log[F])*Subst[Int[Log[a+b*x]/x,x],x,(F^(e*(c+d*x)))^n] /;
-FreeQ[{F,a,b,c,d,e,n},x] && PositiveQ[a]
-
-
-Int[Log[a_+b_.*(F_^(e_.*(c_.+d_.*x_)))^n_.],x_Symbol] :=
-  x*Log[a+b*(F^(e*(c+d*x)))^n] - b*d*e*n*Log[F]*Int[x*(F^(e*(c+d*x)))^n/(a+b*(F^(e*(c+d*x)))^n),x] /;
-FreeQ[{F,a,b,c,d,e,n},x] && Not[PositiveQ[a]]
-
-
-(* Int[u_.*(a_.*F_^v_)^n_,x_Symbol] :=
-  a^n*Int[u*F^(n*v),x] /;
-FreeQ[{F,a},x] && IntegerQ[n] *)
-
-
-Int[u_.*(a_.*F_^v_)^n_,x_Symbol] :=
-  (a*F^v)^n/F^(n*v)*Int[u*F^(n*v),x] /;
-FreeQ[{F,a,n},x] && Not[IntegerQ[n]]
-
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfExponential[u,x]},
-  v/D[v,x]*Subst[Int[FunctionOfExponentialFunction[u,x]/x,x],x,v]] /;
-FunctionOfExponentialQ[u,x]
-
-
-Int[u_.*(a_.*F_^v_+b_.*F_^w_)^n_,x_Symbol] :=
-  Int[u*F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n,x] /;
-FreeQ[{F,a,b,n},x] && NegativeIntegerQ[n] && LinearQ[{v,w},x]
-
-
-Int[u_.*(a_.*F_^v_+b_.*G_^w_)^n_,x_Symbol] :=
-  Int[u*F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n,x] /;
-FreeQ[{F,G,a,b,n},x] && NegativeIntegerQ[n] && LinearQ[{v,w},x]
-
-
-Int[u_.*(a_.*F_^v_+b_.*F_^w_)^n_,x_Symbol] :=
-  (a*F^v+b*F^w)^n/(F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n)*Int[u*F^(n*v)*(a+b*F^ExpandToSum[w-v,x])^n,x] /;
-FreeQ[{F,a,b,n},x] && Not[IntegerQ[n]] && LinearQ[{v,w},x]
-
-
-Int[u_.*(a_.*F_^v_+b_.*G_^w_)^n_,x_Symbol] :=
-  (a*F^v+b*G^w)^n/(F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n)*Int[u*F^(n*v)*(a+b*E^ExpandToSum[Log[G]*w-Log[F]*v,x])^n,x] /;
-FreeQ[{F,G,a,b,n},x] && Not[IntegerQ[n]] && LinearQ[{v,w},x]
-
-
-Int[u_.*F_^v_*G_^w_,x_Symbol] :=
-  Int[u*NormalizeIntegrand[E^(v*Log[F]+w*Log[G]),x],x] /;
-FreeQ[{F,G},x] && (BinomialQ[v+w,x] || PolynomialQ[v+w,x] && Exponent[v+w,x]<=2)
-
-
-Int[F_^u_*(v_+w_)*y_.,x_Symbol] :=
-  With[{z=v*y/(Log[F]*D[u,x])},
-  F^u*z /;
- EqQ[D[z,x]-w*y]] /;
-FreeQ[F,x]
-
-
-Int[F_^u_*v_^n_.*w_,x_Symbol] :=
-  With[{z=Log[F]*v*D[u,x]+(n+1)*D[v,x]},
-  Coefficient[w,x,Exponent[w,x]]/Coefficient[z,x,Exponent[z,x]]*F^u*v^(n+1) /;
- Exponent[w,x]==Exponent[z,x] && EqQ[w*Coefficient[z,x,Exponent[z,x]]-z*Coefficient[w,x,Exponent[w,x]]]] /;
-FreeQ[{F,n},x] && PolynomialQ[u,x] && PolynomialQ[v,x] && PolynomialQ[w,x]
-
-
-
-`)
+(* ::Text:: *)
+(*(g Sec[e+f x])^p (a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
 
-func resourcesRubi2ExponentialsMBytes() ([]byte, error) {
-	return _resourcesRubi2ExponentialsM, nil
-}
 
-func resourcesRubi2ExponentialsM() (*asset, error) {
-	bytes, err := resourcesRubi2ExponentialsMBytes()
-	if err != nil {
-		return nil, err
-	}
+UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (g*csc[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
 
-	info := bindataFileInfo{name: "resources/rubi/2 Exponentials.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi3LogarithmsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Logarithm Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*3.1 u (a+b log(c (d (e+f x)^p)^q))^n*)
-
-
-(* Int[(e_.+f_.*x_)^m_*Log[a_+b_.*x_]*(c_+d_.*x_)^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Log[a+b*x],(e+f*x)^m*(c+d*x)^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && FractionQ[m] && IGtQ[n,0] *)
-
-
-Int[(e_.+f_.*x_)^m_*Log[a_+b_.*x_]*(c_+d_.*x_)^n_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/f*Subst[Int[x^(k*(m+1)-1)*Log[-(b*e-a*f)/f+b*x^k/f]*(-(d*e-c*f)/f+d*x^k/f)^n,x],x,(e+f*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && FractionQ[m] && ILtQ[n,0]
-
-
-Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[c_+d_.*x_]/x_,x_Symbol] :=
-  -Log[g*(h*(b*x)^p)^q]*PolyLog[2,-d*x] + p*q*PolyLog[3,-d*x] /;
-FreeQ[{b,c,d,g,h,p,q},x] && EqQ[c,1]
-
-
-Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[cd_*(c_+d_.*x_)]/x_,x_Symbol] :=
-  -Log[g*(h*(b*x)^p)^q]*PolyLog[2,-cd*d*x] + p*q*PolyLog[3,-cd*d*x] /;
-FreeQ[{b,c,cd,d,g,h,p,q},x] && EqQ[cd*c,1]
-
-
-Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
-  r*s*Int[Log[g*(h*(b*x)^p)^q]*Log[1+d*x]/x,x] - 
-  (r*s*Log[1+d*x]-Log[i*(j*(1+d*x)^r)^s])*Int[Log[g*(h*(b*x)^p)^q]/x,x]/;
-FreeQ[{b,c,d,g,h,i,j,p,q,r,s},x] && EqQ[c,1] && NeQ[1+d*x,i*(j*(1+d*x)^r)^s]
-
-
-Int[Log[g_.*(h_.*(b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
-  Log[g*(h*(b*x)^p)^q]^2*Log[i*(j*(c+d*x)^r)^s]/(2*p*q) - d*r*s/(2*p*q)*Int[Log[g*(h*(b*x)^p)^q]^2/(c+d*x),x]/;
-FreeQ[{b,c,d,g,h,i,j,p,q,r,s},x] && NeQ[c,1]
-
-
-Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
-  Log[x]*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s] - 
-  d*r*s*Int[Log[x]*Log[g*(h*(a+b*x)^p)^q]/(c+d*x),x] - 
-  d*p*q*Int[Log[x]*Log[i*(j*(c+d*x)^r)^s]/(c+d*x),x]/;
-FreeQ[{a,b,c,d,g,h,i,j,p,q,r,s},x] && EqQ[b*c-a*d,0]
-
-
-(*Int[Log[a_+b_.*x_]*Log[c_+d_.*x_]/x_,x_Symbol] :=*)
-  (*Log[-b*x/a]*Log[a+b*x]*Log[c+d*x] + *)
-  (*1/2*Log[-b*x/a]*Log[a*(c+d*x)/(c*(a+b*x))]^2 + *)
-  (*1/2*Log[-(b*c-a*d)/(d*(a+b*x))]*Log[a*(c+d*x)/(c*(a+b*x))]^2 - *)
-  (*1/2*Log[a*(c+d*x)/(c*(a+b*x))]^2*Log[(b*c-a*d)*x/(c*(a+b*x))] - *)
-  (*Log[-b*x/a]*Log[a+b*x]*Log[1+d*x/c] + *)
-  (*Log[-(d*x/c)]*Log[a+b*x]*Log[1+d*x/c] - *)
-  (*Log[-b*x/a]*Log[a*(c+d*x)/(c*(a+b*x))]*Log[1+d*x/c] + *)
-  (*Log[-d*x/c]*Log[a*(c+d*x)/(c*(a+b*x))]*Log[1+d*x/c] + *)
-  (*1/2*Log[-b*x/a]*Log[1+d*x/c]^2 - *)
-  (*1/2*Log[-d*x/c]*Log[1+d*x/c]^2 + *)
-  (*Log[c+d*x]*PolyLog[2,1+b*x/a] - *)
-  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,1+b*x/a] - *)
-  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,a*(c+d*x)/(c*(a+b*x))] + *)
-  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,b*(c+d*x)/(d*(a+b*x))] + *)
-  (*Log[a+b*x]*PolyLog[2,1+d*x/c] + *)
-  (*Log[a*(c+d*x)/(c*(a+b*x))]*PolyLog[2,1+d*x/c] - *)
-  (*PolyLog[3,1+b*x/a] +*)
-  (*PolyLog[3,a*(c+d*x)/(c*(a+b*x))] - *)
-  (*PolyLog[3,b*(c+d*x)/(d*(a+b*x))] - *)
-  (*PolyLog[3,1+d*x/c]/;*)
-(*FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d,0]*)
-
-
-Int[Log[v_]*Log[w_]/x_,x_Symbol] :=
-  Int[Log[ExpandToSum[v,x]]*Log[ExpandToSum[w,x]]/x,x] /;
-LinearQ[{v,w},x] && Not[LinearMatchQ[{v,w},x]]
-
-
-Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/x_,x_Symbol] :=
-  p*q*Int[Log[a+b*x]*Log[i*(j*(c+d*x)^r)^s]/x,x] - 
-  (p*q*Log[a+b*x]-Log[g*(h*(a+b*x)^p)^q])*Int[Log[i*(j*(c+d*x)^r)^s]/x,x]/;
-FreeQ[{a,b,c,d,g,h,i,j,p,q,r,s},x] && NeQ[b*c-a*d,0] && NeQ[a+b*x,g*(h*(a+b*x)^p)^q]
-
-
-Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/(e_+f_.*x_),x_Symbol] :=
-  1/f*Subst[Int[Log[g*(h*Simp[-(b*e-a*f)/f+b*x/f,x]^p)^q]*Log[i*(j*Simp[-(d*e-c*f)/f+d*x/f,x]^r)^s]/x,x],x,e+f*x]/;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s},x]
-
-
-Int[(e_.+f_.*x_)^m_.*Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.],x_Symbol] :=
-  (e+f*x)^(m+1)*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s]/(f*(m+1)) - 
-  d*r*s/(f*(m+1))*Int[(e+f*x)^(m+1)*Log[g*(h*(a+b*x)^p)^q]/(c+d*x),x] - 
-  b*p*q/(f*(m+1))*Int[(e+f*x)^(m+1)*Log[i*(j*(c+d*x)^r)^s]/(a+b*x),x]/;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,m,p,q,r,s},x] && m!=-1 && RationalQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.],x_Symbol] :=
-  Defer[Int][(e+f*x)^m*Log[g*(h*(a+b*x)^p)^q]*Log[i*(j*(c+d*x)^r)^s],x]/;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,m,p,q,r,s},x]
-
-
-Int[Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.],x_Symbol] :=
-  (e+f*x)*Log[c*(d*(e+f*x)^p)^q]/f - p*q*x /;
-FreeQ[{c,d,e,f,p,q},x]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/f - b*n*p*q*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && GtQ[n,0]
-
-
-Int[1/Log[d_.*(e_.+f_.*x_)],x_Symbol] :=
-  LogIntegral[d*(e+f*x)]/(d*f) /;
-FreeQ[{d,e,f},x]
-
-
-Int[1/(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
-  (e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*ExpIntegralEi[(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
-FreeQ[{a,b,c,d,e,f,p,q},x]
-
-
-Int[1/Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
-  Sqrt[Pi]*Rt[b*p*q,2]*(e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*
-    Erfi[Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]/Rt[b*p*q,2]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && PosQ[b*p*q]
-
-
-Int[1/Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
-  Sqrt[Pi]*Rt[-b*p*q,2]*(e+f*x)/(b*f*p*q*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q)))*
-    Erf[Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]/Rt[-b*p*q,2]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && NegQ[b*p*q]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*f*p*q*(n+1)) - 
-  1/(b*p*q*(n+1))*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && LtQ[n,-1]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/
-    (f*E^(a/(b*p*q))*(c*(d*(e+f*x)^p)^q)^(1/(p*q))*(-(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q))^n)*
-    Gamma[n+1,-(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && Not[IntegerQ[2*n]]
-
-
-Int[1/((g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])),x_Symbol] :=
-  Log[RemoveContent[a+b*Log[c*(d*(e+f*x)^p)^q],x]]/(b*h*p*q) /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && EqQ[f*g-e*h,0]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
-  (a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p,q},x] && EqQ[f*g-e*h,0] && NeQ[n,-1]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(h*(m+1)) - 
-  b*n*p*q/(m+1)*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && GtQ[n,0]
-
-
-Int[(g_.+h_.*x_)^m_./Log[d_.*(e_.+f_.*x_)^p_.],x_Symbol] :=
-  (h/f)^(p-1)*LogIntegral[d*(e+f*x)^p]/(d*f*p) /;
-FreeQ[{d,e,f,g,h,m,p},x] && EqQ[m-(p-1),0] && EqQ[f*g-e*h,0] && (IntegerQ[p] || PositiveQ[h/f])
-
-
-Int[(g_.+h_.*x_)^m_/Log[d_.*(e_.+f_.*x_)^p_.],x_Symbol] :=
-  (g+h*x)^(p-1)/(e+f*x)^(p-1)*Int[(e+f*x)^(p-1)/Log[d*(e+f*x)^p],x] /;
-FreeQ[{d,e,f,g,h,m,p},x] && EqQ[m-(p-1),0] && EqQ[f*g-e*h,0] && Not[IntegerQ[p] || PositiveQ[h/f]]
-
-
-Int[(g_.+h_.*x_)^m_./(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
-  (g+h*x)^(m+1)/(b*h*p*q*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
-    ExpIntegralEi[(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1]
-
-
-Int[(g_.+h_.*x_)^m_./Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
-  Sqrt[Pi]*(g+h*x)^(m+1)/(b*h*p*q*Rt[(m+1)/(b*p*q),2]*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
-    Erfi[Rt[(m+1)/(b*p*q),2]*Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && PosQ[(m+1)/(b*p*q)]
-
-
-Int[(g_.+h_.*x_)^m_./Sqrt[a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]],x_Symbol] :=
-  Sqrt[Pi]*(g+h*x)^(m+1)/(b*h*p*q*Rt[-(m+1)/(b*p*q),2]*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q)))*
-    Erf[Rt[-(m+1)/(b*p*q),2]*Sqrt[a+b*Log[c*(d*(e+f*x)^p)^q]]] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && NegQ[(m+1)/(b*p*q)]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) - 
-  (m+1)/(b*p*q*(n+1))*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && EqQ[f*g-e*h,0] && NeQ[m,-1] && LtQ[n,-1]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/
-    (h*(m+1)*E^(a*(m+1)/(b*p*q))*(c*(d*(e+f*x)^p)^q)^((m+1)/(p*q))*(-(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q))^n)*
-    Gamma[n+1,-(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(b*p*q)] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[f*g-e*h,0] && NeQ[m,-1]
-
-
-Int[Log[c_.*(e_.+f_.*x_)]/(g_.+h_.*x_),x_Symbol] :=
-  -1/h*PolyLog[2,-Together[c*f/h]*(g+h*x)] /;
-FreeQ[{c,e,f,g,h},x] && EqQ[h+c*(f*g-e*h),0]
-
-
-Int[(a_.+b_.*Log[c_.*(e_.+f_.*x_)])/(g_.+h_.*x_),x_Symbol] :=
-  (a+b*Log[c*(e-f*g/h)])*Log[g+h*x]/h + b*Int[Log[-h*(e+f*x)/(f*g-e*h)]/(g+h*x),x] /;
-FreeQ[{a,b,c,e,f,g,h},x] && NeQ[h+c*(f*g-e*h),0] && PositiveQ[c*(e-f*g/h)]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
-  (a+b*Log[c*(d*(e+f*x)^p)^q])^n/h*Log[f*(g+h*x)/(f*g-e*h)] - 
-  b*f*n*p*q/h*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)*Log[f*(g+h*x)/(f*g-e*h)]/(e+f*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[n]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
-  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])/(h*(m+1)) - 
-  b*f*p*q/(h*(m+1))*Int[(g+h*x)^(m+1)/(e+f*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && NeQ[f*g-e*h,0] && NeQ[m,-1]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_/(g_.+h_.*x_)^2,x_Symbol] :=
-  (e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/((f*g-e*h)*(g+h*x)) - 
-  b*f*n*p*q/(f*g-e*h)*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)/(g+h*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && GtQ[n,0]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(h*(m+1)) - 
-  b*f*n*p*q/(h*(m+1))*Int[(g+h*x)^(m+1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1)/(e+f*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q},x] && NeQ[f*g-e*h,0] && GtQ[n,0] && NeQ[m,-1] && IntegersQ[2*m,2*n] && 
-  (n==1 || Not[PositiveIntegerQ[m]] || n==2 && NeQ[m,1])
-
-
-Int[(g_.+h_.*x_)^m_./(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
-  Int[ExpandIntegrand[(g+h*x)^m/(a+b*Log[c*(d*(e+f*x)^p)^q]),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[m]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  (e+f*x)*(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*f*p*q*(n+1)) + 
-  m*(f*g-e*h)/(b*f*p*q*(n+1))*Int[(g+h*x)^(m-1)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] - 
-  (m+1)/(b*p*q*(n+1))*Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && NeQ[f*g-e*h,0] && LtQ[n,-1] && GtQ[m,0]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,n,p,q},x] && NeQ[f*g-e*h,0] && PositiveIntegerQ[m]
-
-
-Int[u_^m_.*(a_.+b_.*Log[c_.*(d_.*v_^p_)^q_.])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Log[c*(d*ExpandToSum[v,x]^p)^q])^n,x] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[(g_.+h_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  Defer[Int][(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x]
-
-
-Int[Log[c_./(e_.+f_.*x_)]/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
-  f/(h*(f*i-e*j))*PolyLog[2,Simplify[f*(i+j*x)/(j*(e+f*x))]] /;
-FreeQ[{c,e,f,g,h,i,j},x] && EqQ[f*g-e*h,0] && EqQ[f*i+j*(c-e),0]
-
-
-Int[(a_+b_.*Log[c_./(e_.+f_.*x_)])/((g_.+h_.*x_)*(i_.+j_.*x_)),x_Symbol] :=
-  a*Int[1/((g+h*x)*(i+j*x)),x] + b*Int[Log[c/(e+f*x)]/((g+h*x)*(i+j*x)),x] /;
-FreeQ[{a,b,c,e,f,g,h,i,j},x] && EqQ[f*g-e*h,0] && EqQ[f*i+j*(c-e),0]
-
-
-Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(g_.+h_.*x_),x_Symbol] :=
-  With[{u=IntHide[(i+j*x)^m/(g+h*x),x]},
-  Dist[a+b*Log[c*(d*(e+f*x)^p)^q],u] - b*h*p*q*Int[SimplifyIntegrand[u/(g+h*x),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q},x] && EqQ[f*g-e*h,0] && IntegerQ[m+1/2]
-
-
-Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(e_.+f_.*x_)])^n_./(g_.+h_.*x_),x_Symbol] :=
-  1/(c^m*f^m*h)*Subst[Int[(a+b*x)^n*(c*f*i-c*e*j+j*E^x)^m,x],x,Log[c*(e+f*x)]] /;
-FreeQ[{a,b,c,e,f,g,h,i,j,n},x] && EqQ[f*g-e*h,0] && PositiveIntegerQ[m] && (IntegerQ[n] || m>0)
-
-
-Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
-  With[{u=ExpandIntegrand[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,(i+j*x)^m/(g+h*x),x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q},x] && IntegerQ[m] && PositiveIntegerQ[n]
-
-
-Int[(i_.+j_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
-  Defer[Int][(i+j*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n/(g+h*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,m,n,p,q},x]
-
-
-Int[Log[j_.*(k_.+m_.*x_)]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  -PolyLog[2,Together[1-j*(k+m*x)]]/h*(a+b*Log[c*(d*(e+f*x)^p)^q])^n + 
-  b*f*n*p*q/h*Int[PolyLog[2,Together[1-j*(k+m*x)]]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,j,k,m,p,q},x] && EqQ[h-h*j*k+g*j*m,0] && GtQ[n,0]
-
-
-Int[Log[i_.*(j_.*(k_.+m_.*x_)^r_.)^s_.]*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_./(g_.+h_.*x_),x_Symbol] :=
-  Log[i*(j*(k+m*x)^r)^s]*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(b*h*p*q*(n+1)) - 
-  m*r*s/(b*h*p*q*(n+1))*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^(n+1)/(k+m*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,n,p,q,r,s},x] && EqQ[f*g-e*h,0] && NeQ[n,-1]
-
-
-Int[Log[c_./(e_.+f_.*x_)]/(g_+h_.*x_^2),x_Symbol] :=
-  -f/(2*e*h)*PolyLog[2,Simplify[(-e+f*x)/(e+f*x)]] /;
-FreeQ[{c,e,f,g,h},x] && EqQ[f^2*g+e^2*h,0] && EqQ[c-2*e,0]
-
-
-Int[(a_.+b_.*Log[c_./(e_.+f_.*x_)])/(g_+h_.*x_^2),x_Symbol] :=
-  (a+b*Log[c/(2*e)])*Int[1/(g+h*x^2),x] + b*Int[Log[2*e/(e+f*x)]/(g+h*x^2),x] /;
-FreeQ[{c,e,f,g,h},x] && EqQ[f^2*g+e^2*h,0] && PositiveQ[c/(2*e)] && (NeQ[c-2*e,0] || NeQ[a,0])
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(g_.+h_.*x_+i_.*x_^2),x_Symbol] :=
-  e*f*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/((e+f*x)*(f*g+e*i*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,p,q},x] && EqQ[f^2*g-e*f*h+e^2*i,0]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_+f_.*x_)^p_.)^q_.])/(g_+i_.*x_^2),x_Symbol] :=
-  e*f*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/((e+f*x)*(f*g+e*i*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,i,p,q},x] && EqQ[f^2*g+e^2*i,0]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/Sqrt[g_+h_.*x_^2],x_Symbol] :=
-  With[{u=IntHide[1/Sqrt[g+h*x^2],x]},  
-  u*(a+b*Log[c*(d*(e+f*x)^p)^q]) - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && PositiveQ[g]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(Sqrt[g1_+h1_.*x_]*Sqrt[g2_+h2_.*x_]),x_Symbol] :=
-  With[{u=IntHide[1/Sqrt[g1*g2+h1*h2*x^2],x]},  
-  u*(a+b*Log[c*(d*(e+f*x)^p)^q]) - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g1,h1,g2,h2,p,q},x] && EqQ[g2*h1+g1*h2,0] && PositiveQ[g1] && PositiveQ[g2]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/Sqrt[g_+h_.*x_^2],x_Symbol] :=
-  Sqrt[1+h/g*x^2]/Sqrt[g+h*x^2]*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/Sqrt[1+h/g*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && Not[PositiveQ[g]]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])/(Sqrt[g1_+h1_.*x_]*Sqrt[g2_+h2_.*x_]),x_Symbol] :=
-  Sqrt[1+h1*h2/(g1*g2)*x^2]/(Sqrt[g1+h1*x]*Sqrt[g2+h2*x])*Int[(a+b*Log[c*(d*(e+f*x)^p)^q])/Sqrt[1+h1*h2/(g1*g2)*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,g1,h1,g2,h2,p,q},x] && EqQ[g2*h1+g1*h2,0]
-
-
-Int[Log[1+i_.*(j_.+k_.*x_)^m_.]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  -PolyLog[2,-i*(j+k*x)^m]/(h*m)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n + 
-  b*f*n*p*q/(h*m)*Int[PolyLog[2,-i*(j+k*x)^m]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,p,q},x] && GtQ[n,0] && EqQ[h*j-g*k,0]
-
-
-Int[PolyLog[r_,i_.*(j_.+k_.*x_)^m_.]/(g_.+h_.*x_)*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  PolyLog[r+1,i*(j+k*x)^m]/(h*m)*(a+b*Log[c*(d*(e+f*x)^p)^q])^n - 
-  b*f*n*p*q/(h*m)*Int[PolyLog[r+1,i*(j+k*x)^m]/(e+f*x)*(a+b*Log[c*(d*(e+f*x)^p)^q])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,k,m,p,q,r},x] && GtQ[n,0] && EqQ[h*j-g*k,0]
-
-
-Int[Px_.*F_[g_.+h_.*x_]^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.]),x_Symbol] :=
-  With[{u=IntHide[Px*F[g+h*x]^m,x]},
-  Dist[(a+b*Log[c*(d*(e+f*x)^p)^q]),u,x] - b*f*p*q*Int[SimplifyIntegrand[u/(e+f*x),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q},x] && PolynomialQ[Px,x] && PositiveIntegerQ[m] && 
-  MemberQ[{Log,ArcSin,ArcCos,ArcTan,ArcCot,ArcSinh, ArcCosh,ArcTanh, ArcCoth},F]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(e_+f_.*x_^m_)^p_.)^q_.])^n_./x_,x_Symbol] :=
-  1/m*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n/x,x],x,x^m] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.*(x_^m_*(f_+e_.*x_^r_.))^p_.)^q_.])^n_./x_,x_Symbol] :=
-  1/m*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n/x,x],x,x^m] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[m+r,0] && PositiveIntegerQ[n]
-
-
-Int[x_^r1_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_^r_)^p_.)^q_.])^n_.,x_Symbol] :=
-  1/r*Subst[Int[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x,x^r] /;
-FreeQ[{a,b,c,d,e,f,n,p,q,r},x] && EqQ[r1-(r-1),0]
-
-
-Int[x_^r1_.*(g_.+h_.*x_^r_)^m_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_^r_)^p_.)^q_.])^n_.,x_Symbol] :=
-  1/r*Subst[Int[(g+h*x)^m*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x,x^r] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q,r},x] && EqQ[r1-(r-1),0]
-
-
-Int[(a_.+b_.*Log[c_.*x_^n_.])/(d_+e_.*x_^2),x_Symbol] :=
-  With[{u=IntHide[1/(d+e*x^2),x]},  
-  Dist[(a+b*Log[c*x^n]),u] - b*n*Int[u/x,x]] /;
-FreeQ[{a,b,c,d,e,n},x]
-
-
-Int[Log[c_.*(a_.+b_.*x_^mn_)]/(x_*(d_+e_.*x_^n_.)),x_Symbol] :=
-  1/(d*n)*PolyLog[2,-Together[b*c*(d+e*x^n)/(d*x^n)]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n+mn,0] && EqQ[d-a*c*d+b*c*e,0]
-
-
-Int[Log[c_.*x_^mn_*(b_.+a_.*x_^n_.)]/(x_*(d_+e_.*x_^n_.)),x_Symbol] :=
-  1/(d*n)*PolyLog[2,-Together[b*c*(d+e*x^n)/(d*x^n)]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n+mn,0] && EqQ[d-a*c*d+b*c*e,0]
-
-
-Int[Px_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q},x] && PolynomialQ[Px,x]
-
-
-Int[RFx_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[RFx*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,p,q},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[u_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_+g_.*x_^2)^p_.)^q_.])^n_.,x_Symbol] :=
-  Int[u*(a+b*Log[c*(d*(f+2*g*x)^(2*p)/(4^p*g^p))^q])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,q,n},x] && EqQ[f^2-4*e*g,0] && IntegerQ[p]
-
-
-Int[u_.*(a_.+b_.*Log[c_.*(d_.*v_^p_.)^q_.])^n_.,x_Symbol] :=
-  Int[u*(a+b*Log[c*(d*ExpandToSum[v,x]^p)^q])^n,x] /;
-FreeQ[{a,b,c,d,n,p,q},x] && LinearQ[v,x] && 
-  Not[MatchQ[c*(d*v^p)^q, cc_.*(dd_.*(e_.+f_.*x)^pp_.)^qq_. /; FreeQ[{cc,dd,e,f,pp,qq},x]]]
-
-
-Int[Log[a_.*(b_.*(c_.*x_^n_.)^p_)^q_]^r_.,x_Symbol] :=
-  Subst[Int[Log[x^(n*p*q)]^r,x],x^(n*p*q),a*(b*(c*x^n)^p)^q] /;
-FreeQ[{a,b,c,n,p,q,r},x]
-
-
-Int[x_^m_.*Log[a_.*(b_.*(c_.*x_^n_.)^p_)^q_]^r_.,x_Symbol] :=
-  Subst[Int[x^m*Log[x^(n*p*q)]^r,x],x^(n*p*q),a*(b*(c*x^n)^p)^q] /;
-FreeQ[{a,b,c,m,n,p,q,r},x] && NeQ[m,-1] && Not[x^(n*p*q)===a*(b*(c*x^n)^p)^q]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*3.2 u log(e (f (a+b x)^p (c+d x)^q)^r)^s*)
-
-
-Int[u_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  Int[u*Log[e*(b^p*f/d^p*(c+d*x)^(p+q))^r]^s,x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && EqQ[b*c-a*d,0] && IntegerQ[p]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  (a+b*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/b - 
-  r*s/b*Int[(b*c*p+a*d*q+b*d*(p+q)*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0]
-
-
-Int[Log[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]/(g_.+h_.*x_),x_Symbol] :=
-  1/h*PolyLog[2,Together[c-a*e]/(c+d*x)] /;
-FreeQ[{a,b,c,d,e,g,h},x] && NeQ[b*c-a*d,0] && EqQ[d*g-c*h,0] && EqQ[d-b*e,0]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./(g_.+h_.*x_),x_Symbol] :=
-  -Log[-(b*c-a*d)/(d*(a+b*x))]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/h + 
-  p*r*s (b*c-a*d)/h*Int[Log[-(b*c-a*d)/(d*(a+b*x))]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[b*g-a*h,0] && EqQ[p+q,0]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]/(g_.+h_.*x_),x_Symbol] :=
-  Log[g+h*x]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]/h - 
-  b*p*r/h*Int[Log[g+h*x]/(a+b*x),x] - 
-  d*q*r/h*Int[Log[g+h*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r},x] && NeQ[b*c-a*d,0]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_/(g_.+h_.*x_),x_Symbol] :=
-  d/h*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(c+d*x),x] - 
-  (d*g-c*h)/h*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((c+d*x)*(g+h*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,1]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./(g_.+h_.*x_)^2,x_Symbol] :=
-  (a+b*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((b*g-a*h)*(g+h*x)) - 
-  p*r*s*(b*c-a*d)/(b*g-a*h)*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((c+d*x)*(g+h*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && NeQ[b*g-a*h,0]
-
-
-Int[Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_/(g_.+h_.*x_)^3,x_Symbol] :=
-  d/(d*g-c*h)*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(g+h*x)^2,x] - 
-  h/(d*g-c*h)*Int[(c+d*x)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(g+h*x)^3,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && EqQ[b*g-a*h,0] && NeQ[d*g-c*h,0]
-
-
-Int[(g_.+h_.*x_)^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  (g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(h*(m+1)) - 
-  p*r*s*(b*c-a*d)/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && NeQ[m,-1] && EqQ[p+q,0]
-
-
-Int[(g_.+h_.*x_)^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  (g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(h*(m+1)) - 
-  b*p*r*s/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(a+b*x),x] - 
-  d*q*r*s/(h*(m+1))*Int[(g+h*x)^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && NeQ[m,-1] && NeQ[p+q,0]
-
-
-Int[1/((g_.+h_.*x_)^2*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]),x_Symbol] :=
-  b*(c+d*x)*(e*(f*(a+b*x)^p*(c+d*x)^q)^r)^(1/(p*r))/(h*p*r*(b*c-a*d)*(g+h*x))*
-    ExpIntegralEi[-1/(p*r)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]] /;
-FreeQ[{a,b,c,d,e,f,g,h,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[b*g-a*h,0]
-
-
-Int[Log[i_.*(j_.*(h_.*x_)^t_.)^u_.]^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]/x_,x_Symbol] :=
-  Log[i*(j*(h*x)^t)^u]^(m+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]/(t*u*(m+1)) - 
-  b*p*r/(t*u*(m+1))*Int[Log[i*(j*(h*x)^t)^u]^(m+1)/(a+b*x),x] - 
-  d*q*r/(t*u*(m+1))*Int[Log[i*(j*(h*x)^t)^u]^(m+1)/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f,h,i,j,m,p,q,r,t,u},x] && NeQ[b*c-a*d,0] && IGtQ[m,0]
-
-
-Int[Log[i_.*(j_.*(h_.*x_)^t_.)^u_.]^m_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_./x_,x_Symbol] :=
-  Defer[Int][Log[i*(j*(h*x)^t)^u]^m*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/x,x] /;
-FreeQ[{a,b,c,d,e,f,h,i,j,m,p,q,r,s,t,u},x] && NeQ[b*c-a*d,0]
-
-
-Int[u_*Log[e_.*(c_.+d_.*x_)/(a_.+b_.*x_)],x_Symbol] :=
-  With[{g=Coeff[Simplify[1/(u*(a+b*x))],x,0],h=Coeff[Simplify[1/(u*(a+b*x))],x,1]},
-  -(b-d*e)*PolyLog[2,(b-d*e)*(g+h*x)/(h*(a+b*x))]/(e*h*(b*c-a*d)) /;
- EqQ[g*(b-d*e)-h*(a-c*e),0]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*c-a*d,0] && LinearQ[Simplify[1/(u*(a+b*x))],x]
-
-
-Int[u_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{g=Coeff[Simplify[1/(u*(a+b*x))],x,0],h=Coeff[Simplify[1/(u*(a+b*x))],x,1]},
-  -Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*g-a*h)*Log[-(b*c-a*d)*(g+h*x)/((d*g-c*h)*(a+b*x))] + 
-  p*r*s*(b*c-a*d)/(b*g-a*h)*
-    Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x))*Log[-(b*c-a*d)*(g+h*x)/((d*g-c*h)*(a+b*x))],x] /;
- NeQ[b*g-a*h,0] && NeQ[d*g-c*h,0]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0] && LinearQ[Simplify[1/(u*(a+b*x))],x]
-
-
-Int[u_/Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
-  With[{h=Simplify[u*(a+b*x)*(c+d*x)]},
-  h*Log[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]]/(p*r*(b*c-a*d)) /;
- FreeQ[h,x]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0]
-
-
-Int[u_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{h=Simplify[u*(a+b*x)*(c+d*x)]},
-  h*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(p*r*(s+1)*(b*c-a*d)) /;
- FreeQ[h,x]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && NeQ[s,-1]
-
-
-Int[u_*Log[v_]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{g=Simplify[(v-1)*(c+d*x)/(a+b*x)],h=Simplify[u*(a+b*x)*(c+d*x)]},
-  -h*PolyLog[2,-g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*c-a*d) + 
-  h*p*r*s*Int[PolyLog[2,-g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
- FreeQ[{g,h},x]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0]
-
-
-Int[v_*Log[i_.*(j_.*(g_.+h_.*x_)^t_.)^u_.]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{k=Simplify[v*(a+b*x)*(c+d*x)]},
-  k*Log[i*(j*(g+h*x)^t)^u]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(p*r*(s+1)*(b*c-a*d)) - 
-  k*h*t*u/(p*r*(s+1)*(b*c-a*d))*Int[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s+1)/(g+h*x),x] /;
- FreeQ[k,x]] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s,t,u},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && NeQ[s,-1]
-
-
-Int[u_*PolyLog[n_,v_]*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{g=Simplify[v*(c+d*x)/(a+b*x)],h=Simplify[u*(a+b*x)*(c+d*x)]},
-  h*PolyLog[n+1,g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/(b*c-a*d) - 
-  h*p*r*s*Int[PolyLog[n+1,g*(a+b*x)/(c+d*x)]*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1)/((a+b*x)*(c+d*x)),x] /;
- FreeQ[{g,h},x]] /;
-FreeQ[{a,b,c,d,e,f,n,p,q,r,s},x] && NeQ[b*c-a*d,0] && IGtQ[s,0] && EqQ[p+q,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^(n+1)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s/((m+1)*(b*c-a*d)) - 
-  p*r*s*(b*c-a*d)/((m+1)*(b*c-a*d))*Int[(a+b*x)^m*(c+d*x)^n*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^(s-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r,s},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[m+n+2,0] && NeQ[m,-1] && IGtQ[s,0]
-
-
-Int[(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_./Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
-  (a+b*x)^(m+1)*(c+d*x)^(n+1)/(p*r*(b*c-a*d)*(e*(f*(a+b*x)^p*(c+d*x)^q)^r)^((m+1)/(p*r)))*
-    ExpIntegralEi[(m+1)/(p*r)*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q,r},x] && NeQ[b*c-a*d,0] && EqQ[p+q,0] && EqQ[m+n+2,0] && NeQ[m,-1]
-
-
-Int[RFx_.*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
-  p*r*Int[RFx*Log[a+b*x],x] + 
-  q*r*Int[RFx*Log[c+d*x],x] - 
-  (p*r*Log[a+b*x]+q*r*Log[c+d*x] - Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r])*Int[RFx,x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && RationalFunctionQ[RFx,x] && NeQ[b*c-a*d,0] && 
-  Not[MatchQ[RFx,u_.*(a+b*x)^m_.*(c+d*x)^n_. /; IntegersQ[m,n]]]
-
-
-(* Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.],x_Symbol] :=
-  With[{u=IntHide[RFx,x]},  
-  u*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r] - b*p*r*Int[u/(a+b*x),x] - d*q*r*Int[u/(c+d*x),x] /;
- NonsumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r},x] && RationalFunctionQ[RFx,x] && NeQ[b*c-a*d,0] *)
-
-
-Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && RationalFunctionQ[RFx,x] && IGtQ[s,0]
-
-
-Int[RFx_*Log[e_.*(f_.*(a_.+b_.*x_)^p_.*(c_.+d_.*x_)^q_.)^r_.]^s_.,x_Symbol] :=
-  Defer[Int][RFx*Log[e*(f*(a+b*x)^p*(c+d*x)^q)^r]^s,x] /;
-FreeQ[{a,b,c,d,e,f,p,q,r,s},x] && RationalFunctionQ[RFx,x]
-
-
-Int[u_.*Log[e_.*(f_.*v_^p_.*w_^q_.)^r_.]^s_.,x_Symbol] :=
-  Int[u*Log[e*(f*ExpandToSum[v,x]^p*ExpandToSum[w,x]^q)^r]^s,x] /;
-FreeQ[{e,f,p,q,r,s},x] && LinearQ[{v,w},x] && Not[LinearMatchQ[{v,w},x]]
-
-
-Int[u_.*Log[e_.*(f_.*(g_+v_/w_))^r_.]^s_.,x_Symbol] :=
-  Int[u*Log[e*(f*ExpandToSum[g*w+v,x]/ExpandToSum[w,x])^r]^s,x] /;
-FreeQ[{e,f,g,r,s},x] && LinearQ[{v,w},x]
-
-
-(* Int[Log[g_.*(h_.*(a_.+b_.*x_)^p_.)^q_.]*Log[i_.*(j_.*(c_.+d_.*x_)^r_.)^s_.]/(e_+f_.*x_),x_Symbol] :=
-  1/f*Subst[Int[Log[g*(h*Simp[-(b*e-a*f)/f+b*x/f,x]^p)^q]*Log[i*(j*Simp[-(d*e-c*f)/f+d*x/f,x]^r)^s]/x,x],x,e+f*x] /;
-FreeQ[{a,b,c,d,e,f,g,h,i,j,p,q,r,s},x] *)
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*3.3 Miscellaneous logarithms*)
-
-
-Int[Log[c_.*(a_.+b_.*x_^n_)^p_.],x_Symbol] :=
-  x*Log[c*(a+b*x^n)^p] -
-  b*n*p*Int[x^n/(a+b*x^n),x] /;
-FreeQ[{a,b,c,n,p},x]
-
-
-Int[Log[c_.*v_^p_.],x_Symbol] :=
-  Int[Log[c*ExpandToSum[v,x]^p],x] /;
-FreeQ[{c,p},x] && BinomialQ[v,x] && Not[BinomialMatchQ[v,x]]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.])/(f_.+g_.*x_),x_Symbol] :=
-  Log[f+g*x]*(a+b*Log[c*(d+e*x^n)^p])/g - 
-  b*e*n*p/g*Int[x^(n-1)*Log[f+g*x]/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x]
-
-
-Int[(f_.+g_.*x_)^m_.*(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.]),x_Symbol] :=
-  (f+g*x)^(m+1)*(a+b*Log[c*(d+e*x^n)^p])/(g*(m+1)) - 
-  b*e*n*p/(g*(m+1))*Int[x^(n-1)*(f+g*x)^(m+1)/(d+e*x^n),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[m+1]
-
-
-Int[u_^m_.*(a_.+b_.*Log[c_.*v_^p_.]),x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Log[c*ExpandToSum[v,x]^p]),x] /;
-FreeQ[{a,b,c,m,p},x] && LinearQ[u,x] && BinomialQ[v,x] && Not[LinearMatchQ[u,x] && BinomialMatchQ[v,x]]
-
-
-Int[ArcSin[f_.+g_.*x_]^m_.*(a_.+b_.*Log[c_.*(d_.+e_.*x_^n_)^p_.]),x_Symbol] :=
-  With[{w=IntHide[ArcSin[f+g*x]^m,x]},  
-  Dist[a+b*Log[c*(d+e*x^n)^p],w,x] - 
-  b*e*n*p*Int[SimplifyIntegrand[x^(n-1)*w/(d+e*x^n),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && PositiveIntegerQ[m]
-
-
-Int[(a_.+b_.*Log[c_.*(d_.+e_.*x_^2)^p_.])/(f_.+g_.*x_^2),x_Symbol] :=
-  With[{u=IntHide[1/(f+g*x^2),x]},  
-  u*(a+b*Log[c*(d+e*x^2)^p]) - 2*b*e*p*Int[(x*u)/(d+e*x^2),x]] /;
-FreeQ[{a,b,c,d,e,f,g,p},x]
-
-
-Int[(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
-  x*(a+b*Log[c*(d+e*x^2)^p])^n - 
-  2*b*e*n*p*Int[x^2*(a+b*Log[c*(d+e*x^2)^p])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
-  1/2*Subst[Int[x^((m-1)/2)*(a+b*Log[c*(d+e*x)^p])^n,x],x,x^2] /;
-FreeQ[{a,b,c,d,e,p},x] && PositiveIntegerQ[n] && IntegerQ[(m-1)/2]
-
-
-Int[x_^m_.*(a_.+b_.*Log[c_.*(d_+e_.*x_^2)^p_.])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*Log[c*(d+e*x^2)^p])^n/(m+1) - 
-  2*b*e*n*p/(m+1)*Int[x^(m+2)*(a+b*Log[c*(d+e*x^2)^p])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && PositiveIntegerQ[n] && Not[IntegerQ[(m-1)/2]]
-
-
-Int[u_*Log[v_],x_Symbol] :=
-  With[{w=DerivativeDivides[v,u*(1-v),x]},
-  w*PolyLog[2,Together[1-v]] /;
- Not[FalseQ[w]]]
-
-
-Int[(a_.+b_.*Log[u_])*Log[v_]*w_,x_Symbol] :=
-  With[{z=DerivativeDivides[v,w*(1-v),x]},
-  z*(a+b*Log[u])*PolyLog[2,Together[1-v]] - 
-  b*Int[SimplifyIntegrand[z*PolyLog[2,Together[1-v]]*D[u,x]/u,x],x] /;
- Not[FalseQ[z]]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x]
-
-
-Int[Log[c_.*(a_+b_.*(d_.+e_.*x_)^n_)^p_.],x_Symbol] :=
-  (d+e*x)*Log[c*(a+b*(d+e*x)^n)^p]/e -
-  b*n*p*Int[1/(b+a*(d+e*x)^(-n)),x] /;
-FreeQ[{a,b,c,d,e,p},x] && RationalQ[n] && n<0
-
-
-Int[Log[c_.*(a_+b_.*(d_.+e_.*x_)^n_.)^p_.],x_Symbol] :=
-  (d+e*x)*Log[c*(a+b*(d+e*x)^n)^p]/e - n*p*x +
-  a*n*p*Int[1/(a+b*(d+e*x)^n),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[RationalQ[n] && n<0]
-
-
-Int[(a_.+b_.*Log[c_.*(d_+e_./(f_.+g_.*x_))^p_.])^n_.,x_Symbol] :=
-  (e+d*(f+g*x))*(a+b*Log[c*(d+e/(f+g*x))^p])^n/(d*g) - 
-  b*e*n*p/(d*g)*Subst[Int[(a+b*Log[c*(d+e*x)^p])^(n-1)/x,x],x,1/(f+g*x)] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
-  x*(a+b*Log[c*RFx^p])^n - 
-  b*n*p*Int[SimplifyIntegrand[x*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x],x] /;
-FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*Log[c_.*RFx_^p_.])^n_./(d_.+e_.*x_),x_Symbol] :=
-  Log[d+e*x]*(a+b*Log[c*RFx^p])^n/e - 
-  b*n*p/e*Int[Log[d+e*x]*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x] /;
-FreeQ[{a,b,c,d,e,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*Log[c*RFx^p])^n/(e*(m+1)) - 
-  b*n*p/(e*(m+1))*Int[SimplifyIntegrand[(d+e*x)^(m+1)*(a+b*Log[c*RFx^p])^(n-1)*D[RFx,x]/RFx,x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && (n==1 || IntegerQ[m]) && NeQ[m+1]
-
-
-Int[Log[c_.*RFx_^n_.]/(d_+e_.*x_^2),x_Symbol] :=
-  With[{u=IntHide[1/(d+e*x^2),x]},  
-  u*Log[c*RFx^n] - n*Int[SimplifyIntegrand[u*D[RFx,x]/RFx,x],x]] /;
-FreeQ[{c,d,e,n},x] && RationalFunctionQ[RFx,x] && Not[PolynomialQ[RFx,x]]
-
-
-Int[Log[c_.*Px_^n_.]/Qx_,x_Symbol] :=
-  With[{u=IntHide[1/Qx,x]},  
-  u*Log[c*Px^n] - n*Int[SimplifyIntegrand[u*D[Px,x]/Px,x],x]] /;
-FreeQ[{c,n},x] && QuadraticQ[{Qx,Px},x] && EqQ[D[Px/Qx,x]]
-
-
-Int[RGx_*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(a+b*Log[c*RFx^p])^n,RGx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && RationalFunctionQ[RGx,x] && PositiveIntegerQ[n]
-
-
-Int[RGx_*(a_.+b_.*Log[c_.*RFx_^p_.])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[RGx*(a+b*Log[c*RFx^p])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,p},x] && RationalFunctionQ[RFx,x] && RationalFunctionQ[RGx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_.+b_.*Log[u_]),x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfLinear[RFx*(a+b*Log[u]),x]},
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
- Not[FalseQ[lst]]] /;
-FreeQ[{a,b},x] && RationalFunctionQ[RFx,x]
-
-
-Int[(f_.+g_.*x_)^m_.*Log[1+e_.*(F_^(c_.*(a_.+b_.*x_)))^n_.],x_Symbol] :=
-  -(f+g*x)^m*PolyLog[2,-e*(F^(c*(a+b*x)))^n]/(b*c*n*Log[F]) + 
-  g*m/(b*c*n*Log[F])*Int[(f+g*x)^(m-1)*PolyLog[2,-e*(F^(c*(a+b*x)))^n],x] /;
-FreeQ[{F,a,b,c,e,f,g,n},x] && RationalQ[m] && m>0
-
-
-Int[(f_.+g_.*x_)^m_.*Log[d_+e_.*(F_^(c_.*(a_.+b_.*x_)))^n_.],x_Symbol] :=
-  (f+g*x)^(m+1)*Log[d+e*(F^(c*(a+b*x)))^n]/(g*(m+1)) - 
-  (f+g*x)^(m+1)*Log[1+e/d*(F^(c*(a+b*x)))^n]/(g*(m+1)) + 
-  Int[(f+g*x)^m*Log[1+e/d*(F^(c*(a+b*x)))^n],x] /;
-FreeQ[{F,a,b,c,d,e,f,g,n},x] && RationalQ[m] && m>0 && NeQ[d-1]
-
-
-Int[Log[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
-  x*Log[d+e*x+f*Sqrt[a+b*x+c*x^2]] + 
-  f^2*(b^2-4*a*c)/2*Int[x/((2*d*e-b*f^2)*(a+b*x+c*x^2)-f*(b*d-2*a*e+(2*c*d-b*e)*x)*Sqrt[a+b*x+c*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e^2-c*f^2]
-
-
-Int[Log[d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]],x_Symbol] :=
-  x*Log[d+e*x+f*Sqrt[a+c*x^2]] - 
-  a*c*f^2*Int[x/(d*e*(a+c*x^2)+f*(a*e-c*d*x)*Sqrt[a+c*x^2]),x] /;
-FreeQ[{a,c,d,e,f},x] && EqQ[e^2-c*f^2]
-
-
-Int[(g_.*x_)^m_.*Log[d_.+e_.*x_+f_.*Sqrt[a_.+b_.*x_+c_.*x_^2]],x_Symbol] :=
-  (g*x)^(m+1)*Log[d+e*x+f*Sqrt[a+b*x+c*x^2]]/(g*(m+1)) + 
-  f^2*(b^2-4*a*c)/(2*g*(m+1))*Int[(g*x)^(m+1)/((2*d*e-b*f^2)*(a+b*x+c*x^2)-f*(b*d-2*a*e+(2*c*d-b*e)*x)*Sqrt[a+b*x+c*x^2]),x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && EqQ[e^2-c*f^2] && NeQ[m+1] && IntegerQ[2*m]
-
-
-Int[(g_.*x_)^m_.*Log[d_.+e_.*x_+f_.*Sqrt[a_.+c_.*x_^2]],x_Symbol] :=
-  (g*x)^(m+1)*Log[d+e*x+f*Sqrt[a+c*x^2]]/(g*(m+1)) - 
-  a*c*f^2/(g*(m+1))*Int[(g*x)^(m+1)/(d*e*(a+c*x^2)+f*(a*e-c*d*x)*Sqrt[a+c*x^2]),x] /;
-FreeQ[{a,c,d,e,f,g,m},x] && EqQ[e^2-c*f^2] && NeQ[m+1] && IntegerQ[2*m]
-
-
-Int[v_.*Log[d_.+e_.*x_+f_.*Sqrt[u_]],x_Symbol] :=
-  Int[v*Log[d+e*x+f*Sqrt[ExpandToSum[u,x]]],x] /;
-FreeQ[{d,e,f},x] && QuadraticQ[u,x] && Not[QuadraticMatchQ[u,x]] && (EqQ[v-1] || MatchQ[v,(g_.*x)^m_. /; FreeQ[{g,m},x]])
-
-
-Int[Log[u_],x_Symbol] :=
-  x*Log[u] - Int[SimplifyIntegrand[x*D[u,x]/u,x],x] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[Log[u_]/(a_.+b_.*x_),x_Symbol] :=
-  Log[a+b*x]*Log[u]/b -
-  1/b*Int[SimplifyIntegrand[Log[a+b*x]*D[u,x]/u,x],x] /;
-FreeQ[{a,b},x] && RationalFunctionQ[D[u,x]/u,x] && (NeQ[a] || Not[BinomialQ[u,x] && EqQ[BinomialDegree[u,x]^2-1]])
-
-
-Int[(a_.+b_.*x_)^m_.*Log[u_],x_Symbol] :=
-  (a+b*x)^(m+1)*Log[u]/(b*(m+1)) - 
-  1/(b*(m+1))*Int[SimplifyIntegrand[(a+b*x)^(m+1)*D[u,x]/u,x],x] /;
-FreeQ[{a,b,m},x] && InverseFunctionFreeQ[u,x] && NeQ[m+1] (* && Not[FunctionOfQ[x^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]] *)
-
-
-Int[Log[u_]/Qx_,x_Symbol] :=
-  With[{v=IntHide[1/Qx,x]},  
-  v*Log[u] - Int[SimplifyIntegrand[v*D[u,x]/u,x],x]] /;
-QuadraticQ[Qx,x] && InverseFunctionFreeQ[u,x]
-
-
-(* Int[x_^m_.*Px_.*Log[u_],x_Symbol] :=
-  With[{v=IntHide[x^m*Px,x]},  
-  Dist[Log[u],v] - Int[SimplifyIntegrand[v*D[u,x]/u,x],x]] /;
-FreeQ[m,x] && PolynomialQ[Px,x] && InverseFunctionFreeQ[u,x] *)
-
-
-Int[u_^(a_.*x_)*Log[u_],x_Symbol] :=
-  u^(a*x)/a - Int[SimplifyIntegrand[x*u^(a*x-1)*D[u,x],x],x] /;
-FreeQ[a,x] && InverseFunctionFreeQ[u,x]
-
-
-Int[v_*Log[u_],x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[Log[u],w,x] - 
-  Int[SimplifyIntegrand[w*D[u,x]/u,x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[Log[v_]*Log[w_],x_Symbol] :=
-  x*Log[v]*Log[w] - 
-  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/v,x],x] - 
-  Int[SimplifyIntegrand[x*Log[v]*D[w,x]/w,x],x] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-Int[u_*Log[v_]*Log[w_],x_Symbol] :=
-  With[{z=IntHide[u,x]},  
-  Dist[Log[v]*Log[w],z,x] - 
-  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/v,x],x] - 
-  Int[SimplifyIntegrand[z*Log[v]*D[w,x]/w,x],x] /;
- InverseFunctionFreeQ[z,x]] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-Int[Log[a_.*Log[b_.*x_^n_.]^p_.],x_Symbol] :=
-  x*Log[a*Log[b*x^n]^p] - 
-  n*p*Int[1/Log[b*x^n],x] /;
-FreeQ[{a,b,n,p},x]
-
-
-Int[Log[a_.*Log[b_.*x_^n_.]^p_.]/x_,x_Symbol] :=
-  Log[b*x^n]*(-p+Log[a*Log[b*x^n]^p])/n /;
-FreeQ[{a,b,n,p},x]
-
-
-Int[x_^m_.*Log[a_.*Log[b_.*x_^n_.]^p_.],x_Symbol] :=
-  x^(m+1)*Log[a*Log[b*x^n]^p]/(m+1) - 
-  n*p/(m+1)*Int[x^m/Log[b*x^n],x] /;
-FreeQ[{a,b,m,n,p},x] && NeQ[m+1]
-
-
-Int[(A_.+B_.*Log[c_.+d_.*x_])/Sqrt[a_+b_.*Log[c_.+d_.*x_]],x_Symbol] :=
-  (b*A-a*B)/b*Int[1/Sqrt[a+b*Log[c+d*x]],x] +
-  B/b*Int[Sqrt[a+b*Log[c+d*x]],x] /;
-FreeQ[{a,b,c,d,A,B},x] && NeQ[b*A-a*B]
-
-
-Int[f_^(a_.*Log[u_]),x_Symbol] :=
-  Int[u^(a*Log[f]),x] /;
-FreeQ[{a,f},x]
-
-
-(* If[ShowSteps,
-
-Int[u_/x_,x_Symbol] :=
-  With[{lst=FunctionOfLog[u,x]},
-  ShowStep["","Int[F[Log[a*x^n]]/x,x]","Subst[Int[F[x],x],x,Log[a*x^n]]/n",Hold[
-  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]]]] /;
- Not[FalseQ[lst]]] /;
-SimplifyFlag && NonsumQ[u],
-
-Int[u_/x_,x_Symbol] :=
-  With[{lst=FunctionOfLog[u,x]},
-  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]] /;
- Not[FalseQ[lst]]] /;
-NonsumQ[u]] *)
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfLog[Cancel[x*u],x]},
-  ShowStep["","Int[F[Log[a*x^n]]/x,x]","Subst[Int[F[x],x],x,Log[a*x^n]]/n",Hold[
-  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]]]] /;
- Not[FalseQ[lst]]] /;
-SimplifyFlag && NonsumQ[u],
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfLog[Cancel[x*u],x]},
-  1/lst[[3]]*Subst[Int[lst[[1]],x],x,Log[lst[[2]]]] /;
- Not[FalseQ[lst]]] /;
-NonsumQ[u]]
-
-
-Int[u_.*Log[Gamma[v_]],x_Symbol] :=
-  (Log[Gamma[v]]-LogGamma[v])*Int[u,x] + Int[u*LogGamma[v],x]
-
-
-Int[u_.*(a_. w_+b_. w_*Log[v_]^n_.)^p_.,x_Symbol] :=
-  Int[u*w^p*(a+b*Log[v]^n)^p,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[p]
-
-
-Int[u_.*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  Defer[Int][u*(a+b*Log[c*(d*(e+f*x)^p)^q])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q},x] && AlgebraicFunctionQ[u,x]
-
-
-
-`)
+(* ::Text:: *)
+(*(g Cos[e+f x])^p (a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
 
-func resourcesRubi3LogarithmsMBytes() ([]byte, error) {
-	return _resourcesRubi3LogarithmsM, nil
-}
 
-func resourcesRubi3LogarithmsM() (*asset, error) {
-	bytes, err := resourcesRubi3LogarithmsMBytes()
-	if err != nil {
-		return nil, err
-	}
+UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
+  (g*sin[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
+FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
 
-	info := bindataFileInfo{name: "resources/rubi/3 Logarithms.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi41SineM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Trig Function Product Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.0 (a sin)^m (b trg)^n*)
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  Int[DeactivateTrig[u,x],x] /;
-SimplifyFlag && FunctionOfTrigOfLinearQ[u,x],
-
-Int[u_,x_Symbol] :=
-  Int[DeactivateTrig[u,x],x] /;
-FunctionOfTrigOfLinearQ[u,x]]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*cos[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (a*Sin[e+f*x])^(m+1)*(b*Cos[e+f*x])^(n+1)/(a*b*f*(m+1)) /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n+2,0] && NeQ[m,-1]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*cos[e_.+f_.*x_]^n_.,x_Symbol] :=
-  1/(a*f)*Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Sin[e+f*x]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[(m-1)/2] && 0<m<n]
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_.*sin[e_.+f_.*x_]^n_.,x_Symbol] :=
-  -1/(a*f)*Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Cos[e+f*x]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[(m-1)/2] && 0<m<=n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*(a*Sin[e+f*x])^(m-1)*(b*Cos[e+f*x])^(n+1)/(b*f*(n+1)) + 
-  a^2*(m-1)/(b^2*(n+1))*Int[(a*Sin[e+f*x])^(m-2)*(b*Cos[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && GtQ[m,1] && LtQ[n,-1] && (IntegersQ[2*m,2*n] || EqQ[m+n,0])
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(a*Cos[e+f*x])^(m-1)*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) + 
-  a^2*(m-1)/(b^2*(n+1))*Int[(a*Cos[e+f*x])^(m-2)*(b*Sin[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && GtQ[m,1] && LtQ[n,-1] && (IntegersQ[2*m,2*n] || EqQ[m+n,0])
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*(b*Cos[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m-1)/(b*f*(m+n)) + 
-  a^2*(m-1)/(m+n)*Int[(b*Cos[e+f*x])^n*(a*Sin[e+f*x])^(m-2),x] /;
-FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m+n,0] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(b*Sin[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m-1)/(b*f*(m+n)) + 
-  a^2*(m-1)/(m+n)*Int[(b*Sin[e+f*x])^n*(a*Cos[e+f*x])^(m-2),x] /;
-FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m+n,0] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*Cos[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m+1)/(a*b*f*(m+1)) + 
-  (m+n+2)/(a^2*(m+1))*Int[(b*Cos[e+f*x])^n*(a*Sin[e+f*x])^(m+2),x] /;
-FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(b*Sin[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m+1)/(a*b*f*(m+1)) + 
-  (m+n+2)/(a^2*(m+1))*Int[(b*Sin[e+f*x])^n*(a*Cos[e+f*x])^(m+2),x] /;
-FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
-
-
-Int[Sqrt[a_.*sin[e_.+f_.*x_]]*Sqrt[b_.*cos[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[a*Sin[e+f*x]]*Sqrt[b*Cos[e+f*x]]/Sqrt[Sin[2*e+2*f*x]]*Int[Sqrt[Sin[2*e+2*f*x]],x] /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[1/(Sqrt[a_.*sin[e_.+f_.*x_]]*Sqrt[b_.*cos[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[Sin[2*e+2*f*x]]/(Sqrt[a*Sin[e+f*x]]*Sqrt[b*Cos[e+f*x]])*Int[1/Sqrt[Sin[2*e+2*f*x]],x] /;
-FreeQ[{a,b,e,f},x]
-
-
-(* Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sin[e+f*x])^m*(b*Cos[e+f*x])^n/(a*Tan[e+f*x])^m*Int[(a*Tan[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n,0] *)
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k*a*b/f*Subst[Int[x^(k*(m+1)-1)/(a^2+b^2*x^(2*k)),x],x,(a*Sin[e+f*x])^(1/k)/(b*Cos[e+f*x])^(1/k)]] /;
-FreeQ[{a,b,e,f},x] && EqQ[m+n,0] && GtQ[m,0] && LtQ[m,1]
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k*a*b/f*Subst[Int[x^(k*(m+1)-1)/(a^2+b^2*x^(2*k)),x],x,(a*Cos[e+f*x])^(1/k)/(b*Sin[e+f*x])^(1/k)]] /;
-FreeQ[{a,b,e,f},x] && EqQ[m+n,0] && GtQ[m,0] && LtQ[m,1]
-
-
-(* Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^(2*IntPart[(n-1)/2]+1)*(b*Cos[e+f*x])^(2*FracPart[(n-1)/2])/(a*f*(Cos[e+f*x]^2)^FracPart[(n-1)/2])*
-    Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m,n},x] && (RationalQ[n] || Not[RationalQ[m]] && (EqQ[b-1] || NeQ[a-1])) *)
-
-
-(* Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^(2*IntPart[(n-1)/2]+1)*(b*Sin[e+f*x])^(2*FracPart[(n-1)/2])/(a*f*(Sin[e+f*x]^2)^FracPart[(n-1)/2])*
-    Subst[Int[x^m*(1-x^2/a^2)^((n-1)/2),x],x,a*Cos[e+f*x]] /;
-FreeQ[{a,b,e,f,m,n},x] *)
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^(2*IntPart[(n-1)/2]+1)*(b*Sin[e+f*x])^(2*FracPart[(n-1)/2])*(a*Cos[e+f*x])^(m+1)/(a*f*(m+1)*(Sin[e+f*x]^2)^FracPart[(n-1)/2])*
-    Hypergeometric2F1[(1+m)/2,(1-n)/2,(3+m)/2,Cos[e+f*x]^2] /;
-FreeQ[{a,b,e,f,m,n},x] && SimplerQ[n,m]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^(2*IntPart[(n-1)/2]+1)*(b*Cos[e+f*x])^(2*FracPart[(n-1)/2])*(a*Sin[e+f*x])^(m+1)/(a*f*(m+1)*(Cos[e+f*x]^2)^FracPart[(n-1)/2])*
-    Hypergeometric2F1[(1+m)/2,(1-n)/2,(3+m)/2,Sin[e+f*x]^2] /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
-  b*(a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+1)) /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m-n+2,0] && NeQ[m,1]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*b*(a*Sin[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) - 
-  a^2*b^2*(m-1)/(n-1)*Int[(a*Sin[e+f*x])^(m-2)*(b*Sec[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f},x] && GtQ[n,1] && GtQ[m,1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m-n)) - 
-  (n+1)/(b^2*(m-n))*Int[(a*Sin[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m+1)) - 
-  (n+1)/(a^2*b^2*(m+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Sec[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && LtQ[n,-1] && LtQ[m,-1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n+1)/(a*b*f*(m-n)) - 
-  (n+1)/(b^2*(m-n))*Int[(a*Sin[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f,m},x] && LtQ[n,-1] && NeQ[m-n,0] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*b*(a*Sin[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(m-n)) + 
-  a^2*(m-1)/(m-n)*Int[(a*Sin[e+f*x])^(m-2)*(b*Sec[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && NeQ[m-n,0] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Sin[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+1)) + 
-  (m-n+2)/(a^2*(m+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Sec[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*Cos[e+f*x])^n*(b*Sec[e+f*x])^n*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && IntegerQ[m-1/2] && IntegerQ[n-1/2]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  1/b^2*(b*Cos[e+f*x])^(n+1)*(b*Sec[e+f*x])^(n+1)*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && LtQ[n,1]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*(b*Cos[e+f*x])^(n-1)*(b*Sec[e+f*x])^(n-1)*Int[(a*Sin[e+f*x])^m/(b*Cos[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*b)^IntPart[n]*(a*Sin[e+f*x])^FracPart[n]*(b*Csc[e+f*x])^FracPart[n]*Int[(a*Sin[e+f*x])^(m-n),x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.0 (a trg)^m (b tan)^n*)
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  -b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n-1]
-
-
-Int[sin[e_.+f_.*x_]^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
-  -1/f*Subst[Int[(1-x^2)^((m+n-1)/2)/x^n,x],x,Cos[e+f*x]] /;
-FreeQ[{e,f},x] && IntegersQ[m,n,(m+n-1)/2]
-
-
-Int[sin[e_.+f_.*x_]^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  b*ff/f*Subst[Int[(ff*x)^(m+n)/(b^2+ff^2*x^2)^(m/2+1),x],x,b*Tan[e+f*x]/ff]] /;
-FreeQ[{b,e,f,n},x] && IntegerQ[m/2]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[(ff*x)^(m+n)/(a^2-ff^2*x^2)^((n+1)/2),x],x,a*Sin[e+f*x]/ff]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-1)/(a^2*f*(n-1)) - 
-  b^2*(m+2)/(a^2*(n-1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f},x] && GtQ[n,1] && (LtQ[m,-1] || EqQ[m,-1] && EqQ[n,3/2]) && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*(n-1)) - 
-  b^2*(m+n-1)/(n-1)*Int[(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n] && Not[GtQ[m,1] && Not[IntegerQ[(m-1)/2]]]
-
-
-Int[Sqrt[a_.*sin[e_.+f_.*x_]]/(b_.*tan[e_.+f_.*x_])^(3/2),x_Symbol]:=
-  2*Sqrt[a*Sin[e+f*x]]/(b*f*Sqrt[b*Tan[e+f*x]]) + a^2/b^2*Int[Sqrt[b*Tan[e+f*x]]/(a*Sin[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) - 
-  a^2*(n+1)/(b^2*m)*Int[(a*Sin[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && LtQ[n,-1] && GtQ[m,1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  (a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*(m+n+1)) - 
-  (n+1)/(b^2*(m+n+1))*Int[(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f,m},x] && LtQ[n,-1] && NeQ[m+n+1,0] && IntegersQ[2*m,2*n] && Not[n==-3/2 && EqQ[m,1]]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol]:=
-  -b*(a*Sin[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) + 
-  a^2*(m+n-1)/m*Int[(a*Sin[e+f*x])^(m-2)*(b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && (GtQ[m,1] || EqQ[m,1] && EqQ[n,1/2]) && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol]:=
-  b*(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-1)/(a^2*f*(m+n+1)) + 
-  (m+2)/(a^2*(m+n+1))*Int[(a*Sin[e+f*x])^(m+2)*(b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && LtQ[m,-1] && NeQ[m+n+1,0] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_*tan[e_.+f_.*x_]^n_,x_Symbol]:=
-  1/a^n*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[n] && Not[IntegerQ[m]]
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  Cos[e+f*x]^n*(b*Tan[e+f*x])^n/(a*Sin[e+f*x])^n*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]] && (ILtQ[m,0] || EqQ[m,1] && EqQ[n,-1/2] || IntegersQ[m-1/2,n-1/2])
-
-
-Int[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  a*Cos[e+f*x]^(n+1)*(b*Tan[e+f*x])^(n+1)/(b*(a*Sin[e+f*x])^(n+1))*Int[(a*Sin[e+f*x])^(m+n)/Cos[e+f*x]^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]]
-
-
-Int[(a_.*cos[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/a)^FracPart[m]*Int[(b*Tan[e+f*x])^n/(Sec[e+f*x]/a)^m,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-Int[(a_.*cot[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Cot[e+f*x])^m*(b*Tan[e+f*x])^m*Int[(b*Tan[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  -(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n+1]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a/f*Subst[Int[(a*x)^(m-1)*(-1+x^2)^((n-1)/2),x],x,Sec[e+f*x]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n-1)/2] && Not[IntegerQ[m/2] && 0<m<n+1]
-
-
-Int[sec[e_.+f_.*x_]^m_*(b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  1/f*Subst[Int[(b*x)^n*(1+x^2)^(m/2-1),x],x,Tan[e+f*x]] /;
-FreeQ[{b,e,f,n},x] && IntegerQ[m/2] && Not[IntegerQ[(n-1)/2] && 0<n<m-1]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
-  a^2*(m-2)/(b^2*(n+1))*Int[(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && RationalQ[m,n] && n<-1 && (m>1 || m==1 && n==-3/2) && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
-  (m+n+1)/(b^2*(n+1))*Int[(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n<-1 && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*m) - 
-  b^2*(n-1)/(a^2*m)*Int[(a*Sec[e+f*x])^(m+2)*(b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f},x] && RationalQ[m,n] && n>1 && (m<-1 || m==-1 && n==3/2) && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) - 
-  b^2*(n-1)/(m+n-1)*Int[(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n>1 && NeQ[m+n-1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)/(b*f*m) + 
-  (m+n+1)/(a^2*m)*Int[(a*Sec[e+f*x])^(m+2)*(b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && RationalQ[m] && (m<-1 || m==-1 && RationalQ[n] && n==-1/2) && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^(n+1)/(b*f*(m+n-1)) + 
-  a^2*(m-2)/(m+n-1)*Int[(a*Sec[e+f*x])^(m-2)*(b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && RationalQ[m] && (m>1 || m==1 && RationalQ[n] && n==1/2) && NeQ[m+n-1] && IntegersQ[2*m,2*n]
-
-
-Int[sec[e_.+f_.*x_]/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol]:=
-  Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*Sqrt[b*Tan[e+f*x]])*Int[1/(Sqrt[Cos[e+f*x]]*Sqrt[Sin[e+f*x]]),x] /;
-FreeQ[{b,e,f},x]
-
-
-Int[Sqrt[b_.*tan[e_.+f_.*x_]]/sec[e_.+f_.*x_],x_Symbol]:=
-  Sqrt[Cos[e+f*x]]*Sqrt[b*Tan[e+f*x]]/Sqrt[Sin[e+f*x]]*Int[Sqrt[Cos[e+f*x]]*Sqrt[Sin[e+f*x]],x] /;
-FreeQ[{b,e,f},x]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  a^(m+n)*(b*Tan[e+f*x])^n/((a*Sec[e+f*x])^n*(b*Sin[e+f*x])^n)*Int[(b*Sin[e+f*x])^n/Cos[e+f*x]^(m+n),x] /;
-FreeQ[{a,b,e,f,m,n},x] && IntegerQ[n+1/2] && IntegerQ[m+1/2]
-
-
-(* Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)*(Cos[e+f*x]^2)^((m+n+1)/2)/(b*f*(b*Sin[e+f*x])^(n+1))*
-    Subst[Int[x^n/(1-x^2/b^2)^((m+n+1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[(n-1)/2]] && Not[IntegerQ[m/2]] *)
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol]:=
-  (a*Sec[e+f*x])^m*(b*Tan[e+f*x])^(n+1)*(Cos[e+f*x]^2)^((m+n+1)/2)/(b*f*(n+1))*
-    Hypergeometric2F1[(n+1)/2,(m+n+1)/2,(n+3)/2,Sin[e+f*x]^2] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[(n-1)/2]] && Not[IntegerQ[m/2]]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/a)^FracPart[m]*Int[(b*Tan[e+f*x])^n/(Sin[e+f*x]/a)^m,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.0 (a csc)^m (b sec)^n*)
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) /;
-FreeQ[{a,b,e,f,m,n},x] && EqQ[m+n-2] && NeQ[n-1]
-
-
-Int[csc[e_.+f_.*x_]^m_.*sec[e_.+f_.*x_]^n_.,x_Symbol] :=
-  1/f*Subst[Int[(1+x^2)^((m+n)/2-1)/x^m,x],x,Tan[e+f*x]] /;
-FreeQ[{e,f},x] && IntegersQ[m,n,(m+n)/2]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*sec[e_.+f_.*x_]^n_.,x_Symbol] :=
-  -1/(f*a^n)*Subst[Int[x^(m+n-1)/(-1+x^2/a^2)^((n+1)/2),x],x,a*Csc[e+f*x]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2] && Not[IntegerQ[(m+1)/2] && 0<m<n]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_*csc[e_.+f_.*x_]^n_.,x_Symbol] :=
-  1/(f*a^n)*Subst[Int[x^(m+n-1)/(-1+x^2/a^2)^((n+1)/2),x],x,a*Sec[e+f*x]] /;
-FreeQ[{a,e,f,m},x] && IntegerQ[(n+1)/2] && Not[IntegerQ[(m+1)/2] && 0<m<n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)/(f*b*(m-1)) + 
-  a^2*(n+1)/(b^2*(m-1))*Int[(a*Csc[e+f*x])^(m-2)*(b*Sec[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f},x] && RationalQ[m,n] && m>1 && n<-1 && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a*Csc[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(f*a*(n-1)) + 
-  b^2*(m+1)/(a^2*(n-1))*Int[(a*Csc[e+f*x])^(m+2)*(b*Sec[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f},x] && RationalQ[m,n] && m<-1 && n>1 && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
-  -a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(m-1)) + 
-  a^2*(m+n-2)/(m-1)*Int[(a*Csc[e+f*x])^(m-2)*(b*Sec[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && GtQ[m,1] && IntegersQ[2*m,2*n] && Not[n>m]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*b*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n-1)/(f*(n-1)) + 
-  b^2*(m+n-2)/(n-1)*Int[(a*Csc[e+f*x])^m*(b*Sec[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,e,f,m},x] && GtQ[n,1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_.,x_Symbol] :=
-  b*(a*Csc[e+f*x])^(m+1)*(b*Sec[e+f*x])^(n-1)/(a*f*(m+n)) + 
-  (m+1)/(a^2*(m+n))*Int[(a*Csc[e+f*x])^(m+2)*(b*Sec[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,n},x] && RationalQ[m] && m<-1 && NeQ[m+n] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)/(b*f*(m+n)) + 
-  (n+1)/(b^2*(m+n))*Int[(a*Csc[e+f*x])^m*(b*Sec[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,e,f,m},x] && RationalQ[n] && n<-1 && NeQ[m+n] && IntegersQ[2*m,2*n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Csc[e+f*x])^m*(b*Sec[e+f*x])^n/Tan[e+f*x]^n*Int[Tan[e+f*x]^n,x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[IntegerQ[n]] && EqQ[m+n]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a*Csc[e+f*x])^m*(b*Sec[e+f*x])^n*(a*Sin[e+f*x])^m*(b*Cos[e+f*x])^n*Int[(a*Sin[e+f*x])^(-m)*(b*Cos[e+f*x])^(-n),x] /;
-FreeQ[{a,b,e,f,m,n},x] && IntegerQ[m-1/2] && IntegerQ[n-1/2]
-
-
-Int[(a_.*csc[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2/b^2*(a*Csc[e+f*x])^(m-1)*(b*Sec[e+f*x])^(n+1)*(a*Sin[e+f*x])^(m-1)*(b*Cos[e+f*x])^(n+1)*
-    Int[(a*Sin[e+f*x])^(-m)*(b*Cos[e+f*x])^(-n),x] /;
-FreeQ[{a,b,e,f,m,n},x] && Not[SimplerQ[-m,-n]]
-
-
-Int[(a_.*sec[e_.+f_.*x_])^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2/b^2*(a*Sec[e+f*x])^(m-1)*(b*Csc[e+f*x])^(n+1)*(a*Cos[e+f*x])^(m-1)*(b*Sin[e+f*x])^(n+1)*
-    Int[(a*Cos[e+f*x])^(-m)*(b*Sin[e+f*x])^(-n),x] /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-
-
-
-(* ::Section:: *)
-(*Sine Function Integration Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.1.1 (a+b sin)^n*)
-
-
-Int[sin[c_.+d_.*x_]^n_,x_Symbol] :=
-  -1/d*Subst[Int[Expand[(1-x^2)^((n-1)/2),x],x],x,Cos[c+d*x]] /;
-FreeQ[{c,d},x] && PositiveIntegerQ[(n-1)/2]
-
-
-Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-(* -Cot[c+d*x]*(c*Sin[c+d*x])^n/(d*n) + b^2*(n-1)/n*Int[(b*Sin[c+d*x])^(n-2),x] *)
-  -b*Cos[c+d*x]*(b*Sin[c+d*x])^(n-1)/(d*n) + b^2*(n-1)/n*Int[(b*Sin[c+d*x])^(n-2),x] /;
-FreeQ[{b,c,d},x] && IntegerQ[2*n] && n>1
-
-
-Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  Cos[c+d*x]*(b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  (n+2)/(b^2*(n+1))*Int[(b*Sin[c+d*x])^(n+2),x] /;
-FreeQ[{b,c,d},x] && IntegerQ[2*n] && n<-1
-
-
-Int[sin[c_.+Pi/2+d_.*x_],x_Symbol] :=
-  Sin[c+d*x]/d /;
-FreeQ[{c,d},x]
-
-
-Int[sin[c_.+d_.*x_],x_Symbol] :=
-  -Cos[c+d*x]/d /;
-FreeQ[{c,d},x]
-
-
-(* Int[1/sin[c_.+d_.*x_],x_Symbol] :=
-  Int[Csc[c+d*x],x] /;
-FreeQ[{c,d},x] *)
-
-
-Int[Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
-  2/d*EllipticE[1/2*(c-Pi/2+d*x),2] /;
-FreeQ[{c,d},x]
-
-
-Int[Sqrt[b_*sin[c_.+d_.*x_]],x_Symbol] :=
-  Sqrt[b*Sin[c+d*x]]/Sqrt[Sin[c+d*x]]*Int[Sqrt[Sin[c+d*x]],x] /;
-FreeQ[{b,c,d},x]
-
-
-Int[1/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
-  2/d*EllipticF[1/2*(c-Pi/2+d*x),2] /;
-FreeQ[{c,d},x]
-
-
-Int[1/Sqrt[b_*sin[c_.+d_.*x_]],x_Symbol] :=
-  Sqrt[Sin[c+d*x]]/Sqrt[b*Sin[c+d*x]]*Int[1/Sqrt[Sin[c+d*x]],x] /;
-FreeQ[{b,c,d},x]
-
-
-(* Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  Cos[c+d*x]/(b*d*Sqrt[Cos[c+d*x]^2])*Subst[Int[x^n/Sqrt[1-x^2/b^2],x],x,b*Sin[c+d*x]] /;
-FreeQ[{b,c,d,n},x] && Not[IntegerQ[2*n]] *)
-
-
-Int[(b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  Cos[c+d*x]*(b*Sin[c+d*x])^(n+1)/(b*d*(n+1)*Sqrt[Cos[c+d*x]^2])*Hypergeometric2F1[1/2,(n+1)/2,(n+3)/2,Sin[c+d*x]^2] /;
-FreeQ[{b,c,d,n},x] && Not[IntegerQ[2*n]]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^2,x_Symbol] :=
-  (2*a^2+b^2)*x/2 - 2*a*b*Cos[c+d*x]/d - b^2*Cos[c+d*x]*Sin[c+d*x]/(2*d) /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(a+b*sin[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[n]
-
-
-Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  -2*b*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]]) /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n-1)/(d*n) +
-  a*(2*n-1)/n*Int[(a+b*Sin[c+d*x])^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2]
-
-
-Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  -Cos[c+d*x]/(d*(b+a*Sin[c+d*x])) /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
-
-
-Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  -2/d*Subst[Int[1/(2*a-x^2),x],x,b*Cos[c+d*x]/Sqrt[a+b*Sin[c+d*x]]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*Cos[c+d*x]*(a+b*Sin[c+d*x])^n/(a*d*(2*n+1)) +
-  (n+1)/(a*(2*n+1))*Int[(a+b*Sin[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
-
-
-(* Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^2*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]]*Sqrt[a-b*Sin[c+d*x]])*Subst[Int[(a+b*x)^(n-1/2)/Sqrt[a-b*x],x],x,Sin[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] *)
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -2^(n+1/2)*a^(n-1/2)*b*Cos[c+d*x]/(d*Sqrt[a+b*Sin[c+d*x]])*Hypergeometric2F1[1/2,1/2-n,3/2,1/2*(1-b*Sin[c+d*x]/a)] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && PositiveQ[a]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^IntPart[n]*(a+b*Sin[c+d*x])^FracPart[n]/(1+b/a*Sin[c+d*x])^FracPart[n]*Int[(1+b/a*Sin[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && Not[PositiveQ[a]]
-
-
-Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  2*Sqrt[a+b]/d*EllipticE[1/2*(c-Pi/2+d*x),2*b/(a+b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a+b]
-
-
-Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  2*Sqrt[a-b]/d*EllipticE[1/2*(c+Pi/2+d*x),-2*b/(a-b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a-b]
-
-
-Int[Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  Sqrt[a+b*Sin[c+d*x]]/Sqrt[(a+b*Sin[c+d*x])/(a+b)]*Int[Sqrt[a/(a+b)+b/(a+b)*Sin[c+d*x]],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && Not[PositiveQ[a+b]]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n-1)/(d*n) + 
-  1/n*Int[(a+b*Sin[c+d*x])^(n-2)*Simp[a^2*n+b^2*(n-1)+a*b*(2*n-1)*Sin[c+d*x],x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
-
-
-Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  With[{q=Rt[a^2-b^2,2]},
-  x/q + 2/(d*q)*ArcTan[b*Cos[c+d*x]/(a+q+b*Sin[c+d*x])]] /;
-FreeQ[{a,b,c,d},x] && PositiveQ[a^2-b^2] && PosQ[a]
-
-
-Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  With[{q=Rt[a^2-b^2,2]},
-  -x/q - 2/(d*q)*ArcTan[b*Cos[c+d*x]/(a-q+b*Sin[c+d*x])]] /;
-FreeQ[{a,b,c,d},x] && PositiveQ[a^2-b^2] && NegQ[a]
-
-
-Int[1/(a_+b_.*sin[c_.+Pi/2+d_.*x_]),x_Symbol] :=
-  With[{e=FreeFactors[Tan[(c+d*x)/2],x]},
-  2*e/d*Subst[Int[1/(a+b+(a-b)*e^2*x^2),x],x,Tan[(c+d*x)/2]/e]] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[1/(a_+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  With[{e=FreeFactors[Tan[(c+d*x)/2],x]},
-  2*e/d*Subst[Int[1/(a+2*b*e*x+a*e^2*x^2),x],x,Tan[(c+d*x)/2]/e]] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  2/(d*Sqrt[a+b])*EllipticF[1/2*(c-Pi/2+d*x),2*b/(a+b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a+b]
-
-
-Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  2/(d*Sqrt[a-b])*EllipticF[1/2*(c+Pi/2+d*x),-2*b/(a-b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && PositiveQ[a-b]
-
-
-Int[1/Sqrt[a_+b_.*sin[c_.+d_.*x_]],x_Symbol] :=
-  Sqrt[(a+b*Sin[c+d*x])/(a+b)]/Sqrt[a+b*Sin[c+d*x]]*Int[1/Sqrt[a/(a+b)+b/(a+b)*Sin[c+d*x]],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && Not[PositiveQ[a+b]]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*Cos[c+d*x]*(a+b*Sin[c+d*x])^(n+1)/(d*(n+1)*(a^2-b^2)) + 
-  1/((n+1)*(a^2-b^2))*Int[(a+b*Sin[c+d*x])^(n+1)*Simp[a*(n+1)-b*(n+2)*Sin[c+d*x],x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  Cos[c+d*x]/(d*Sqrt[1+Sin[c+d*x]]*Sqrt[1-Sin[c+d*x]])*Subst[Int[(a+b*x)^n/(Sqrt[1+x]*Sqrt[1-x]),x],x,Sin[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*n]]
-
-
-Int[(a_+b_.*sin[c_.+d_.*x_]*cos[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[(a+b*Sin[2*c+2*d*x]/2)^n,x] /;
-FreeQ[{a,b,c,d,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.1.2 (g cos)^p (a+b sin)^m*)
-
-
-Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  1/(b^p*f)*Subst[Int[(a+x)^(m+(p-1)/2)*(a-x)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2] && (p>=-1 || Not[IntegerQ[m+1/2] && EqQ[a^2-b^2]])
-
-
-Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  1/(b^p*f)*Subst[Int[(a+x)^m*(b^2-x^2)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)/(f*g*(p+1)) + a*Int[(g*Cos[e+f*x])^p,x] /;
-FreeQ[{a,b,e,f,g,p},x] && (IntegerQ[2*p] || NeQ[a^2-b^2])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && p<-1 && 2*m+p>=0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*m) /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[Simplify[m+p+1]] && Not[NegativeIntegerQ[p]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*Simplify[2*m+p+1]) + 
-  Simplify[m+p+1]/(a*Simplify[2*m+p+1])*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+p+1]] && NeQ[2*m+p+1] && Not[PositiveIntegerQ[m]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m-1)) /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && NeQ[m-1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
-  a*(2*m+p-1)/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[(2*m+p-1)/2]] && NeQ[m+p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(p+1)) + 
-  a*(m+p+1)/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>0 && p<=-2*m && IntegersQ[m+1/2,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(p+1)) + 
-  b^2*(2*m+p-1)/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-2),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>1 && p<-1 && IntegersQ[2*m,2*p]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[g_.*cos[e_.+f_.*x_]],x_Symbol] :=
-  a*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sqrt[1+Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] + 
-  b*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sin[e+f*x]/(Sqrt[g*Cos[e+f*x]]*Sqrt[1+Cos[e+f*x]]),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
-  a*(2*m+p-1)/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m>0 && NeQ[m+p] && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+p)) + 
-  g^2*(p-1)/(a*(m+p))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && (m>-2 || EqQ[2*m+p+1] || m==-2 && IntegerQ[p]) && 
-  NeQ[m+p] && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  2*g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+p+1)) + 
-  g^2*(p-1)/(b^2*(2*m+p+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+2),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m<=-2 && p>1 && NeQ[2*m+p+1] && Not[NegativeIntegerQ[m+p+1]] && 
-  IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) + 
-  (m+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && NeQ[2*m+p+1] && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)/(b*f*(p-1)) + g^2/a*Int[(g*Cos[e+f*x])^(p-2),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p>1 && IntegerQ[2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)/(a*f*g*(p-1)*(a+b*Sin[e+f*x])) + 
-  p/(a*(p-1))*Int[(g*Cos[e+f*x])^p,x] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && Not[RationalQ[p] && p>=1] && IntegerQ[2*p]
-
-
-Int[Sqrt[g_.*cos[e_.+f_.*x_]]/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  g*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(a+a*Cos[e+f*x]+b*Sin[e+f*x])*Int[Sqrt[1+Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] - 
-  g*Sqrt[1+Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(b+b*Cos[e+f*x]+a*Sin[e+f*x])*Int[Sin[e+f*x]/(Sqrt[g*Cos[e+f*x]]*Sqrt[1+Cos[e+f*x]]),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  g*Sqrt[g*Cos[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(b*f) + 
-  g^2/(2*a)*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[g*Cos[e+f*x]],x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2*b*(g*Cos[e+f*x])^(p+1)/(f*g*(2*p-1)*(a+b*Sin[e+f*x])^(3/2)) + 
-  2*a*(p-2)/(2*p-1)*Int[(g*Cos[e+f*x])^p/(a+b*Sin[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p>2 && IntegerQ[2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)/(a*f*g*(p+1)*Sqrt[a+b*Sin[e+f*x]]) + 
-  a*(2*p+1)/(2*g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)/(a+b*Sin[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  a^m*(g*Cos[e+f*x])^(p+1)/(f*g*(1+Sin[e+f*x])^((p+1)/2)*(1-Sin[e+f*x])^((p+1)/2))*
-    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  a^2*(g*Cos[e+f*x])^(p+1)/(f*g*(a+b*Sin[e+f*x])^((p+1)/2)*(a-b*Sin[e+f*x])^((p+1)/2))*
-    Subst[Int[(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*Sin[e+f*x]/(f*g*(p+1)) + 
-  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)*(a*(p+2)+b*(m+p+2)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && 0<m<1 && p<-1 && (IntegersQ[2*m,2*p] || IntegerQ[m])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(b+a*Sin[e+f*x])/(f*g*(p+1)) + 
-  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-2)*(b^2*(m-1)+a^2*(p+2)+a*b*(m+p+1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m>1 && p<-1 && (IntegersQ[2*m,2*p] || IntegerQ[m])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)/(f*g*(m+p)) + 
-  1/(m+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-2)*(b^2*(m-1)+a^2*(m+p)+a*b*(2*m+p-1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && NeQ[m+p] && (IntegersQ[2*m,2*p] || IntegerQ[m])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) + 
-  g^2*(p-1)/(b*(m+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)*Sin[e+f*x],x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a^2-b^2)*(m+1)) + 
-  1/((a^2-b^2)*(m+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(a*(m+1)-b*(m+p+2)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+p)) + 
-  g^2*(p-1)/(b*(m+p))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^m*(b+a*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p>1 && NeQ[m+p] && IntegersQ[2*m,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)*(b-a*Sin[e+f*x])/(f*g*(a^2-b^2)*(p+1)) + 
-  1/(g^2*(a^2-b^2)*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m*(a^2*(p+2)-b^2*(m+p+2)+a*b*(m+p+3)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegersQ[2*m,2*p]
-
-
-Int[1/(Sqrt[g_.*cos[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2*Sqrt[2]*Sqrt[g*Cos[e+f*x]]*Sqrt[(a+b*Sin[e+f*x])/((a-b)*(1-Sin[e+f*x]))]/
-   (f*g*Sqrt[a+b*Sin[e+f*x]]*Sqrt[(1+Cos[e+f*x]+Sin[e+f*x])/(1+Cos[e+f*x]-Sin[e+f*x])])*
-   Subst[Int[1/Sqrt[1+(a+b)*x^4/(a-b)],x],x,Sqrt[(1+Cos[e+f*x]+Sin[e+f*x])/(1+Cos[e+f*x]-Sin[e+f*x])]] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(1-Sin[e+f*x])*(a+b*Sin[e+f*x])^(m+1)*(-(a-b)*(1-Sin[e+f*x])/((a+b)*(1+Sin[e+f*x])))^(m/2)/
-    (f*(a+b)*(m+1))*
-    Hypergeometric2F1[m+1,m/2+1,m+2,2*(a+b*Sin[e+f*x])/((a+b)*(1+Sin[e+f*x]))] /;
-FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && EqQ[m+p+1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a-b)*(p+1)) + 
-  a/(g^2*(a-b))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && EqQ[m+p+2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a-b)*(p+1)) - 
-  b*(m+p+2)/(g^2*(a-b)*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m,x] + 
-  a/(g^2*(a-b))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+p+2]
-
-
-Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  With[{q=Rt[-a^2+b^2,2]},
-  a*g/(2*b)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q+b*Cos[e+f*x])),x] - 
-  a*g/(2*b)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q-b*Cos[e+f*x])),x] + 
-  b*g/f*Subst[Int[Sqrt[x]/(g^2*(a^2-b^2)+b^2*x^2),x],x,g*Cos[e+f*x]]] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[1/(Sqrt[g_.*cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  With[{q=Rt[-a^2+b^2,2]},
-  -a/(2*q)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q+b*Cos[e+f*x])),x] - 
-  a/(2*q)*Int[1/(Sqrt[g*Cos[e+f*x]]*(q-b*Cos[e+f*x])),x] + 
-  b*g/f*Subst[Int[1/(Sqrt[x]*(g^2*(a^2-b^2)+b^2*x^2)),x],x,g*Cos[e+f*x]]] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)/
-    (b*f*(m+p)*(-b*(1-Sin[e+f*x])/(a+b*Sin[e+f*x]))^((p-1)/2)*(b*(1+Sin[e+f*x])/(a+b*Sin[e+f*x]))^((p-1)/2))*
-  AppellF1[-p-m,(1-p)/2,(1-p)/2,1-p-m,(a+b)/(a+b*Sin[e+f*x]),(a-b)/(a+b*Sin[e+f*x])] /;
-FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m] && Not[PositiveIntegerQ[m+p+1]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)/(f*(1-(a+b*Sin[e+f*x])/(a-b))^((p-1)/2)*(1-(a+b*Sin[e+f*x])/(a+b))^((p-1)/2))*
-    Subst[Int[(-b/(a-b)-b*x/(a-b))^((p-1)/2)*(b/(a+b)-b*x/(a+b))^((p-1)/2)*(a+b*x)^m,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,g,m,p},x] && NeQ[a^2-b^2] && Not[PositiveIntegerQ[m]]
-
-
-Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  g^(2*IntPart[p])*(g*Cos[e+f*x])^FracPart[p]*(g*Sec[e+f*x])^FracPart[p]*Int[(a+b*Sin[e+f*x])^m/(g*Cos[e+f*x])^p,x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.1.3 (g tan)^p (a+b sin)^m*)
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  1/a*Int[Sec[e+f*x]^2*(g*Tan[e+f*x])^p,x] - 1/(b*g)*Int[Sec[e+f*x]*(g*Tan[e+f*x])^(p+1),x] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && NeQ[p+1]
-
-
-Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  1/f*Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[(p+1)/2]
-
-
-Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  a^p*Int[Sin[e+f*x]^p/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && p==2*m
-
-
-Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a^p*Int[ExpandIntegrand[Sin[e+f*x]^p*(a+b*Sin[e+f*x])^(m-p/2)/(a-b*Sin[e+f*x])^(p/2),x],x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,p/2] && (p<0 || m-p/2>0)
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Int[ExpandIntegrand[(g*Tan[e+f*x])^p,(a+b*Sin[e+f*x])^m,x],x] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a^(2*m)*Int[ExpandIntegrand[(g*Tan[e+f*x])^p*Sec[e+f*x]^(-m),(a*Sec[e+f*x]-b*Tan[e+f*x])^(-m),x],x] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[m]
-
-
-Int[tan[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(a+b*Sin[e+f*x])^m/(a*f*(2*m-1)*Cos[e+f*x]) - 
-  1/(a^2*(2*m-1))*Int[(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m-1)*Sin[e+f*x])/Cos[e+f*x]^2,x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && RationalQ[m] && m<0
-
-
-Int[tan[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Cos[e+f*x]) + 
-  1/(b*m)*Int[(a+b*Sin[e+f*x])^m*(b*(m+1)+a*Sin[e+f*x])/Cos[e+f*x]^2,x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[RationalQ[m] && m<0]
-
-
-Int[tan[e_.+f_.*x_]^4*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m,x] - Int[(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2)/Cos[e+f*x]^4,x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^2,x_Symbol] :=
-  -(a+b*Sin[e+f*x])^(m+1)/(a*f*Tan[e+f*x]) + 
-  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*(b*m-a*(m+1)*Sin[e+f*x])/Sin[e+f*x],x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && m<-1
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_./tan[e_.+f_.*x_]^2,x_Symbol] :=
-  -(a+b*Sin[e+f*x])^m/(f*Tan[e+f*x]) + 
-  1/a*Int[(a+b*Sin[e+f*x])^m*(b*m-a*(m+1)*Sin[e+f*x])/Sin[e+f*x],x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && Not[m<-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
-  -2/(a*b)*Int[(a+b*Sin[e+f*x])^(m+2)/Sin[e+f*x]^3,x] + 
-  1/a^2*Int[(a+b*Sin[e+f*x])^(m+2)*(1+Sin[e+f*x]^2)/Sin[e+f*x]^4,x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && m<-1
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m,x] + Int[(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2)/Sin[e+f*x]^4,x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && Not[m<-1]
-
-
-Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]]/(b*f*Cos[e+f*x])*
-    Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && IntegerQ[p/2]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (g*Tan[e+f*x])^(p+1)*(a-b*Sin[e+f*x])^((p+1)/2)*(a+b*Sin[e+f*x])^((p+1)/2)/(f*g*(b*Sin[e+f*x])^(p+1))*
-    Subst[Int[x^p*(a+x)^(m-(p+1)/2)/(a-x)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[IntegerQ[p]]
-
-
-Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  1/f*Subst[Int[(x^p*(a+x)^m)/(b^2-x^2)^((p+1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && IntegerQ[(p+1)/2]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Int[ExpandIntegrand[(g*Tan[e+f*x])^p,(a+b*Sin[e+f*x])^m,x],x] /;
-FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^2,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m*(1-Sin[e+f*x]^2)/Sin[e+f*x]^2,x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
-  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
-  (3*a^2+b^2*(m-2))*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a^2*b*f*(m+1)*Sin[e+f*x]^2) - 
-  1/(3*a^2*b*(m+1))*Int[(a+b*Sin[e+f*x])^(m+1)/Sin[e+f*x]^3*
-    Simp[6*a^2-b^2*(m-1)*(m-2)+a*b*(m+1)*Sin[e+f*x]-(3*a^2-b^2*m*(m-2))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
-
-
-(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
-  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Sin[e+f*x]^2) - 
-  1/(3*a*b*m)*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^3*
-    Simp[6*a^2-b^2*m*(m-2)+a*b*(m+3)*Sin[e+f*x]-(3*a^2-b^2*m*(m-1))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1] && IntegerQ[2*m] *)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^4,x_Symbol] :=
-  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(3*a*f*Sin[e+f*x]^3) - 
-  b*(m-2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(6*a^2*f*Sin[e+f*x]^2) - 
-  1/(6*a^2)*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^2*
-    Simp[8*a^2-b^2*(m-1)*(m-2)+a*b*m*Sin[e+f*x]-(6*a^2-b^2*m*(m-2))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1] && IntegerQ[2*m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_/tan[e_.+f_.*x_]^6,x_Symbol] :=
-  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(5*a*f*Sin[e+f*x]^5) - 
-  b*(m-4)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(20*a^2*f*Sin[e+f*x]^4) + 
-  a*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*m*(m-1)*Sin[e+f*x]^3) + 
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*m*Sin[e+f*x]^2) + 
-  1/(20*a^2*b^2*m*(m-1))*Int[(a+b*Sin[e+f*x])^m/Sin[e+f*x]^4*
-    Simp[60*a^4-44*a^2*b^2*(m-1)*m+b^4*m*(m-1)*(m-3)*(m-4)+a*b*m*(20*a^2-b^2*m*(m-1))*Sin[e+f*x]-
-      (40*a^4+b^4*m*(m-1)*(m-2)*(m-4)-20*a^2*b^2*(m-1)*(2*m+1))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && NeQ[m-1] && IntegerQ[2*m]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  a/(a^2-b^2)*Int[(g*Tan[e+f*x])^p/Sin[e+f*x]^2,x] - 
-  b*g/(a^2-b^2)*Int[(g*Tan[e+f*x])^(p-1)/Cos[e+f*x],x] - 
-  a^2*g^2/(a^2-b^2)*Int[(g*Tan[e+f*x])^(p-2)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*p] && p>1
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  1/a*Int[(g*Tan[e+f*x])^p/Cos[e+f*x]^2,x] - 
-  b/(a^2*g)*Int[(g*Tan[e+f*x])^(p+1)/Cos[e+f*x],x] - 
-  (a^2-b^2)/(a^2*g^2)*Int[(g*Tan[e+f*x])^(p+2)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*p] && p<-1
-
-
-Int[Sqrt[g_.*tan[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  Sqrt[Cos[e+f*x]]*Sqrt[g*Tan[e+f*x]]/Sqrt[Sin[e+f*x]]*Int[Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[1/(Sqrt[g_*tan[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  Sqrt[Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*Sqrt[g*Tan[e+f*x]])*Int[Sqrt[Cos[e+f*x]]/(Sqrt[Sin[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[tan[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[ExpandIntegrand[Sin[e+f*x]^p*(a+b*Sin[e+f*x])^m/(1-Sin[e+f*x]^2)^(p/2),x],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && IntegersQ[m,p/2]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Defer[Int][(g*Tan[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-Int[(g_.*cot[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.,x_Symbol] :=
-  g^(2*IntPart[p])*(g*Cot[e+f*x])^FracPart[p]*(g*Tan[e+f*x])^FracPart[p]*Int[(a+b*Sin[e+f*x])^m/(g*Tan[e+f*x])^p,x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.2.1 (a+b sin)^m (c+d sin)^n*)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (2*a*c+b*d)*x/2 - (b*c+a*d)*Cos[e+f*x]/f - b*d*Cos[e+f*x]*Sin[e+f*x]/(2*f) /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  b*x/d - (b*c-a*d)/d*Int[1/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  a*c*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[Cos[e+f*x]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Sin[e+f*x]]) /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NeQ[n+1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(2*n+1)) - 
-  b*(2*m-1)/(d*(2*n+1))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m-1/2] && RationalQ[n] && n<-1 && 
-  Not[NegativeIntegerQ[m+n] && 2*m+n+1>0]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(m+n)) + 
-  a*(2*m-1)/(m+n)*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m-1/2] && Not[RationalQ[n] && n<-1] && 
-  Not[PositiveIntegerQ[n-1/2] && n<m] && Not[NegativeIntegerQ[m+n] && 2*m+n+1>0]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[1/Cos[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+1] && NeQ[m+1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
-  (m+n+1)/(a*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+n+1]] && NeQ[m+1/2] && 
-  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
-  (m+n+1)/(a*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && 
-  Not[RationalQ[n] && m<n<-1] && IntegersQ[2*m,2*n]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/Cos[e+f*x]^(2*FracPart[m])*
-    Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (FractionQ[m] || Not[FractionQ[n]])
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^2/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b^2*Cos[e+f*x]/(d*f) + 1/d*Int[Simp[a^2*d-b*(b*c-2*a*d)*Sin[e+f*x],x]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[1/((a_.+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(a+b*Sin[e+f*x]),x] - d/(b*c-a*d)*Int[1/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  c*Int[(b*Sin[e+f*x])^m,x] + d/b*Int[(b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{b,c,d,e,f,m},x]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[a*d*m+b*c*(m+1)]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
-  (a*d*m+b*c*(m+1))/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) + 
-  (a*d*m+b*c*(m+1))/(b*(m+1))*Int[(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  (b*c-a*d)/b*Int[1/Sqrt[a+b*Sin[e+f*x]],x] + d/b*Int[Sqrt[a+b*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(f*(m+1)) + 
-  1/(m+1)*Int[(a+b*Sin[e+f*x])^(m-1)*Simp[b*d*m+a*c*(m+1)+(a*d*m+b*c*(m+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && IntegerQ[2*m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[(a*c-b*d)*(m+1)-(b*c-a*d)*(m+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  c*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*Subst[Int[(a+b*x)^m*Sqrt[1+d/c*x]/Sqrt[1-d/c*x],x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]] && EqQ[c^2-d^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)/b*Int[(a+b*Sin[e+f*x])^m,x] + d/b*Int[(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(d*sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && RationalQ[n]
-
-
-Int[sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) - 
-  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m+1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*(b*(m+1)-a*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])/(a*f*(2*m+1)) + 
-  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*c*d*(m-1)+b*(d^2+c^2*(m+1))+d*(a*d*(m-1)+b*c*(m+2))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  -d^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[b*(d^2*(m+1)+c^2*(m+2))-d*(a*d-2*b*c*(m+2))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)) + 
-  b^2/(d*(n+1)*(b*c+a*d))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[a*c*(m-2)-b*d*(m-2*n-4)-(b*c*(m-1)-a*d*(m+2*n+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1 && n<-1 && 
-  (IntegersQ[2*m,2*n] || IntegerQ[m+1/2] || IntegerQ[m] && EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^n*
-    Simp[a*b*c*(m-2)+b^2*d*(n+1)+a^2*d*(m+n)-b*(b*c*(m-1)-a*d*(3*m+2*n-2))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1 && 
-  Not[RationalQ[n] && n<-1] && (IntegersQ[2*m,2*n] || IntegerQ[m+1/2] || IntegerQ[m] && EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*Simp[a*d*n-b*c*(m+1)-b*d*(m+n+1)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
-  (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)/(a*f*(2*m+1)) + 
-  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-2)*
-    Simp[b*(c^2*(m+1)+d^2*(n-1))+a*c*d*(m-n+1)+d*(a*d*(m-n+1)+b*c*(m+n))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && n>1 && 
-  (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(a*f*(2*m+1)*(b*c-a*d)) + 
-  1/(a*(2*m+1)*(b*c-a*d))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[b*c*(m+1)-a*d*(2*m+n+2)+b*d*(m+n+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
-  Not[RationalQ[n] && n>0] && (IntegersQ[2*m,2*n] || IntegerQ[m] && EqQ[c])
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n-1)/(a*f*(a+b*Sin[e+f*x])) - 
-  d/(a*b)*Int[(c+d*Sin[e+f*x])^(n-2)*Simp[b*d*(n-1)-a*c*n+(b*c*(n-1)-a*d*n)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && 
-  (IntegerQ[2*n] || EqQ[c])
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b^2*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(a*f*(b*c-a*d)*(a+b*Sin[e+f*x])) + 
-  d/(a*(b*c-a*d))*Int[(c+d*Sin[e+f*x])^n*(a*n-b*(n+1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<0 && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(a*f*(a+b*Sin[e+f*x])) + 
-  d*n/(a*b)*Int[(c+d*Sin[e+f*x])^(n-1)*(a-b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*Cos[e+f*x]*(c+d*Sin[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Sin[e+f*x]]) + 
-  2*n*(b*c+a*d)/(b*(2*n+1))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>0 && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_.+d_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  -2*b^2*Cos[e+f*x]/(f*(b*c+a*d)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]) /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*c-a*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)*Sqrt[a+b*Sin[e+f*x]]) + 
-  (2*n+3)*(b*c-a*d)/(2*b*(n+1)*(c^2-d^2))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && NeQ[2*n+3] && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -2*b/f*Subst[Int[1/(b*c+a*d-d*x^2),x],x,b*Cos[e+f*x]/Sqrt[a+b*Sin[e+f*x]]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2/f*Subst[Int[1/Sqrt[1-x^2/a],x],x,b*Cos[e+f*x]/Sqrt[a+b*Sin[e+f*x]]] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2*b/f*Subst[Int[1/(b+d*x^2),x],x,b*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*Subst[Int[(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[IntegerQ[2*n]]
-
-
-Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  d/b*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  (b*c-a*d)/b*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2*d*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Sin[e+f*x]]) - 
-  1/(b*(2*n-1))*Int[(c+d*Sin[e+f*x])^(n-2)/Sqrt[a+b*Sin[e+f*x]]*
-    Simp[a*c*d-b*(2*d^2*(n-1)+c^2*(2*n-1))+d*(a*d-b*c*(4*n-3))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
-
-
-Int[(c_.+d_.*sin[e_.+f_.*x_])^n_/Sqrt[a_+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -d*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)*Sqrt[a+b*Sin[e+f*x]]) - 
-  1/(2*b*(n+1)*(c^2-d^2))*Int[(c+d*Sin[e+f*x])^(n+1)*Simp[a*d-2*b*c*(n+1)+b*d*(2*n+3)*Sin[e+f*x],x]/Sqrt[a+b*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/Sqrt[a+b*Sin[e+f*x]],x] - d/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -Sqrt[2]/(Sqrt[a]*f)*Subst[Int[1/Sqrt[1-x^2],x],x,b*Cos[e+f*x]/(a+b*Sin[e+f*x])] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b] && PositiveQ[a]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*a/f*Subst[Int[1/(2*b^2-(a*c-b*d)*x^2),x],x,b*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)/(f*(m+n)) + 
-  1/(b*(m+n))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-2)*
-    Simp[d*(a*c*m+b*d*(n-1))+b*c^2*(m+n)+d*(a*d*m+b*c*(m+2*n-1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>1 && IntegerQ[n]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*Subst[Int[(1+b/a*x)^(m-1/2)*(c+d*x)^n/Sqrt[1-b/a*x],x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*(d/b)^n*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
-    Subst[Int[(a-x)^n*(2*a-x)^(m-1/2)/Sqrt[x],x],x,a-b*Sin[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && PositiveQ[d/b]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (d/b)^IntPart[n]*(d*Sin[e+f*x])^FracPart[n]/(b*Sin[e+f*x])^FracPart[n]*Int[(a+b*Sin[e+f*x])^m*(b*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[PositiveQ[d/b]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]/(1+b/a*Sin[e+f*x])^FracPart[m]*
-    Int[(1+b/a*Sin[e+f*x])^m*(d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[PositiveQ[a]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^2*Cos[e+f*x]/(f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[IntegerQ[m]]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  2*c*d/b*Int[(b*Sin[e+f*x])^(m+1),x] + Int[(b*Sin[e+f*x])^m*(c^2+d^2*Sin[e+f*x]^2),x] /;
-FreeQ[{b,c,d,e,f,m},x]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  -(b^2*c^2-2*a*b*c*d+a^2*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) - 
-  1/(b*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
-    Simp[b*(m+1)*(2*b*c*d-a*(c^2+d^2))+(a^2*d^2-2*a*b*c*d*(m+2)+b^2*(d^2*(m+1)+c^2*(m+2)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  -d^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[b*(d^2*(m+1)+c^2*(m+2))-d*(a*d-2*b*c*(m+2))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(d*sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(b^2*c^2-2*a*b*c*d+a^2*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-3)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[b*(m-2)*(b*c-a*d)^2+a*d*(n+1)*(c*(a^2+b^2)-2*a*b*d)+
-      (b*(n+1)*(a*b*c^2+c*d*(a^2+b^2)-3*a*b*d^2)-a*(n+2)*(b*c-a*d)^2)*Sin[e+f*x]+
-      b*(b^2*(c^2-d^2)-m*(b*c-a*d)^2+d*n*(2*a*b*c-d*(a^2+b^2)))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>2 && n<-1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-3)*(c+d*Sin[e+f*x])^n*
-    Simp[a^3*d*(m+n)+b^2*(b*c*(m-2)+a*d*(n+1))-
-      b*(a*b*c-b^2*d*(m+n-1)-3*a^2*d*(m+n))*Sin[e+f*x]-
-      b^2*(b*c*(m-1)-a*d*(3*m+2*n-2))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>2 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>2 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
-
-
-Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  -2*a*d*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) - 
-  d^2/(a^2-b^2)*Int[Sqrt[a+b*Sin[e+f*x]]/(d*Sin[e+f*x])^(3/2),x] /; 
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[c_+d_.*sin[e_.+f_.*x_]]/(a_.+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  (c-d)/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
-  (b*c-a*d)/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /; 
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
-    Simp[a*c*(m+1)+b*d*n+(a*d*(m+1)-b*c*(m+2))*Sin[e+f*x]-b*d*(m+n+2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
-  IntegersQ[2*m,2*n]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^(3/2)/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  d/b*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
-  a*d/b*Int[Sqrt[d*Sin[e+f*x]]/(a+b*Sin[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(c_+d_.*sin[e_.+f_.*x_])^(3/2)/(a_.+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  d^2/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  (b*c-a*d)/b^2*Int[Simp[b*c+a*d+2*b*d*Sin[e+f*x],x]/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-2)*
-    Simp[c*(a*c-b*d)*(m+1)+d*(b*c-a*d)*(n-1)+(d*(a*c-b*d)*(m+1)-c*(b*c-a*d)*(m+2))*Sin[e+f*x]-d*(b*c-a*d)*(m+n+1)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && 1<n<2 && 
-  IntegersQ[2*m,2*n]
-
-
-Int[1/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2*b*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) + 
-  d/(a^2-b^2)*Int[(b+a*Sin[e+f*x])/(Sqrt[a+b*Sin[e+f*x]]*(d*Sin[e+f*x])^(3/2)),x] /; 
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[1/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  1/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
-  b/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[a*(b*c-a*d)*(m+1)+b^2*d*(m+n+2)-(b^2*c+b*(b*c-a*d)*(m+1))*Sin[e+f*x]-b^2*d*(m+n+3)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
-  IntegersQ[2*m,2*n] && 
-  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
-
-
-Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]/(a_.+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  d/b*Int[1/Sqrt[c+d*Sin[e+f*x]],x] + 
-  (b*c-a*d)/b*Int[1/((a+b*Sin[e+f*x])*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^(3/2)/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  b/d*Int[Sqrt[a+b*Sin[e+f*x]],x] - (b*c-a*d)/d*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2/(f*(a+b)*Sqrt[c+d])*EllipticPi[2*b/(a+b),1/2*(e-Pi/2+f*x),2*d/(c+d)] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PositiveQ[c+d]
-
-
-Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2/(f*(a-b)*Sqrt[c-d])*EllipticPi[-2*b/(a-b),1/2*(e+Pi/2+f*x),-2*d/(c-d)] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PositiveQ[c-d]
-
-
-Int[1/((a_.+b_.*sin[e_.+f_.*x_])*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[(c+d*Sin[e+f*x])/(c+d)]/Sqrt[c+d*Sin[e+f*x]]*Int[1/((a+b*Sin[e+f*x])*Sqrt[c/(c+d)+d/(c+d)*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && Not[PositiveQ[c+d]]
-
-
-Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  2*c*Rt[b*(c+d),2]*Tan[e+f*x]*Sqrt[1+Csc[e+f*x]]*Sqrt[1-Csc[e+f*x]]/(d*f*Sqrt[c^2-d^2])*
-    EllipticPi[(c+d)/d,ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
-FreeQ[{b,c,d,e,f},x] && PositiveQ[c^2-d^2] && PosQ[(c+d)/b] && PositiveQ[c^2]
-
-
-Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  2*b*Tan[e+f*x]/(d*f)*Rt[(c+d)/b,2]*Sqrt[c*(1+Csc[e+f*x])/(c-d)]*Sqrt[c*(1-Csc[e+f*x])/(c+d)]*
-    EllipticPi[(c+d)/d,ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && PosQ[(c+d)/b]
-
-
-Int[Sqrt[b_.*sin[e_.+f_.*x_]]/Sqrt[c_+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[b*Sin[e+f*x]]/Sqrt[-b*Sin[e+f*x]]*Int[Sqrt[-b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NegQ[(c+d)/b]
-
-
-(* Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  a*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]),x] + 
-  b/d*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] *)
-
-
-(* Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  2*(a+b*Sin[e+f*x])/(d*f*Rt[(a+b)/d,2]*Cos[e+f*x])*Sqrt[a*(1-Sin[e+f*x])/(a+b*Sin[e+f*x])]*Sqrt[a*(1+Sin[e+f*x])/(a+b*Sin[e+f*x])]*
-    EllipticPi[b/(a+b),ArcSin[Rt[(a+b)/d,2]*(Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]])],-(a-b)/(a+b)] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && PosQ[(a+b)/d] *)
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  2*(a+b*Sin[e+f*x])/(d*f*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
-    Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
-    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*
-    EllipticPi[b*(c+d)/(d*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PosQ[(a+b)/(c+d)]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[-c-d*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]]*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[-c-d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NegQ[(a+b)/(c+d)]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*d/(f*Sqrt[a+b*d])*EllipticF[ArcSin[Cos[e+f*x]/(1+d*Sin[e+f*x])],-(a-b*d)/(a+b*d)] /;
-FreeQ[{a,b,d,e,f},x] && NegativeQ[a^2-b^2] && EqQ[d^2-1] && PositiveQ[b*d]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[Sign[b]*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[Sign[b]*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f},x] && NegativeQ[a^2-b^2] && PositiveQ[b^2] && Not[EqQ[d^2-1] && PositiveQ[b*d]]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*Sqrt[a^2]*Sqrt[-Cot[e+f*x]^2]/(a*f*Sqrt[a^2-b^2]*Cot[e+f*x])*Rt[(a+b)/d,2]*
-    EllipticF[ArcSin[Sqrt[a+b*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]/Rt[(a+b)/d,2]],-(a+b)/(a-b)] /;
-FreeQ[{a,b,d,e,f},x] && PositiveQ[a^2-b^2] && PosQ[(a+b)/d] && PositiveQ[a^2]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*Tan[e+f*x]/(a*f)*Rt[(a+b)/d,2]*Sqrt[a*(1-Csc[e+f*x])/(a+b)]*Sqrt[a*(1+Csc[e+f*x])/(a-b)]*
-    EllipticF[ArcSin[Sqrt[a+b*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]/Rt[(a+b)/d,2]],-(a+b)/(a-b)] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && PosQ[(a+b)/d]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[-d*Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[-d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && NegQ[(a+b)/d]
-
-
-Int[1/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2*(c+d*Sin[e+f*x])/(f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cos[e+f*x])*
-    Sqrt[(b*c-a*d)*(1-Sin[e+f*x])/((a+b)*(c+d*Sin[e+f*x]))]*
-    Sqrt[-(b*c-a*d)*(1+Sin[e+f*x])/((a-b)*(c+d*Sin[e+f*x]))]*
-    EllipticF[ArcSin[Rt[(c+d)/(a+b),2]*(Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]])],(a+b)*(c-d)/((a-b)*(c+d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && PosQ[(c+d)/(a+b)]
-
-
-Int[1/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[-a-b*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]*Int[1/(Sqrt[-a-b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NegQ[(c+d)/(a+b)]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^(3/2)/Sqrt[a_.+b_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -a*d/(2*b)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
-  d/(2*b)*Int[Sqrt[d*Sin[e+f*x]]*(a+2*b*Sin[e+f*x])/Sqrt[a+b*Sin[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n-1)*
-    Simp[a^2*c*d*(m+n)+b*d*(b*c*(m-1)+a*d*n)+
-      (a*d*(2*b*c+a*d)*(m+n)-b*d*(a*c-b*d*(m+n-1)))*Sin[e+f*x]+
-      b*d*(b*c*n+a*d*(2*m+n-1))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && 0<m<2 && -1<n<2 && 
-  NeQ[m+n] && (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b/d*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] - 
-  (b*c-a*d)/d*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && PositiveIntegerQ[m]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-(* Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(d_./sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(d*Csc[e+f*x])^(n-m)*(b+a*Csc[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] *)
-
-
-(* Int[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(d_./cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(d*Sec[e+f*x])^(n-m)*(b+a*Sec[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] *)
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.*(d_.*sin[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Sin[e + f*x])^p)^FracPart[n]/(d*Sin[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.*(d_.*cos[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Cos[e + f*x])^p)^FracPart[n]/(d*Cos[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^n,x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && IntegerQ[n]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^m,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*cos[e_.+f_.*x_])^m_.*(c_+d_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(b+a*Sec[e+f*x])^m*(c+d*Sec[e+f*x])^n/Sec[e+f*x]^m,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Sin[e+f*x]^n*(c+d*Csc[e+f*x])^n/(d+c*Sin[e+f*x])^n*Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-Int[(a_+b_.*cos[e_.+f_.*x_])^m_*(c_+d_.*sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  Cos[e+f*x]^n*(c+d*Sec[e+f*x])^n/(d+c*Cos[e+f*x])^n*Int[(a+b*Cos[e+f*x])^m*(d+c*Cos[e+f*x])^n/Cos[e+f*x]^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.2.2 (g cos)^p (a+b sin)^m (c+d sin)^n*)
-
-
-Int[cos[e_.+f_.*x_]*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  1/(b*f)*Subst[Int[(a+x)^m*(c+d/b*x)^n,x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_.*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  a*Int[Cos[e+f*x]^p*(d*Sin[e+f*x])^n,x] + b/d*Int[Cos[e+f*x]^p*(d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,n,p},x] && IntegerQ[(p-1)/2] && IntegerQ[n] && (p<0 && NeQ[a^2-b^2] || 0<n<p-1 || p+1<-n<2*p+1)
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  1/a*Int[Cos[e+f*x]^(p-2)*(d*Sin[e+f*x])^n,x] - 
-  1/(b*d)*Int[Cos[e+f*x]^(p-2)*(d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,n,p},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2] && IntegerQ[n] && (0<n<(p+1)/2 || p<=-n<2*p-3 || 0<n<=-p)
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  1/(b^p*f)*Subst[Int[(a+x)^(m+(p-1)/2)*(a-x)^((p-1)/2)*(c+d/b*x)^n,x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,e,f,c,d,m,n},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2]
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  1/(b^p*f)*Subst[Int[(a+x)^m*(c+d/b*x)^n*(b^2-x^2)^((p-1)/2),x],x,b*Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_.*(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  a*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n,x] + b/d*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n,x] - 
-  g^2/(b*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*c^m/g^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && n^2<m^2]
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  1/(a^(p/2)*c^(p/2))*Int[(a+b*Sin[e+f*x])^(m+p/2)*(c+d*Sin[e+f*x])^(n+p/2),x] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[p/2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  g*Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[(g*Cos[e+f*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
-    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*Int[(g*Cos[e+f*x])^(2*m+p)/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && EqQ[m-n-1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m-n-1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p-1] && NeQ[m-n-1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(2*n+p+1)) - 
-  b*(2*m+p-1)/(d*(2*n+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[m+p/2-1/2]] && RationalQ[n] && n<-1 && 
-  NeQ[2*n+p+1] && Not[NegativeIntegerQ[Simplify[m+n+p]] && Simplify[2*m+n+3*p/2+1]>0]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m+n+p)) + 
-  a*(2*m+p-1)/(m+n+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[m+p/2-1/2]] && Not[RationalQ[n] && n<-1] && 
-  Not[PositiveIntegerQ[Simplify[n+p/2-1/2]] && m-n>0] && Not[NegativeIntegerQ[Simplify[m+n+p]] && Simplify[2*m+n+3*p/2+1]>0]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
-    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*Int[(g*Cos[e+f*x])^(2*m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[2*m+p+1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(m-n)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+p+1] && NeQ[m-n]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(2*m+p+1)) + 
-  (m+n+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[Simplify[m+n+p+1]] && NeQ[2*m+p+1] && 
-  (SumSimplerQ[m,1] || Not[SumSimplerQ[n,1]])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(2*n+p+1)) - 
-  b*(2*m+p-1)/(d*(2*n+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<-1 && NeQ[2*n+p+1] && 
-  IntegersQ[2*m,2*n,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n/(f*g*(m+n+p)) + 
-  a*(2*m+p-1)/(m+n+p)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m>0 && NeQ[m+n+p] && 
-  Not[RationalQ[n] && 0<n<m] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*g*(2*m+p+1)) + 
-  (m+n+p+1)/(a*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && NeQ[2*m+p+1] && 
-  Not[RationalQ[n] && m<n<-1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/
-    (g^(2*IntPart[m])*(g*Cos[e+f*x])^(2*FracPart[m]))*
-    Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (FractionQ[m] || Not[FractionQ[n]])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[a*d*m+b*c*(m+p+1)]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c+a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(p+1)) + 
-  b*(a*d*m+b*c*(m+p+1))/(a*g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[a^2-b^2] && RationalQ[m,p] && m>-1 && p<-1
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
-  (a*d*m+b*c*(m+p+1))/(b*(m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[Simplify[(2*m+p+1)/2]] && NeQ[m+p+1]
-
-
-Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  2*(b*c-a*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(2*m+3)) + 
-  1/(b^3*(2*m+3))*Int[(a+b*Sin[e+f*x])^(m+2)*(b*c+2*a*d*(m+1)-b*d*(2*m+3)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-3/2
-
-
-Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  d*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)/(b^2*f*(m+3)) - 
-  1/(b^2*(m+3))*Int[(a+b*Sin[e+f*x])^(m+1)*(b*d*(m+2)-a*c*(m+3)+(b*c*(m+3)-a*d*(m+4))*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && -3/2<=m<0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) + 
-  (a*d*m+b*c*(m+p+1))/(a*b*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1 || NegativeIntegerQ[Simplify[m+p]]) && NeQ[2*m+p+1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
-  (a*d*m+b*c*(m+p+1))/(b*(m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && EqQ[a^2-b^2] && NeQ[m+p+1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])/(f*g*(p+1)) + 
-  1/(g^2*(p+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)*Simp[a*c*(p+2)+b*d*m+b*c*(m+p+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m>0 && p<-1 && IntegerQ[2*m] && 
-  Not[m==1 && NeQ[c^2-d^2] && SimplerQ[c+d*x,a+b*x]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(f*g*(m+p+1)) + 
-  1/(m+p+1)*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m-1)*Simp[a*c*(m+p+1)+b*d*m+(a*d*m+b*c*(m+p+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[p] && p<-1] && IntegerQ[2*m] && 
-  Not[m==1 && NeQ[c^2-d^2] && SimplerQ[c+d*x,a+b*x]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)*(b*c*(m+p+1)-a*d*p+b*d*(m+1)*Sin[e+f*x])/(b^2*f*(m+1)*(m+p+1)) + 
-  g^2*(p-1)/(b^2*(m+1)*(m+p+1))*
-    Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)*Simp[b*d*(m+1)+(b*c*(m+p+1)-a*d*p)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m,p] && m<-1 && p>1 && NeQ[m+p+1] && IntegerQ[2*m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(f*g*(a^2-b^2)*(m+1)) + 
-  1/((a^2-b^2)*(m+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*Simp[(a*c-b*d)*(m+1)-(b*c-a*d)*(m+p+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)*(a+b*Sin[e+f*x])^(m+1)*(b*c*(m+p+1)-a*d*p+b*d*(m+p)*Sin[e+f*x])/(b^2*f*(m+p)*(m+p+1)) + 
-  g^2*(p-1)/(b^2*(m+p)*(m+p+1))*
-    Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^m*Simp[b*(a*d*m+b*c*(m+p+1))+(a*b*c*(m+p+1)-d*(a^2*p-b^2*(m+p)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p>1 && NeQ[m+p] && NeQ[m+p+1] && IntegerQ[2*m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)*(b*c-a*d-(a*c-b*d)*Sin[e+f*x])/(f*g*(a^2-b^2)*(p+1)) + 
-  1/(g^2*(a^2-b^2)*(p+1))*
-    Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m*Simp[c*(a^2*(p+2)-b^2*(m+p+2))+a*b*d*m+b*(a*c-b*d)*(m+p+3)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m},x] && NeQ[a^2-b^2] && RationalQ[p] && p<-1 && IntegerQ[2*m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(c_.+d_.*sin[e_.+f_.*x_])/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  d/b*Int[(g*Cos[e+f*x])^p,x] + (b*c-a*d)/b*Int[(g*Cos[e+f*x])^p/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  c*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
-    Subst[Int[(1+d/c*x)^((p+1)/2)*(1-d/c*x)^((p-1)/2)*(a+b*x)^m,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^(2*m)*Int[(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && 2*m+p==0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(2*b*f*g*(m+1)) + 
-  a/(2*g^2)*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[m-p]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*m) - 
-  1/g^2*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && EqQ[m+p+1]
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  1/a^p*Int[ExpandTrig[(d*sin[e+f*x])^n*(a-b*sin[e+f*x])^(p/2)*(a+b*sin[e+f*x])^(m+p/2),x],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && IntegersQ[m,n,p/2] && (m>0 && p>0 && -m-p<n<-1 || m>2 && p<0 && m+p/2>0)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  1/b^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1)*(a-b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && (NegativeIntegerQ[m] || Not[PositiveIntegerQ[n]])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && NegativeIntegerQ[m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,g,n},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && (2*m+p==0 || 2*m+p>0 && p<-1)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^m/(a*f*g*(2*m+p+1)) - 
-  1/(a^2*(2*m+p+1))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^(m+1)*(a*m-b*(2*m+p+1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,p},x] && EqQ[a^2-b^2] && RationalQ[m] && m<=-1/2 && NeQ[2*m+p+1]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -(g*Cos[e+f*x])^(p+1)*(a+b*Sin[e+f*x])^(m+1)/(b*f*g*(m+p+2)) + 
-  1/(b*(m+p+2))*Int[(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m*(b*(m+1)-a*(p+1)*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && EqQ[a^2-b^2] && NeQ[m+p+2]
-
-
-Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  1/b^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1)*(a-b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegersQ[2*m,2*n]
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  -2/(a*b*d)*Int[(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+2),x] + 
-  1/a^2*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+2)*(1+Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  1/d^4*Int[(d*Sin[e+f*x])^(n+4)*(a+b*Sin[e+f*x])^m,x] + 
-  Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*(1-2*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[PositiveIntegerQ[m]]
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*
-    Subst[Int[(d*x)^n*(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && IntegerQ[m]
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Cos[e+f*x]/(a^(p-2)*f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
-    Subst[Int[(d*x)^n(a+b*x)^(m+p/2-1/2)*(a-b*x)^(p/2-1/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && Not[IntegerQ[m]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveIntegerQ[n])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a^m*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
-    Subst[Int[(d*x)^n*(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,d,e,f,n,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)/(f*(a+b*Sin[e+f*x])^((p-1)/2)*(a-b*Sin[e+f*x])^((p-1)/2))*
-    Subst[Int[(d*x)^n*(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -g*(g*Cos[e+f*x])^(p-1)*Sqrt[d*Sin[e+f*x]]*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(m+1)) + 
-  g^2*(2*m+3)/(2*a*(m+1))*Int[(g*Cos[e+f*x])^(p-2)*(a+b*Sin[e+f*x])^(m+1)/Sqrt[d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && EqQ[m+p+1/2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_/Sqrt[d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  2*(g*Cos[e+f*x])^(p+1)*Sqrt[d*Sin[e+f*x]]*(a+b*Sin[e+f*x])^m/(d*f*g*(2*m+1)) + 
-  2*a*m/(g^2*(2*m+1))*Int[(g*Cos[e+f*x])^(p+2)*(a+b*Sin[e+f*x])^(m-1)/Sqrt[d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && EqQ[m+p+3/2]
-
-
-Int[cos[e_.+f_.*x_]^2*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*(1-Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-(* Int[cos[e_.+f_.*x_]^4*sin[e_.+f_.*x_]^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a^2-b^2)*Cos[e+f*x]*Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*b^2*d*(m+1)) - 
-  (a^2*(n+1)-b^2*(m+n+2))*Cos[e+f*x]*Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+2)/(a^2*b^2*d*(n+1)*(m+1)) + 
-  1/(a^2*b*(n+1)*(m+1))*Int[Sin[e+f*x]^(n+1)*(a+b*Sin[e+f*x])^(m+1)*
-    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && n<-1 *)
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(n+1)) - 
-  (a^2*(n+1)-b^2*(m+n+2))*Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(a^2*b*d^2*f*(n+1)*(m+1)) + 
-  1/(a^2*b*d*(n+1)*(m+1))*Int[(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)*
-    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && n<-1
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a^2-b^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*b^2*d*f*(m+1)) + 
-  (a^2*(n-m+1)-b^2*(m+n+2))*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^(n+1)/(a^2*b^2*d*f*(m+1)*(m+2)) - 
-  1/(a^2*b^2*(m+1)*(m+2))*Int[(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^n*
-    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+3)+a*b*(m+2)*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && Not[n<-1] && (m<-2 || EqQ[m+n+4])
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  (a^2-b^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*b^2*d*f*(m+1)) - 
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+2)*(d*Sin[e+f*x])^(n+1)/(b^2*d*f*(m+n+4)) - 
-  1/(a*b^2*(m+1)*(m+n+4))*Int[(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^n*
-    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+2)*(m+n+4)+a*b*(m+1)*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+3)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && m<-1 && Not[n<-1] && NeQ[m+n+4]
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*d*f*(n+1)) - 
-  b*(m+n+2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+2)/(a^2*d^2*f*(n+1)*(n+2)) - 
-  1/(a^2*d^2*(n+1)*(n+2))*Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n+2)*
-    Simp[a^2*n*(n+2)-b^2*(m+n+2)*(m+n+3)+a*b*m*Sin[e+f*x]-(a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && RationalQ[n] && n<-1 && 
-  (n<-2 || EqQ[m+n+4])
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+1)/(a*d*f*(n+1)) - 
-  Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(d*Sin[e+f*x])^(n+2)/(b*d^2*f*(m+n+4)) + 
-  1/(a*b*d*(n+1)*(m+n+4))*Int[(a+b*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n+1)*
-    Simp[a^2*(n+1)*(n+2)-b^2*(m+n+2)*(m+n+4)+a*b*(m+3)*Sin[e+f*x]-(a^2*(n+1)*(n+3)-b^2*(m+n+3)*(m+n+4))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && RationalQ[n] && n<-1 && 
-  NeQ[m+n+4]
-
-
-Int[cos[e_.+f_.*x_]^4*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  a*(n+3)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(b^2*d*f*(m+n+3)*(m+n+4)) - 
-  Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(b*d^2*f*(m+n+4)) - 
-  1/(b^2*(m+n+3)*(m+n+4))*Int[(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^m*
-    Simp[a^2*(n+1)*(n+3)-b^2*(m+n+3)*(m+n+4)+a*b*m*Sin[e+f*x]-(a^2*(n+2)*(n+3)-b^2*(m+n+3)*(m+n+5))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n]) && Not[m<-1] && Not[RationalQ[n] && n<-1] && 
-  NeQ[m+n+3] && NeQ[m+n+4]
-
-
-Int[cos[e_.+f_.*x_]^6*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Cos[e+f*x]*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1)/(a*d*f*(n+1)) - 
-  b*(m+n+2)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^(m+1)/(a^2*d^2*f*(n+1)*(n+2)) - 
-  a*(n+5)*Cos[e+f*x]*(d*Sin[e+f*x])^(n+3)*(a+b*Sin[e+f*x])^(m+1)/(b^2*d^3*f*(m+n+5)*(m+n+6)) + 
-  Cos[e+f*x]*(d*Sin[e+f*x])^(n+4)*(a+b*Sin[e+f*x])^(m+1)/(b*d^4*f*(m+n+6)) + 
-  1/(a^2*b^2*d^2*(n+1)*(n+2)*(m+n+5)*(m+n+6))*
-    Int[(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^m*
-      Simp[a^4*(n+1)*(n+2)*(n+3)*(n+5)-a^2*b^2*(n+2)*(2*n+1)*(m+n+5)*(m+n+6)+b^4*(m+n+2)*(m+n+3)*(m+n+5)*(m+n+6) + 
-        a*b*m*(a^2*(n+1)*(n+2)-b^2*(m+n+5)*(m+n+6))*Sin[e+f*x] - 
-        (a^4*(n+1)*(n+2)*(4+n)*(n+5)+b^4*(m+n+2)*(m+n+4)*(m+n+5)*(m+n+6)-a^2*b^2*(n+1)*(n+2)*(m+n+5)*(2*n+2*m+13))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n] && NeQ[n+1] && NeQ[n+2] && NeQ[m+n+5] && 
-  NeQ[m+n+6] && Not[PositiveIntegerQ[m]]
-
-
-Int[cos[e_.+f_.*x_]^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[ExpandTrig[(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m*(1-sin[e+f*x]^2)^(p/2),x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && IntegersQ[m,2*n,p/2] && (m<-1 || m==-1 && p>0)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*sin[e_.+f_.*x_]^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p,sin[e+f*x]^n/(a+b*sin[e+f*x]),x],x] /;
-FreeQ[{a,b,e,f,g,p},x] && NeQ[a^2-b^2] && IntegerQ[n] && (n<0 || PositiveIntegerQ[p+1/2])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n,x] - 
-  b*g^2/(a^2*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1),x] - 
-  g^2*(a^2-b^2)/(a^2*d^2)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 && (n<=-2 || n==-3/2 && p==3/2)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g^2/(a*b)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(b-a*Sin[e+f*x]),x] + 
-  g^2*(a^2-b^2)/(a*b*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 && (n<-1 || p==3/2 && n==-1/2)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g^2/b^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] - 
-  g^2*(a^2-b^2)/b^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1
-
-
-(* Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] - 
-  g^2/d^2*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p>1 *)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  a*d^2/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-2),x] - 
-  b*d/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1),x] - 
-  a^2*d^2/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^(n-2)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1 && n>1
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -d/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1)*(b-a*Sin[e+f*x]),x] + 
-  a*b*d/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^(n-1)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1 && n>0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2-b^2)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] - 
-  b^2/(g^2*(a^2-b^2))*Int[(g*Cos[e+f*x])^(p+2)*(d*Sin[e+f*x])^n/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && p<-1
-
-
-Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(Sqrt[sin[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  -4*Sqrt[2]*g/f*Subst[Int[x^2/(((a+b)*g^2+(a-b)*x^4)*Sqrt[1-x^4/g^2]),x],x,Sqrt[g*Cos[e+f*x]]/Sqrt[1+Sin[e+f*x]]] /;
-FreeQ[{a,b,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[g_.*cos[e_.+f_.*x_]]/(Sqrt[d_*sin[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  Sqrt[Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[Sqrt[g*Cos[e+f*x]]/(Sqrt[Sin[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(Sqrt[cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  With[{q=Rt[-a^2+b^2,2]},
-  2*Sqrt[2]*d*(b+q)/(f*q)*Subst[Int[1/((d*(b+q)+a*x^2)*Sqrt[1-x^4/d^2]),x],x,Sqrt[d*Sin[e+f*x]]/Sqrt[1+Cos[e+f*x]]] - 
-  2*Sqrt[2]*d*(b-q)/(f*q)*Subst[Int[1/((d*(b-q)+a*x^2)*Sqrt[1-x^4/d^2]),x],x,Sqrt[d*Sin[e+f*x]]/Sqrt[1+Cos[e+f*x]]]] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[d_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*cos[e_.+f_.*x_]]*(a_+b_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  Sqrt[Cos[e+f*x]]/Sqrt[g*Cos[e+f*x]]*Int[Sqrt[d*Sin[e+f*x]]/(Sqrt[Cos[e+f*x]]*(a+b*Sin[e+f*x])),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  d/b*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1),x] - 
-  a*d/b*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n-1)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && -1<p<1 && n>0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_/(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  1/a*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^n,x] - 
-  b/(a*d)*Int[(g*Cos[e+f*x])^p*(d*Sin[e+f*x])^(n+1)/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[2*n,2*p] && -1<p<1 && n<0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p,(d*sin[e+f*x])^n*(a+b*sin[e+f*x])^m,x],x] /;
-FreeQ[{a,b,d,e,f,g,n,p},x] && NeQ[a^2-b^2] && IntegerQ[m] && (m>0 || IntegerQ[n])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(d_.*sin[e_.+f_.*x_])^n_*(a_+b_.*sin[e_.+f_.*x_])^m_,x_Symbol] :=
-  g^2/a*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^n*(a+b*Sin[e+f*x])^(m+1),x] - 
-  b*g^2/(a^2*d)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+1)*(a+b*Sin[e+f*x])^(m+1),x] - 
-  g^2*(a^2-b^2)/(a^2*d^2)*Int[(g*Cos[e+f*x])^(p-2)*(d*Sin[e+f*x])^(n+2)*(a+b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,g},x] && NeQ[a^2-b^2] && IntegersQ[m,2*n,2*p] && m<0 && p>1 && (n<=-2 || m==-1 && n==-3/2 && p==3/2)
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^(2*m)*Int[(c+d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[a^2-b^2] && IntegersQ[m,p] && 2*m+p==0
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a/g)^(2*m)*Int[(g*Cos[e+f*x])^(2*m+p)*(c+d*Sin[e+f*x])^n/(a-b*Sin[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[p] && (2*m+p==0 || 2*m+p>0 && p<-1)
-
-
-Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*(a-b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegersQ[2*m,2*n]
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^m*Cos[e+f*x]/(f*Sqrt[1+Sin[e+f*x]]*Sqrt[1-Sin[e+f*x]])*
-    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && IntegerQ[m]
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Cos[e+f*x]/(a^(p-2)*f*Sqrt[a+b*Sin[e+f*x]]*Sqrt[a-b*Sin[e+f*x]])*
-    Subst[Int[(a+b*x)^(m+p/2-1/2)*(a-b*x)^(p/2-1/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[a^2-b^2] && IntegerQ[p/2] && Not[IntegerQ[m]]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p,(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveIntegerQ[n])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^m*g*(g*Cos[e+f*x])^(p-1)/(f*(1+Sin[e+f*x])^((p-1)/2)*(1-Sin[e+f*x])^((p-1)/2))*
-    Subst[Int[(1+b/a*x)^(m+(p-1)/2)*(1-b/a*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[a^2-b^2] && IntegerQ[m]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  g*(g*Cos[e+f*x])^(p-1)/(f*(a+b*Sin[e+f*x])^((p-1)/2)*(a-b*Sin[e+f*x])^((p-1)/2))*
-    Subst[Int[(a+b*x)^(m+(p-1)/2)*(a-b*x)^((p-1)/2)*(c+d*x)^n,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]]
-
-
-Int[cos[e_.+f_.*x_]^2*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(1-Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[a^2-b^2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[cos[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n*(1-sin[e+f*x]^2)^(p/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[p/2] && (PositiveIntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(g*cos[e+f*x])^p*(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[a^2-b^2] && IntegersQ[2*m,2*n]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(g*Cos[e+f*x])^p*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[a^2-b^2]
-
-
-Int[(g_.*sec[e_.+f_.*x_])^p_*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(2*IntPart[p])*(g*Cos[e+f*x])^FracPart[p]*(g*Sec[e+f*x])^FracPart[p]*
-    Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(g*Cos[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[p]]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(2*IntPart[p])*(g*Sin[e+f*x])^FracPart[p]*(g*Csc[e+f*x])^FracPart[p]*
-    Int[(a+b*Cos[e+f*x])^m*(c+d*Cos[e+f*x])^n/(g*Sin[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.2.3 (g sin)^p (a+b sin)^m (c+d sin)^n*)
-
-
-Int[Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  g/d*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[g*Sin[e+f*x]],x] - 
-  c*g/d*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(c_+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  b/d*Int[Sqrt[g*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
-  (b*c-a*d)/d*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  -2*b/f*Subst[Int[1/(b*c+a*d+c*g*x^2),x],x,b*Cos[e+f*x]/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  -Sqrt[a+b]/(c*f)*EllipticE[ArcSin[Cos[e+f*x]/(1+Sin[e+f*x])],-(a-b)/(a+b)] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[d-c] && PositiveQ[b^2-a^2] && PositiveQ[b]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  -Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]/(c+d*Sin[e+f*x])]/
-    (d*f*Sqrt[g*Sin[e+f*x]]*Sqrt[c^2*(a+b*Sin[e+f*x])/((a*c+b*d)*(c+d*Sin[e+f*x]))])*
-    EllipticE[ArcSin[c*Cos[e+f*x]/(c+d*Sin[e+f*x])],(b*c-a*d)/(b*c+a*d)] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(Sqrt[g_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  a/c*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] + 
-  (b*c-a*d)/(c*g)*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  1/c*Int[Sqrt[a+b*Sin[e+f*x]]/Sin[e+f*x],x] - 
-  d/c*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  a/c*Int[1/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] + 
-  (b*c-a*d)/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[g_.*sin[e_.+f_.*x_]]/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  -a*g/(b*c-a*d)*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] + 
-  c*g/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[Sqrt[g_.*sin[e_.+f_.*x_]]/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  2*Sqrt[-Cot[e+f*x]^2]*Sqrt[g*Sin[e+f*x]]/(f*(c+d)*Cot[e+f*x]*Sqrt[a+b*Sin[e+f*x]])*Sqrt[(b+a*Csc[e+f*x])/(a+b)]*
-    EllipticPi[2*c/(c+d),ArcSin[Sqrt[1-Csc[e+f*x]]/Sqrt[2]],2*a/(a+b)] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] - 
-  d/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(Sqrt[g*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[1/(Sqrt[g_.*sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  1/c*Int[1/(Sqrt[g*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] - 
-  d/(c*g)*Int[Sqrt[g*Sin[e+f*x]]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  d^2/(c*(b*c-a*d))*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] + 
-  1/(c*(b*c-a*d))*Int[(b*c-a*d-b*d*Sin[e+f*x])/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  1/c*Int[1/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] - d/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -d/c*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  1/c*Int[Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/Sin[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[b*c+a*d]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*a/f*Subst[Int[1/(1-a*c*x^2),x],x,Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[b*c+a*d]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  (b*c-a*d)/c*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
-  a/c*Int[Sqrt[c+d*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[a+b*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]/(sin[e_.+f_.*x_]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*(a+b*Sin[e+f*x])/(c*f*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
-    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
-    EllipticPi[a*(c+d)/(c*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Cos[e+f*x]/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]])*Int[1/(Cos[e+f*x]*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[1/(sin[e_.+f_.*x_]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -b/a*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
-  1/a*Int[Sqrt[a+b*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (NeQ[a^2-b^2] || NeQ[c^2-d^2])
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]/sin[e_.+f_.*x_],x_Symbol] :=
-  Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/Cos[e+f*x]*Int[Cot[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]/sin[e_.+f_.*x_],x_Symbol] :=
-  d*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  c*Int[Sqrt[a+b*Sin[e+f*x]]/(Sin[e+f*x]*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (NeQ[a^2-b^2] || NeQ[c^2-d^2])
-
-
-Int[sin[e_.+f_.*x_]^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^n*c^n*Int[Tan[e+f*x]^p*(a+b*Sin[e+f*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[p+2*n] && IntegerQ[n]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Sqrt[a-b*Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]/(f*Cos[e+f*x])*
-    Subst[Int[(g*x)^p*(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m-1/2]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(g*sin[e+f*x])^p*(a+b*sin[e+f*x])^m*(c+d*sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[b*c-a*d] && (IntegersQ[m,n] || IntegersQ[m,p] || IntegersQ[n,p]) && NeQ[p-2]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(g*Sin[e+f*x])^p*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[p-2]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(m+n)*Int[(g*Sin[e+f*x])^(p-m-n)*(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (g*Csc[e+f*x])^p*(g*Sin[e+f*x])^p*Int[(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(g*Csc[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[(g*Sin[e+f*x])^(p-n)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && IntegerQ[n]
-
-
-Int[sin[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] && IntegerQ[p]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Csc[e+f*x]^p*(g*Sin[e+f*x])^p*Int[(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/Csc[e+f*x]^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && Not[IntegerQ[n]] && IntegerQ[m] && Not[IntegerQ[p]]
-
-
-Int[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (g*Sin[e+f*x])^n*(c+d*Csc[e+f*x])^n/(d+c*Sin[e+f*x])^n*Int[(g*Sin[e+f*x])^(p-n)*(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(m+n)*Int[(g*Csc[e+f*x])^(p-m-n)*(b+a*Csc[e+f*x])^m*(d+c*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (g*Csc[e+f*x])^p*(g*Sin[e+f*x])^p*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(g*Sin[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^m*Int[(g*Csc[e+f*x])^(p-m)*(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && IntegerQ[m]
-
-
-Int[csc[e_.+f_.*x_]^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(n+p),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && Not[IntegerQ[m]] && IntegerQ[n] && IntegerQ[p]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Sin[e+f*x]^p*(g*Csc[e+f*x])^p*Int[(a+b*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(n+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && Not[IntegerQ[m]] && IntegerQ[n] && Not[IntegerQ[p]]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a+b*Sin[e+f*x])^m*(g*Csc[e+f*x])^m/(b+a*Csc[e+f*x])^m*
-    Int[(g*Csc[e+f*x])^(p-m)*(b+a*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.3.1 (a+b sin)^m (c+d sin)^n (A+B sin)*)
-
-
-Int[sin[e_.+f_.*x_]^n_.*(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  Int[ExpandTrig[sin[e+f*x]^n*(a+b*sin[e+f*x])^m*(A+B*sin[e+f*x]),x],x] /;
-FreeQ[{a,b,e,f,A,B},x] && EqQ[A*b+a*B] && EqQ[a^2-b^2] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m)*(A+B*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  Int[(a+b*Sin[e+f*x])^m*(A*c+(B*c+A*d)*Sin[e+f*x]+B*d*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  (A*b+a*B)/(2*a*b)*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  (B*c+A*d)/(2*c*d)*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[A*b*(m+n+1)+a*B*(m-n)] && 
-  NeQ[m+1/2]
-
-
-Int[Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  B/d*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] - 
-  (B*c-A*d)/d*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) + 
-  (a*B*(m-n)+A*b*(m+n+1))/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && 
-  (RationalQ[m] && m<-1/2 || NegativeIntegerQ[m+n] && Not[SumSimplerQ[n,1]]) && NeQ[2*m+1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) - 
-  (B*c*(m-n)-A*d*(m+n+1))/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && 
-  NeQ[m+n+1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)) /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[m+n+2] && 
-  EqQ[A*(a*d*m+b*c*(n+1))-B*(a*c*m+b*d*(n+1))]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b^2*(B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)) - 
-  b/(d*(n+1)*(b*c+a*d))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[a*A*d*(m-n-2)-B*(a*c*(m-1)+b*d*(n+1))-(A*b*d*(m+n+1)-B*(b*c*m-a*d*(n+1)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1/2 && n<-1 && 
-  IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b*B*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
-    Simp[a*A*d*(m+n+1)+B*(a*c*(m-1)+b*d*(n+1))+(A*b*d*(m+n+1)-B*(b*c*m-a*d*(2*m+n)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1/2 && 
-  Not[RationalQ[n] && n<-1] && IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(a*f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
-    Simp[A*(a*d*n-b*c*(m+1))-B*(a*c*m+b*d*n)-d*(a*B*(m-n)+A*b*(m+n+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1/2 && n>0 && 
-  IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  b*(A*b-a*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(a*f*(2*m+1)*(b*c-a*d)) + 
-  1/(a*(2*m+1)*(b*c-a*d))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[B*(a*c*m+b*d*(n+1))+A*(b*c*(m+1)-a*d*(2*m+n+2))+d*(A*b-a*B)*(m+n+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2 && 
-  Not[RationalQ[n] && n>0] && IntegerQ[2*m] && (IntegerQ[2*n] || EqQ[c])
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -2*b*B*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(2*n+3)*Sqrt[a+b*Sin[e+f*x]]) /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1))]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b^2*(B*c-A*d)*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(b*c+a*d)*Sqrt[a+b*Sin[e+f*x]]) + 
-  (A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1)))/(2*d*(n+1)*(b*c+a*d))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -2*b*B*Cos[e+f*x]*(c+d*Sin[e+f*x])^(n+1)/(d*f*(2*n+3)*Sqrt[a+b*Sin[e+f*x]]) + 
-  (A*b*d*(2*n+3)-B*(b*c-2*a*d*(n+1)))/(b*d*(2*n+3))*Int[Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[n] && n<-1]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  (A*b-a*B)/b*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] + 
-  B/b*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n/(f*(m+n+1)) + 
-  1/(b*(m+n+1))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n-1)*
-    Simp[A*b*c*(m+n+1)+B*(a*c*m+b*d*n)+(A*b*d*(m+n+1)+B*(a*d*m+b*c*n))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n>0 && 
-  (IntegerQ[n] || EqQ[m+1/2])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(n+1)*(c^2-d^2)) + 
-  1/(b*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[A*(a*d*m+b*c*(n+1))-B*(a*c*m+b*d*(n+1))+b*(B*c-A*d)*(m+n+2)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n<-1 && 
-  (IntegerQ[n] || EqQ[m+1/2])
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  (A*b-a*B)/(b*c-a*d)*Int[1/Sqrt[a+b*Sin[e+f*x]],x] + 
-  (B*c-A*d)/(b*c-a*d)*Int[Sqrt[a+b*Sin[e+f*x]]/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  B/d*Int[(a+b*Sin[e+f*x])^m,x] - (B*c-A*d)/d*Int[(a+b*Sin[e+f*x])^m/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[m+1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)/b*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n,x] + 
-  B/b*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[A*b+a*B]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*(B*c-A*d)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[b*(b*c-a*d)*(B*c-A*d)*(m-1)+a*d*(a*A*c+b*B*c-(A*b+a*B)*d)*(n+1)+
-      (b*(b*d*(B*c-A*d)+a*(A*c*d+B*(c^2-2*d^2)))*(n+1)-a*(b*c-a*d)*(B*c-A*d)*(n+2))*Sin[e+f*x]+
-      b*(d*(A*b*c+a*B*c-a*A*d)*(m+n+1)-b*B*(c^2*m+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>1 && n<-1
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -b*B*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(d*(m+n+1))*Int[(a+b*Sin[e+f*x])^(m-2)*(c+d*Sin[e+f*x])^n*
-    Simp[a^2*A*d*(m+n+1)+b*B*(b*c*(m-1)+a*d*(n+1))+
-      (a*d*(2*A*b+a*B)*(m+n+1)-b*B*(a*c-b*d*(m+n)))*Sin[e+f*x]+
-      b*(A*b*d*(m+n+1)-B*(b*c*m-a*d*(2*m+n)))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>1 && 
-  Not[IntegerQ[n] && n>1 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
-
-
-Int[Sqrt[c_+d_.*sin[e_.+f_.*x_]]*(A_.+B_.*sin[e_.+f_.*x_])/(b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  B*d/b^2*Int[Sqrt[b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  Int[(A*c+(B*c+A*d)*Sin[e+f*x])/((b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[c_.+d_.*sin[e_.+f_.*x_]]*(A_.+B_.*sin[e_.+f_.*x_])/(a_+b_.*sin[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  B/b*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
-  (A*b-a*B)/b*Int[Sqrt[c+d*Sin[e+f*x]]/(a+b*Sin[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  2*(A*b-a*B)*Cos[e+f*x]/(f*(a^2-b^2)*Sqrt[a+b*Sin[e+f*x]]*Sqrt[d*Sin[e+f*x]]) + 
-  d/(a^2-b^2)*Int[(A*b-a*B+(a*A-b*B)*Sin[e+f*x])/(Sqrt[a+b*Sin[e+f*x]]*(d*Sin[e+f*x])^(3/2)),x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[a^2-b^2]
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/((b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*A*(c-d)*Tan[e+f*x]/(f*b*c^2)*Rt[(c+d)/b,2]*Sqrt[c*(1+Csc[e+f*x])/(c-d)]*Sqrt[c*(1-Csc[e+f*x])/(c+d)]*
-    EllipticE[ArcSin[Sqrt[c+d*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]/Rt[(c+d)/b,2]],-(c+d)/(c-d)] /;
-FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2] && EqQ[A-B] && PosQ[(c+d)/b]
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/((b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -Sqrt[-b*Sin[e+f*x]]/Sqrt[b*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/((-b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{b,c,d,e,f,A,B},x] && NeQ[c^2-d^2] && EqQ[A-B] && NegQ[(c+d)/b]
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -2*A*(c-d)*(a+b*Sin[e+f*x])/(f*(b*c-a*d)^2*Rt[(a+b)/(c+d),2]*Cos[e+f*x])*
-    Sqrt[(b*c-a*d)*(1+Sin[e+f*x])/((c-d)*(a+b*Sin[e+f*x]))]*
-    Sqrt[-(b*c-a*d)*(1-Sin[e+f*x])/((c+d)*(a+b*Sin[e+f*x]))]*
-    EllipticE[ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B] && PosQ[(a+b)/(c+d)]
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[-c-d*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[-c-d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B] && NegQ[(a+b)/(c+d)]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  (A-B)/(a-b)*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] - 
-  (A*b-a*B)/(a-b)*Int[(1+Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && NeQ[A-B]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  (B*a-A*b)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n-1)*
-    Simp[c*(a*A-b*B)*(m+1)+d*n*(A*b-a*B)+(d*(a*A-b*B)*(m+1)-c*(A*b-a*B)*(m+2))*Sin[e+f*x]-d*(A*b-a*B)*(m+n+2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m<-1 && n>0
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b^2-a*b*B)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(1+n)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[(a*A-b*B)*(b*c-a*d)*(m+1)+b*d*(A*b-a*B)*(m+n+2)+
-      (A*b-a*B)*(a*d*(m+1)-b*c*(m+2))*Sin[e+f*x]-
-      b*d*(A*b-a*B)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
-  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/((a_.+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  (A*b-a*B)/(b*c-a*d)*Int[1/(a+b*Sin[e+f*x]),x] + (B*c-A*d)/(b*c-a*d)*Int[1/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_])/(c_.+d_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  B/d*Int[(a+b*Sin[e+f*x])^m,x] - (B*c-A*d)/d*Int[(a+b*Sin[e+f*x])^m/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -2*B*Cos[e+f*x]*Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])^n/(f*(2*n+3)) + 
-  1/(2*n+3)*Int[(c+d*Sin[e+f*x])^(n-1)/Sqrt[a+b*Sin[e+f*x]]*
-    Simp[a*A*c*(2*n+3)+B*(b*c+2*a*d*n)+
-      (B*(a*c+b*d)*(2*n+1)+A*(b*c+a*d)*(2*n+3))*Sin[e+f*x]+
-      (A*b*d*(2*n+3)+B*(a*d+2*b*c*n))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[n] && n^2==1/4
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/(Sqrt[sin[e_.+f_.*x_]]*Sqrt[a_+b_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  4*A/(f*Sqrt[a+b])*EllipticPi[-1,-ArcSin[Cos[e+f*x]/(1+Sin[e+f*x])],-(a-b)/(a+b)] /;
-FreeQ[{a,b,e,f,A,B},x] && PositiveQ[b] && PositiveQ[b^2-a^2] && EqQ[A-B]
-
-
-Int[(A_+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[d_*sin[e_.+f_.*x_]]),x_Symbol] :=
-  Sqrt[Sin[e+f*x]]/Sqrt[d*Sin[e+f*x]]*Int[(A+B*Sin[e+f*x])/(Sqrt[Sin[e+f*x]]*Sqrt[a+b*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,e,f,d,A,B},x] && PositiveQ[b] && PositiveQ[b^2-a^2] && EqQ[A-B]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_])/(Sqrt[a_+b_.*sin[e_.+f_.*x_]]*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  B/d*Int[Sqrt[c+d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] - 
-  (B*c-A*d)/d*Int[1/(Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-(* Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_])^p_,x_Symbol] :=
-  a^m*c^m*Int[Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m)*(A+B*Sin[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
-  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
-
-
-(* Int[(a_+b_.*cos[e_.+f_.*x_])^m_*(c_+d_.*cos[e_.+f_.*x_])^n_*(A_.+B_.*cos[e_.+f_.*x_])^p_,x_Symbol] :=
-  a^m*c^m*Int[Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m)*(A+B*Cos[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
-  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_])^p_,x_Symbol] :=
-  Sqrt[a+b*Sin[e+f*x]]*Sqrt[c+d*Sin[e+f*x]]/(f*Cos[e+f*x])*
-    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)*(A+B*x)^p,x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*cos[e_.+f_.*x_])^m_.*(c_+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_])^p_,x_Symbol] :=
-  -Sqrt[a+b*Cos[e+f*x]]*Sqrt[c+d*Cos[e+f*x]]/(f*Sin[e+f*x])*
-    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)*(A+B*x)^p,x],x,Cos[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.4.1 (a+b sin)^m (A+B sin+C sin^2)*)
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_.*(B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b*Int[(b*Sin[e+f*x])^(m+1)*(B+C*Sin[e+f*x]),x] /;
-FreeQ[{b,e,f,B,C,m},x]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) /;
-FreeQ[{b,e,f,A,C,m},x] && EqQ[A*(m+2)+C*(m+1)]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+1)) + (A*(m+2)+C*(m+1))/(b^2*(m+1))*Int[(b*Sin[e+f*x])^(m+2),x] /;
-FreeQ[{b,e,f,A,C},x] && RationalQ[m] && m<-1
-
-
-Int[sin[e_.+f_.*x_]^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -1/f*Subst[Int[(1-x^2)^((m-1)/2)*(A+C-C*x^2),x],x,Cos[e+f*x]] /;
-FreeQ[{e,f,A,C},x] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_.*(A_+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + (A*(m+2)+C*(m+1))/(m+2)*Int[(b*Sin[e+f*x])^m,x] /;
-FreeQ[{b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  C/b^2*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[-a+b*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (A-C)*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x]),x] + C*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x])^2,x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A-B+C] && Not[IntegerQ[2*m]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (A-C)*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x]),x] + C*Int[(a+b*Sin[e+f*x])^m*(1+Sin[e+f*x])^2,x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A+C] && Not[IntegerQ[2*m]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b-a*B+b*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
-  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*A*(m+1)+m*(b*B-a*C)+b*C*(2*m+1)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  b*(A+C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m/(a*f*(2*m+1)) + 
-  1/(a^2*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*A*(m+1)-a*C*m+b*C*(2*m+1)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
-  1/(b*(m+1)*(a^2-b^2))*
-    Int[(a+b*Sin[e+f*x])^(m+1)*Simp[b*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C+b*(A*b-a*B+b*C)*(m+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
-  1/(b*(m+1)*(a^2-b^2))*
-    Int[(a+b*Sin[e+f*x])^(m+1)*Simp[a*b*(A+C)*(m+1)-(A*b^2+a^2*C+b^2*(A+C)*(m+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[A*b*(m+2)+b*C*(m+1)+(b*B*(m+2)-a*C)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[(a+b*Sin[e+f*x])^m*Simp[A*b*(m+2)+b*C*(m+1)-a*C*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(A+B*Cos[e+f*x]+C*Cos[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(A+C*Sin[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(A_.+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(A+C*Cos[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.4.2 (a+b sin)^m (c+d sin)^n (A+B sin+C sin^2)*)
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(b*c-a*d)*(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
-  1/(b^2*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
-    Simp[b*(m+1)*((b*B-a*C)*(b*c-a*d)-A*b*(a*c-b*d))+
-      (b*B*(a^2*d+b^2*d*(m+1)-a*b*c*(m+2))+(b*c-a*d)*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Sin[e+f*x]-
-      b*C*d*(m+1)*(a^2-b^2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(b*c-a*d)*(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) + 
-  1/(b^2*(m+1)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*
-    Simp[b*(m+1)*(a*C*(b*c-a*d)+A*b*(a*c-b*d))-
-      ((b*c-a*d)*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Sin[e+f*x]+
-      b*C*d*(m+1)*(a^2-b^2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*d*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+3)) + 
-  1/(b*(m+3))*Int[(a+b*Sin[e+f*x])^m*
-    Simp[a*C*d+A*b*c*(m+3)+b*(B*c*(m+3)+d*(C*(m+2)+A*(m+3)))*Sin[e+f*x]-(2*a*C*d-b*(c*C+B*d)*(m+3))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_+d_.*sin[e_.+f_.*x_])*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*d*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(m+3)) + 
-  1/(b*(m+3))*Int[(a+b*Sin[e+f*x])^m*
-    Simp[a*C*d+A*b*c*(m+3)+b*d*(C*(m+2)+A*(m+3))*Sin[e+f*x]-(2*a*C*d-b*c*C*(m+3))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (a*A-b*B+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(2*b*c*f*(2*m+1)) - 
-  1/(2*b*c*d*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[A*(c^2*(m+1)+d^2*(2*m+n+2))-B*c*d*(m-n-1)-C*(c^2*m-d^2*(n+1))+d*((A*c+B*d)*(m+n+2)-c*C*(3*m-n))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1/2 || EqQ[m+n+2] && NeQ[2*m+1])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (a*A+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(2*b*c*f*(2*m+1)) - 
-  1/(2*b*c*d*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[A*(c^2*(m+1)+d^2*(2*m+n+2))-C*(c^2*m-d^2*(n+1))+d*(A*c*(m+n+2)-c*C*(3*m-n))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (RationalQ[m] && m<-1/2 || EqQ[m+n+2] && NeQ[2*m+1])
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2*C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+3)*Sqrt[c+d*Sin[e+f*x]]) + 
-  Int[(a+b*Sin[e+f*x])^m*Simp[A+C+B*Sin[e+f*x],x]/Sqrt[c+d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(A_.+C_.*sin[e_.+f_.*x_]^2)/Sqrt[c_.+d_.*sin[e_.+f_.*x_]],x_Symbol] :=
-  -2*C*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)/(b*f*(2*m+3)*Sqrt[c+d*Sin[e+f*x]]) + 
-  (A+C)*Int[(a+b*Sin[e+f*x])^m/Sqrt[c+d*Sin[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
-    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+(b*B*d*(m+n+2)-b*c*C*(2*m+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && NeQ[m+n+2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
-    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))-b*c*C*(2*m+1)*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && NeQ[m+n+2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (a*A-b*B+a*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(b*c-a*d)*(2*m+1)) + 
-  1/(b*(b*c-a*d)*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[A*(a*c*(m+1)-b*d*(2*m+n+2))+B*(b*c*m+a*d*(n+1))-C*(a*c*m+b*d*(n+1))+
-      (d*(a*A-b*B)*(m+n+2)+C*(b*c*(2*m+1)-a*d*(m-n-1)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  a*(A+C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(f*(b*c-a*d)*(2*m+1)) + 
-  1/(b*(b*c-a*d)*(2*m+1))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[A*(a*c*(m+1)-b*d*(2*m+n+2))-C*(a*c*m+b*d*(n+1))+
-      (a*A*d*(m+n+2)+C*(b*c*(2*m+1)-a*d*(m-n-1)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(c^2*C-B*c*d+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(b*d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[A*d*(a*d*m+b*c*(n+1))+(c*C-B*d)*(a*c*m+b*d*(n+1))+b*(d*(B*c-A*d)*(m+n+2)-C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
-  (RationalQ[n] && n<-1 || EqQ[m+n+2])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(c^2*C+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(b*d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[A*d*(a*d*m+b*c*(n+1))+c*C*(a*c*m+b*d*(n+1))-b*(A*d^2*(m+n+2)+C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
-  (RationalQ[n] && n<-1 || EqQ[m+n+2])
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
-    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+(C*(a*d*m-b*c*(m+1))+b*B*d*(m+n+2))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
-  NeQ[m+n+2]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(b*d*(m+n+2))*Int[(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*
-    Simp[A*b*d*(m+n+2)+C*(a*c*m+b*d*(n+1))+C*(a*d*m-b*c*(m+1))*Sin[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && Not[RationalQ[m] && m<-1/2] && 
-  NeQ[m+n+2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(c^2*C-B*c*d+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[A*d*(b*d*m+a*c*(n+1))+(c*C-B*d)*(b*c*m+a*d*(n+1)) - 
-      (d*(A*(a*d*(n+2)-b*c*(n+1))+B*(b*d*(n+1)-a*c*(n+2)))-C*(b*c*d*(n+1)-a*(c^2+d^2*(n+1))))*Sin[e+f*x] + 
-      b*(d*(B*c-A*d)*(m+n+2)-C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(c^2*C+A*d^2)*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(n+1)*(c^2-d^2)) + 
-  1/(d*(n+1)*(c^2-d^2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^(n+1)*
-    Simp[A*d*(b*d*m+a*c*(n+1))+c*C*(b*c*m+a*d*(n+1)) - 
-      (A*d*(a*d*(n+2)-b*c*(n+1))-C*(b*c*d*(n+1)-a*(c^2+d^2*(n+1))))*Sin[e+f*x] - 
-      b*(A*d^2*(m+n+2)+C*(c^2*(m+1)+d^2*(n+1)))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(d*(m+n+2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
-    Simp[a*A*d*(m+n+2)+C*(b*c*m+a*d*(n+1))+
-      (d*(A*b+a*B)*(m+n+2)-C*(a*c-b*d*(m+n+1)))*Sin[e+f*x]+
-      (C*(a*d*m-b*c*(m+1))+b*B*d*(m+n+2))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>0 && 
-  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_.*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cos[e+f*x]*(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^(n+1)/(d*f*(m+n+2)) + 
-  1/(d*(m+n+2))*Int[(a+b*Sin[e+f*x])^(m-1)*(c+d*Sin[e+f*x])^n*
-    Simp[a*A*d*(m+n+2)+C*(b*c*m+a*d*(n+1))+(A*b*d*(m+n+2)-C*(a*c-b*d*(m+n+1)))*Sin[e+f*x]+C*(a*d*m-b*c*(m+1))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m>0 && 
-  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[a] && NeQ[c])]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  C/(b*d)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
-  1/b*Int[(A*b+(b*B-a*C)*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  C/(b*d)*Int[Sqrt[d*Sin[e+f*x]]/Sqrt[a+b*Sin[e+f*x]],x] + 
-  1/b*Int[(A*b-a*C*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  C/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  1/b^2*Int[(A*b^2-a^2*C+b*(b*B-2*a*C)*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_.+b_.*sin[e_.+f_.*x_])^(3/2)*Sqrt[c_.+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  C/b^2*Int[Sqrt[a+b*Sin[e+f*x]]/Sqrt[c+d*Sin[e+f*x]],x] + 
-  1/b^2*Int[(A*b^2-a^2*C-2*a*b*C*Sin[e+f*x])/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2-a*b*B+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[(m+1)*(b*c-a*d)*(a*A-b*B+a*C)+d*(A*b^2-a*b*B+a^2*C)*(m+n+2) - 
-      (c*(A*b^2-a*b*B+a^2*C)+(m+1)*(b*c-a*d)*(A*b-a*B+b*C))*Sin[e+f*x] - 
-      d*(A*b^2-a*b*B+a^2*C)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 &&
-  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2+a^2*C)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2-b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2-b^2))*Int[(a+b*Sin[e+f*x])^(m+1)*(c+d*Sin[e+f*x])^n*
-    Simp[a*(m+1)*(b*c-a*d)*(A+C)+d*(A*b^2+a^2*C)*(m+n+2) - 
-      (c*(A*b^2+a^2*C)+b*(m+1)*(b*c-a*d)*(A+C))*Sin[e+f*x] - 
-      d*(A*b^2+a^2*C)*(m+n+3)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && RationalQ[m] && m<-1 && 
-  (EqQ[a] && IntegerQ[m] && Not[IntegerQ[n]] || Not[IntegerQ[2*n] && n<-1 && (IntegerQ[n] && Not[IntegerQ[m]] || EqQ[a])])
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  C*x/(b*d) + 
-  (A*b^2-a*b*B+a^2*C)/(b*(b*c-a*d))*Int[1/(a+b*Sin[e+f*x]),x] - 
-  (c^2*C-B*c*d+A*d^2)/(d*(b*c-a*d))*Int[1/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/((a_+b_.*sin[e_.+f_.*x_])*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  C*x/(b*d) + 
-  (A*b^2+a^2*C)/(b*(b*c-a*d))*Int[1/(a+b*Sin[e+f*x]),x] - 
-  (c^2*C+A*d^2)/(d*(b*c-a*d))*Int[1/(c+d*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  C/(b*d)*Int[Sqrt[a+b*Sin[e+f*x]],x] - 
-  1/(b*d)*Int[Simp[a*c*C-A*b*d+(b*c*C-b*B*d+a*C*d)*Sin[e+f*x],x]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*(c_.+d_.*sin[e_.+f_.*x_])),x_Symbol] :=
-  C/(b*d)*Int[Sqrt[a+b*Sin[e+f*x]],x] - 
-  1/(b*d)*Int[Simp[a*c*C-A*b*d+(b*c*C+a*C*d)*Sin[e+f*x],x]/(Sqrt[a+b*Sin[e+f*x]]*(c+d*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -C*Cos[e+f*x]*Sqrt[c+d*Sin[e+f*x]]/(d*f*Sqrt[a+b*Sin[e+f*x]]) + 
-  1/(2*d)*Int[1/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]])*
-    Simp[2*a*A*d-C*(b*c-a*d)-2*(a*c*C-d*(A*b+a*B))*Sin[e+f*x]+(2*b*B*d-C*(b*c+a*d))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(A_.+C_.*sin[e_.+f_.*x_]^2)/(Sqrt[a_.+b_.*sin[e_.+f_.*x_]]*Sqrt[c_+d_.*sin[e_.+f_.*x_]]),x_Symbol] :=
-  -C*Cos[e+f*x]*Sqrt[c+d*Sin[e+f*x]]/(d*f*Sqrt[a+b*Sin[e+f*x]]) + 
-  1/(2*d)*Int[1/((a+b*Sin[e+f*x])^(3/2)*Sqrt[c+d*Sin[e+f*x]])*
-    Simp[2*a*A*d-C*(b*c-a*d)-2*(a*c*C-A*b*d)*Sin[e+f*x]-C*(b*c+a*d)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_])^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  Defer[Int][(a+b*Sin[e+f*x])^m*(c+d*Sin[e+f*x])^n*(A+C*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+B_.*sin[e_.+f_.*x_]+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(c+d*Sin[e+f*x])^n*(A+B*Sin[e+f*x]+C*Sin[e+f*x]^2),x] /;
-FreeQ[{b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(c+d*Cos[e+f*x])^n*(A+B*Cos[e+f*x]+C*Cos[e+f*x]^2),x] /;
-FreeQ[{b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^p_)^m_*(c_.+d_.*sin[e_.+f_.*x_])^n_.*(A_.+C_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Sin[e+f*x]^p)^m/(b*Sin[e+f*x])^(m*p)*Int[(b*Sin[e+f*x])^(m*p)*(c+d*Sin[e+f*x])^n*(A+C*Sin[e+f*x]^2),x] /;
-FreeQ[{b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_]^p_)^m_*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_Symbol] :=
-  (b*Cos[e+f*x]^p)^m/(b*Cos[e+f*x])^(m*p)*Int[(b*Cos[e+f*x])^(m*p)*(c+d*Cos[e+f*x])^n*(A+C*Cos[e+f*x]^2),x] /;
-FreeQ[{b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.5 trig^m (a cos+b sin)^n*)
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(b*d*n) /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2,0]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -1/d*Subst[Int[(a^2+b^2-x^2)^((n-1)/2),x],x,b*Cos[c+d*x]-a*Sin[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && PositiveIntegerQ[(n-1)/2]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -(b*Cos[c+d*x]-a*Sin[c+d*x])*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*n) +
-  (n-1)*(a^2+b^2)/n*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && Not[OddQ[n]] && GtQ[n,1]
-
-
-Int[1/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  -1/d*Subst[Int[1/(a^2+b^2-x^2),x],x,b*Cos[c+d*x]-a*Sin[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[1/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^2,x_Symbol] :=
-  Sin[c+d*x]/(a*d*(a*Cos[c+d*x]+b*Sin[c+d*x])) /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  (b*Cos[c+d*x]-a*Sin[c+d*x])*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(d*(n+1)*(a^2+b^2)) +
-  (n+2)/((n+1)*(a^2+b^2))*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && NeQ[n,-2]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  (a^2+b^2)^(n/2)*Int[(Cos[c+d*x-ArcTan[a,b]])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[GeQ[n,1] || LeQ[n,-1]] && PositiveQ[a^2+b^2]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  (a*Cos[c+d*x]+b*Sin[c+d*x])^n/((a*Cos[c+d*x]+b*Sin[c+d*x])/Sqrt[a^2+b^2])^n*Int[Cos[c+d*x-ArcTan[a,b]]^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[GeQ[n,1] || LeQ[n,-1]] && Not[PositiveQ[a^2+b^2] || EqQ[a^2+b^2,0]]
-
-
-Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -a*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)*Sin[c+d*x]^(n-1)) + 
-  2*b*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/Sin[c+d*x]^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && GtQ[n,1]
-
-
-Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)*Cos[c+d*x]^(n-1)) + 
-  2*a*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/Cos[c+d*x]^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && GtQ[n,1]
-
-
-Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*b*d*n*Sin[c+d*x]^n) + 
-  1/(2*b)*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/Sin[c+d*x]^(n+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && LtQ[n,0]
-
-
-Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*a*d*n*Cos[c+d*x]^n) + 
-  1/(2*a)*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/Cos[c+d*x]^(n+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && LtQ[n,0]
-
-
-Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*b*d*n*Sin[c+d*x]^n)*Hypergeometric2F1[1,n,n+1,(b+a*Cot[c+d*x])/(2*b)] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && Not[IntegerQ[n]]
-
-
-Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^n/(2*a*d*n*Cos[c+d*x]^n)*Hypergeometric2F1[1,n,n+1,(a+b*Tan[c+d*x])/(2*a)] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[m+n,0] && EqQ[a^2+b^2,0] && Not[IntegerQ[n]]
-
-
-Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[(b+a*Cot[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && IntegerQ[n] && NeQ[a^2+b^2,0]
-
-
-Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[(a+b*Tan[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && EqQ[m+n,0] && IntegerQ[n] && NeQ[a^2+b^2,0]
-
-
-Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  1/d*Subst[Int[x^m*(a+b*x)^n/(1+x^2)^((m+n+2)/2),x],x,Tan[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[n] && IntegerQ[(m+n)/2] && n!=-1 && Not[n>0 && m>1]
-
-
-Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -1/d*Subst[Int[x^m*(b+a*x)^n/(1+x^2)^((m+n+2)/2),x],x,Cot[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[n] && IntegerQ[(m+n)/2] && n!=-1 && Not[n>0 && m>1]
-
-
-Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandTrig[sin[c+d*x]^m*(a*cos[c+d*x]+b*sin[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && PositiveIntegerQ[n]
-
-
-Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandTrig[cos[c+d*x]^m*(a*cos[c+d*x]+b*sin[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && PositiveIntegerQ[n]
-
-
-Int[sin[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^n*b^n*Int[Sin[c+d*x]^m*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-n),x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[n]
-
-
-Int[cos[c_.+d_.*x_]^m_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^n*b^n*Int[Cos[c+d*x]^m*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-n),x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[n]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/sin[c_.+d_.*x_],x_Symbol] :=
-  a*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)) + 
-  b*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
-  a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2)/Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/cos[c_.+d_.*x_],x_Symbol] :=
-  -b*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1)/(d*(n-1)) + 
-  a*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
-  b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2)/Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
-
-
-Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -(a^2+b^2)*Int[Sin[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] + 
-  2*b*Int[Sin[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
-  a^2*Int[Sin[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[n,1] && LtQ[m,-1]
-
-
-Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  -(a^2+b^2)*Int[Cos[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] + 
-  2*a*Int[Cos[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-1),x] + 
-  b^2*Int[Cos[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[n,1] && LtQ[m,-1]
-
-
-Int[sin[c_.+d_.*x_]/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  b*x/(a^2+b^2) - 
-  a/(a^2+b^2)*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[cos[c_.+d_.*x_]/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  a*x/(a^2+b^2) + 
-  b/(a^2+b^2)*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[sin[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  -a*Sin[c+d*x]^(m-1)/(d*(a^2+b^2)*(m-1)) + 
-  b/(a^2+b^2)*Int[Sin[c+d*x]^(m-1),x] + 
-  a^2/(a^2+b^2)*Int[Sin[c+d*x]^(m-2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[m,1]
-
-
-Int[cos[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  b*Cos[c+d*x]^(m-1)/(d*(a^2+b^2)*(m-1)) + 
-  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1),x] + 
-  b^2/(a^2+b^2)*Int[Cos[c+d*x]^(m-2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && GtQ[m,1]
-
-
-Int[1/(sin[c_.+d_.*x_]*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])),x_Symbol] :=
-  1/a*Int[Cot[c+d*x],x] - 
-  1/a*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[1/(cos[c_.+d_.*x_]*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])),x_Symbol] :=
-  1/b*Int[Tan[c+d*x],x] + 
-  1/b*Int[(b*Cos[c+d*x]-a*Sin[c+d*x])/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0]
-
-
-Int[sin[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  Sin[c+d*x]^(m+1)/(a*d*(m+1)) - 
-  b/a^2*Int[Sin[c+d*x]^(m+1),x] + 
-  (a^2+b^2)/a^2*Int[Sin[c+d*x]^(m+2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[m,-1]
-
-
-Int[cos[c_.+d_.*x_]^m_/(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  -Cos[c+d*x]^(m+1)/(b*d*(m+1)) - 
-  a/b^2*Int[Cos[c+d*x]^(m+1),x] + 
-  (a^2+b^2)/b^2*Int[Cos[c+d*x]^(m+2)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[m,-1]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/sin[c_.+d_.*x_],x_Symbol] :=
-  -(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(a*d*(n+1)) - 
-  b/a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
-  1/a^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2)/Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
-
-
-Int[(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_/cos[c_.+d_.*x_],x_Symbol] :=
-  (a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  a/b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
-  1/b^2*Int[(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2)/Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1]
-
-
-Int[sin[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  (a^2+b^2)/a^2*Int[Sin[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^n,x] - 
-  2*b/a^2*Int[Sin[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
-  1/a^2*Int[Sin[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && LtQ[m,-1]
-
-
-Int[cos[c_.+d_.*x_]^m_*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_,x_Symbol] :=
-  (a^2+b^2)/b^2*Int[Cos[c+d*x]^(m+2)*(a*Cos[c+d*x]+b*Sin[c+d*x])^n,x] - 
-  2*a/b^2*Int[Cos[c+d*x]^(m+1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+1),x] + 
-  1/b^2*Int[Cos[c+d*x]^m*(a*Cos[c+d*x]+b*Sin[c+d*x])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && LtQ[n,-1] && LtQ[m,-1]
-
-
-Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_.,x_Symbol] :=
-  Int[ExpandTrig[cos[c+d*x]^m*sin[c+d*x]^n*(a*cos[c+d*x]+b*sin[c+d*x])^p,x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  a^p*b^p*Int[Cos[c+d*x]^m*Sin[c+d*x]^n*(b*Cos[c+d*x]+a*Sin[c+d*x])^(-p),x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[a^2+b^2,0] && NegativeIntegerQ[p]
-
-
-Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_./(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  b/(a^2+b^2)*Int[Cos[c+d*x]^m*Sin[c+d*x]^(n-1),x] +
-  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^n,x] -
-  a*b/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^(n-1)/(a*Cos[c+d*x]+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && IntegersQ[m,n] && m>0 && n>0
-
-
-Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_./(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_]),x_Symbol] :=
-  Int[ExpandTrig[cos[c+d*x]^m*sin[c+d*x]^n/(a*cos[c+d*x]+b*sin[c+d*x]),x],x] /;
-FreeQ[{a,b,c,d,m,n},x] && IntegersQ[m,n]
-
-
-Int[cos[c_.+d_.*x_]^m_.*sin[c_.+d_.*x_]^n_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  b/(a^2+b^2)*Int[Cos[c+d*x]^m*Sin[c+d*x]^(n-1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^(p+1),x] +
-  a/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^n*(a*Cos[c+d*x]+b*Sin[c+d*x])^(p+1),x] -
-  a*b/(a^2+b^2)*Int[Cos[c+d*x]^(m-1)*Sin[c+d*x]^(n-1)*(a*Cos[c+d*x]+b*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2,0] && IntegersQ[m,n,p] && m>0 && n>0 && p<0
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.6 (a+b cos+c sin)^n*)
-
-
-Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  -2*(c*Cos[d+e*x]-b*Sin[d+e*x])/(e*Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
-
-
-Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  -(c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)/(e*n) +
-  a*(2*n-1)/n*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2] && RationalQ[n] && n>0
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  -(c-a*Sin[d+e*x])/(c*e*(c*Cos[d+e*x]-b*Sin[d+e*x])) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
-
-
-Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  Int[1/Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2]
-
-
-Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  (c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(2*n+1)) +
-  (n+1)/(a*(2*n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a^2-b^2-c^2] && RationalQ[n] && n<-1
-
-
-Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  b/(c*e)*Subst[Int[Sqrt[a+x]/x,x],x,b*Cos[d+e*x]+c*Sin[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[b^2+c^2]
-
-
-Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  Int[Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2+c^2] && PositiveQ[a+Sqrt[b^2+c^2]]
-
-
-Int[Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/Sqrt[(a+b*Cos[d+e*x]+c*Sin[d+e*x])/(a+Sqrt[b^2+c^2])]*
-    Int[Sqrt[a/(a+Sqrt[b^2+c^2])+Sqrt[b^2+c^2]/(a+Sqrt[b^2+c^2])*Cos[d+e*x-ArcTan[b,c]]],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && NeQ[b^2+c^2] && Not[PositiveQ[a+Sqrt[b^2+c^2]]]
-
-
-Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  -(c*Cos[d+e*x]-b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)/(e*n) +
-  1/n*Int[Simp[n*a^2+(n-1)*(b^2+c^2)+a*b*(2*n-1)*Cos[d+e*x]+a*c*(2*n-1)*Sin[d+e*x],x]*
-    (a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && RationalQ[n] && n>1
-
-
-(* Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  x/Sqrt[a^2-b^2-c^2] + 
-  2/(e*Sqrt[a^2-b^2-c^2])*ArcTan[(c*Cos[d+e*x]-b*Sin[d+e*x])/(a+Sqrt[a^2-b^2-c^2]+b*Cos[d+e*x]+c*Sin[d+e*x])] /;
-FreeQ[{a,b,c,d,e},x] && PositiveQ[a^2-b^2-c^2] *)
-
-
-(* Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  Log[RemoveContent[b^2+c^2+(a*b-c*Rt[-a^2+b^2+c^2,2])*Cos[d+e*x]+(a*c+b*Sqrt[-a^2+b^2+c^2])*Sin[d+e*x],x]]/
-    (2*e*Rt[-a^2+b^2+c^2,2]) - 
-  Log[RemoveContent[b^2+c^2+(a*b+c*Rt[-a^2+b^2+c^2,2])*Cos[d+e*x]+(a*c-b*Sqrt[-a^2+b^2+c^2])*Sin[d+e*x],x]]/
-    (2*e*Rt[-a^2+b^2+c^2,2]) /;
-FreeQ[{a,b,c,d,e},x] && NegativeQ[a^2-b^2-c^2] *)
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  Module[{f=FreeFactors[Cot[(d+e*x)/2],x]},
-  -f/e*Subst[Int[1/(a+c*f*x),x],x,Cot[(d+e*x)/2]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a+b]
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  Module[{f=FreeFactors[Tan[(d+e*x)/2+Pi/4],x]},
-  f/e*Subst[Int[1/(a+b*f*x),x],x,Tan[(d+e*x)/2+Pi/4]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a+c]
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  Module[{f=FreeFactors[Cot[(d+e*x)/2+Pi/4],x]},
-  -f/e*Subst[Int[1/(a+b*f*x),x],x,Cot[(d+e*x)/2+Pi/4]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[a-c] && NeQ[a-b]
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  Module[{f=FreeFactors[Tan[(d+e*x)/2],x]},
-  2*f/e*Subst[Int[1/(a+b+2*c*f*x+(a-b)*f^2*x^2),x],x,Tan[(d+e*x)/2]/f]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2]
-
-
-Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  b/(c*e)*Subst[Int[1/(x*Sqrt[a+x]),x],x,b*Cos[d+e*x]+c*Sin[d+e*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[b^2+c^2]
-
-
-Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  Int[1/Sqrt[a+Sqrt[b^2+c^2]*Cos[d+e*x-ArcTan[b,c]]],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b^2+c^2] && PositiveQ[a+Sqrt[b^2+c^2]]
-
-
-Int[1/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  Sqrt[(a+b*Cos[d+e*x]+c*Sin[d+e*x])/(a+Sqrt[b^2+c^2])]/Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]*
-    Int[1/Sqrt[a/(a+Sqrt[b^2+c^2])+Sqrt[b^2+c^2]/(a+Sqrt[b^2+c^2])*Cos[d+e*x-ArcTan[b,c]]],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && NeQ[b^2+c^2] && Not[PositiveQ[a+Sqrt[b^2+c^2]]]
-
-
-Int[1/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^(3/2),x_Symbol] :=
-  2*(c*Cos[d+e*x]-b*Sin[d+e*x])/(e*(a^2-b^2-c^2)*Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]]) +
-  1/(a^2-b^2-c^2)*Int[Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2]
-
-
-Int[(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  (-c*Cos[d+e*x]+b*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/(e*(n+1)*(a^2-b^2-c^2)) +
-  1/((n+1)*(a^2-b^2-c^2))*
-    Int[(a*(n+1)-b*(n+2)*Cos[d+e*x]-c*(n+2)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2-c^2] && RationalQ[n] && n<-1 && n!=-3/2
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  (2*a*A-b*B-c*C)*x/(2*a^2) - (b*B+c*C)*(b*Cos[d+e*x]-c*Sin[d+e*x])/(2*a*b*c*e) + 
-  (a^2*(b*B-c*C)-2*a*A*b^2+b^2*(b*B+c*C))*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*b*c*e) /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[b^2+c^2]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  (2*a*A-c*C)*x/(2*a^2) - C*Cos[d+e*x]/(2*a*e) + c*C*Sin[d+e*x]/(2*a*b*e) + 
-  (-a^2*C+2*a*c*A+b^2*C)*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*b*e) /;
-FreeQ[{a,b,c,d,e,A,C},x] && EqQ[b^2+c^2]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  (2*a*A-b*B)*x/(2*a^2) - b*B*Cos[d+e*x]/(2*a*c*e) + B*Sin[d+e*x]/(2*a*e) + 
-  (a^2*B-2*a*b*A+b^2*B)*Log[RemoveContent[a+b*Cos[d+e*x]+c*Sin[d+e*x],x]]/(2*a^2*c*e) /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2+c^2]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  (b*B+c*C)*x/(b^2+c^2) + (c*B-b*C)*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*(b*B+c*C)]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  c*C*x/(b^2+c^2) - b*C*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
-FreeQ[{a,b,c,d,e,A,C},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*c*C]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  b*B*x/(b^2+c^2) + c*B*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2+c^2] && EqQ[A*(b^2+c^2)-a*b*B]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  (b*B+c*C)*x/(b^2+c^2) + (c*B-b*C)*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
-  (A*(b^2+c^2)-a*(b*B+c*C))/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*(b*B+c*C)]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  c*C*(d+e*x)/(e*(b^2+c^2)) - b*C*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
-  (A*(b^2+c^2)-a*c*C)/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,C},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*c*C]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]),x_Symbol] :=
-  b*B*(d+e*x)/(e*(b^2+c^2)) +
-  c*B*Log[a+b*Cos[d+e*x]+c*Sin[d+e*x]]/(e*(b^2+c^2)) +
-  (A*(b^2+c^2)-a*b*B)/(b^2+c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2+c^2] && NeQ[A*(b^2+c^2)-a*b*B]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
-FreeQ[{a,b,c,d,e,A,B,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[(b*B+c*C)*n+a*A*(n+1)]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
-FreeQ[{a,b,c,d,e,A,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[c*C*n+a*A*(n+1)]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) /;
-FreeQ[{a,b,c,d,e,A,B,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && EqQ[b*B*n+a*A*(n+1)]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  ((b*B+c*C)*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e,A,B,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[(b*B+c*C)*n+a*A*(n+1)]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  (c*C*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e,A,C,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[c*C*n+a*A*(n+1)]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  (b*B*n+a*A*(n+1))/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e,A,B,n},x] && NeQ[n+1] && EqQ[a^2-b^2-c^2] && NeQ[b*B*n+a*A*(n+1)]
-
-
-Int[(B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (c*B-b*C)*(b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/(e*(n+1)*(b^2+c^2)) /;
-FreeQ[{b,c,d,e,B,C},x] && NeQ[n+1] && NeQ[b^2+c^2] && EqQ[b*B+c*C]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c-b*C-a*C*Cos[d+e*x]+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
-	Simp[a*(b*B+c*C)*n+a^2*A*(n+1)+
-      (n*(a^2*B-B*c^2+b*c*C)+a*b*A*(n+1))*Cos[d+e*x]+
-      (n*(b*B*c+a^2*C-b^2*C)+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  -(b*C+a*C*Cos[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
-    Simp[a*c*C*n+a^2*A*(n+1)+(c*b*C*n+a*b*A*(n+1))*Cos[d+e*x]+(a^2*C*n-b^2*C*n+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,C},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  (B*c+a*B*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^n/(a*e*(n+1)) + 
-  1/(a*(n+1))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n-1)*
-    Simp[a*b*B*n+a^2*A*(n+1)+(a^2*B*n-c^2*B*n+a*b*A*(n+1))*Cos[d+e*x]+(b*c*B*n+a*c*A*(n+1))*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && RationalQ[n] && n>0 && NeQ[a^2-b^2-c^2]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/Sqrt[a_+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]],x_Symbol] :=
-  B/b*Int[Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] +
-  (A*b-a*B)/b*Int[1/Sqrt[a+b*Cos[d+e*x]+c*Sin[d+e*x]],x] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && EqQ[B*c-b*C] && NeQ[A*b-a*B]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  (c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/
-    (e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-b*B-c*C]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  -(b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
-FreeQ[{a,b,c,d,e,A,C},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-c*C]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  (c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[a^2-b^2-c^2] && EqQ[a*A-b*B]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  (c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/
-    (e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
-  (a*A-b*B-c*C)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-b*B-c*C]
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  -(b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
-  (a*A-c*C)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,C},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-c*C]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^2,x_Symbol] :=
-  (c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])/(e*(a^2-b^2-c^2)*(a+b*Cos[d+e*x]+c*Sin[d+e*x])) +
-  (a*A-b*B)/(a^2-b^2-c^2)*Int[1/(a+b*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[a^2-b^2-c^2] && NeQ[a*A-b*B]
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_]+C_.*sin[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  -(c*B-b*C-(a*C-c*A)*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
-    (e*(n+1)*(a^2-b^2-c^2)) +
-  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
-    Simp[(n+1)*(a*A-b*B-c*C)+(n+2)*(a*B-b*A)*Cos[d+e*x]+(n+2)*(a*C-c*A)*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,B,C},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
-
-
-Int[(A_.+C_.*sin[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  (b*C+(a*C-c*A)*Cos[d+e*x]+b*A*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
-    (e*(n+1)*(a^2-b^2-c^2)) +
-  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
-    Simp[(n+1)*(a*A-c*C)-(n+2)*b*A*Cos[d+e*x]+(n+2)*(a*C-c*A)*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,C},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
-
-
-Int[(A_.+B_.*cos[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_])^n_,x_Symbol] :=
-  -(c*B+c*A*Cos[d+e*x]+(a*B-b*A)*Sin[d+e*x])*(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)/
-    (e*(n+1)*(a^2-b^2-c^2)) +
-  1/((n+1)*(a^2-b^2-c^2))*Int[(a+b*Cos[d+e*x]+c*Sin[d+e*x])^(n+1)*
-    Simp[(n+1)*(a*A-b*B)+(n+2)*(a*B-b*A)*Cos[d+e*x]-(n+2)*c*A*Sin[d+e*x],x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && RationalQ[n] && n<-1 && NeQ[a^2-b^2-c^2] && n!=-2
-
-
-Int[1/(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]),x_Symbol] :=
-  Int[Cos[d+e*x]/(b+a*Cos[d+e*x]+c*Sin[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[1/(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]),x_Symbol] :=
-  Int[Sin[d+e*x]/(b+a*Sin[d+e*x]+c*Cos[d+e*x]),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[cos[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^n_.,x_Symbol] :=
-  Int[(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[sin[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^n_.,x_Symbol] :=
-  Int[(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[cos[d_.+e_.*x_]^n_*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^n_,x_Symbol] :=
-  Cos[d+e*x]^n*(a+b*Sec[d+e*x]+c*Tan[d+e*x])^n/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n*Int[(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[sin[d_.+e_.*x_]^n_*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^n_,x_Symbol] :=
-  Sin[d+e*x]^n*(a+b*Csc[d+e*x]+c*Cot[d+e*x])^n/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n*Int[(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[sec[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^m_,x_Symbol] :=
-  Int[1/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && IntegerQ[n]
-
-
-Int[csc[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^m_,x_Symbol] :=
-  Int[1/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && IntegerQ[n]
-
-
-Int[sec[d_.+e_.*x_]^n_.*(a_.+b_.*sec[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_])^m_,x_Symbol] :=
-  Sec[d+e*x]^n*(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n/(a+b*Sec[d+e*x]+c*Tan[d+e*x])^n*Int[1/(b+a*Cos[d+e*x]+c*Sin[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && Not[IntegerQ[n]]
-
-
-Int[csc[d_.+e_.*x_]^n_.*(a_.+b_.*csc[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_])^m_,x_Symbol] :=
-  Csc[d+e*x]^n*(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n/(a+b*Csc[d+e*x]+c*Cot[d+e*x])^n*Int[1/(b+a*Sin[d+e*x]+c*Cos[d+e*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[m+n] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.7 (d trig)^m (a+b (c sin)^n)^p*)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  (4*A*(2*a+b)+B*(4*a+3*b))*x/8 - 
-  (4*A*b+B*(4*a+3*b))*Cos[e+f*x]*Sin[e+f*x]/(8*f) - 
-  b*B*Cos[e+f*x]*Sin[e+f*x]^3/(4*f) /;
-FreeQ[{a,b,e,f,A,B},x]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -B*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^p/(2*f*(p+1)) + 
-  1/(2*(p+1))*Int[(a+b*Sin[e+f*x]^2)^(p-1)*
-    Simp[a*B+2*a*A*(p+1)+(2*A*b*(p+1)+B*(b+2*a*p+2*b*p))*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B},x] && GtQ[p,0]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]^2)/(a_+b_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  B*x/b + (A*b-a*B)/b*Int[1/(a+b*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f,A,B},x]
-
-
-Int[(A_.+B_.*sin[e_.+f_.*x_]^2)/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
-  B/b*Int[Sqrt[a+b*Sin[e+f*x]^2],x] + (A*b-a*B)/b*Int[1/Sqrt[a+b*Sin[e+f*x]^2],x] /;
-FreeQ[{a,b,e,f,A,B},x]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b-a*B)*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p+1)/(2*a*f*(a+b)*(p+1)) - 
-  1/(2*a*(a+b)*(p+1))*Int[(a+b*Sin[e+f*x]^2)^(p+1)*
-    Simp[a*B-A*(2*a*(p+1)+b*(2*p+3))+2*(A*b-a*B)*(p+2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B},x] && LtQ[p,-1] && NeQ[a+b,0]
-
-
-Int[(a_.+b_.*sin[e_.+f_.*x_]^2)^p_*(A_.+B_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
-    Subst[Int[(a+(a+b)*ff^2*x^2)^p*(A+(A+B)*ff^2*x^2)/(1+ff^2*x^2)^(p+2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,A,B},x] && Not[IntegerQ[p]]
-
-
-Int[u_.*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  a^p*Int[ActivateTrig[u*cos[e+f*x]^(2*p)],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0] && IntegerQ[p]
-
-
-Int[u_.*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  Int[ActivateTrig[u*(a*cos[e+f*x]^2)^p],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  -Cot[e+f*x]*(b*Sin[e+f*x]^2)^p/(2*f*p) + 
-  b*(2*p-1)/(2*p)*Int[(b*Sin[e+f*x]^2)^(p-1),x] /;
-FreeQ[{b,e,f},x] && Not[IntegerQ[p]] && GtQ[p,1]
-
-
-Int[(b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  Cot[e+f*x]*(b*Sin[e+f*x]^2)^(p+1)/(b*f*(2*p+1)) + 
-  2*(p+1)/(b*(2*p+1))*Int[(b*Sin[e+f*x]^2)^(p+1),x] /;
-FreeQ[{b,e,f},x] && Not[IntegerQ[p]] && LtQ[p,-1]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x]^2,x]},
-  ff^((m+1)/2)/(2*f)*Subst[Int[x^((m-1)/2)*(b*ff^(n/2)*x^(n/2))^p/(1-ff*x)^((m+1)/2),x],x,Sin[e+f*x]^2/ff]] /;
-FreeQ[{b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[x^m*(b*(c*ff*x)^n)^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{b,c,e,f,n,p},x] && ILtQ[(m-1)/2,0]
-
-
-Int[u_.*(b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  (b*ff^n)^IntPart[p]*(b*Sin[e+f*x]^n)^FracPart[p]/(Sin[e+f*x]/ff)^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(Sin[e+f*x]/ff)^(n*p),x]] /;
-FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[u_.*(b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  b^IntPart[p]*(b*(c*Sin[e+f*x])^n)^FracPart[p]/(c*Sin[e+f*x])^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(c*Sin[e+f*x])^(n*p),x] /;
-FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
-  Sqrt[a]/f*EllipticE[e+f*x,-b/a] /;
-FreeQ[{a,b,e,f},x] && GtQ[a,0]
-
-
-Int[Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
-  Sqrt[a+b*Sin[e+f*x]^2]/Sqrt[1+b*Sin[e+f*x]^2/a]*Int[Sqrt[1+(b*Sin[e+f*x]^2)/a],x] /;
-FreeQ[{a,b,e,f},x] && Not[GtQ[a,0]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^2,x_Symbol] :=
-  (8*a^2+8*a*b+3*b^2)*x/8 - 
-  b*(8*a+3*b)*Cos[e+f*x]*Sin[e+f*x]/(8*f) - 
-  b^2*Cos[e+f*x]*Sin[e+f*x]^3/(4*f) /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  -b*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p-1)/(2*f*p) + 
-  1/(2*p)*Int[(a+b*Sin[e+f*x]^2)^(p-2)*Simp[a*(b+2*a*p)+b*(2*a+b)*(2*p-1)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a+b,0] && GtQ[p,1]
-
-
-Int[1/(a_+b_.*sin[e_.+f_.*x_]^2),x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[1/(a+(a+b)*ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[1/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
-  1/(Sqrt[a]*f)*EllipticF[e+f*x,-b/a] /;
-FreeQ[{a,b,e,f},x] && GtQ[a,0]
-
-
-Int[1/Sqrt[a_+b_.*sin[e_.+f_.*x_]^2],x_Symbol] :=
-  Sqrt[1+b*Sin[e+f*x]^2/a]/Sqrt[a+b*Sin[e+f*x]^2]*Int[1/Sqrt[1+(b*Sin[e+f*x]^2)/a],x] /;
-FreeQ[{a,b,e,f},x] && Not[GtQ[a,0]]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  -b*Cos[e+f*x]*Sin[e+f*x]*(a+b*Sin[e+f*x]^2)^(p+1)/(2*a*f*(p+1)*(a+b)) + 
-  1/(2*a*(p+1)*(a+b))*Int[(a+b*Sin[e+f*x]^2)^(p+1)*Simp[2*a*(p+1)+b*(2*p+3)-2*b*(p+2)*Sin[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a+b,0] && LtQ[p,-1]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
-    Subst[Int[(a+(a+b)*ff^2*x^2)^p/(1+ff^2*x^2)^(p+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && Not[IntegerQ[p]]
-
-
-(* Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  -ff/f*Subst[Int[(a+b+2*a*ff^2*x^2+a*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Cot[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[p] *)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+2*a*ff^2*x^2+(a+b)*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[p]
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^4)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(a+b*Sin[e+f*x]^4)^p*(Sec[e+f*x]^2)^(2*p)/(f*(a+2*a*Tan[e+f*x]^2+(a+b)*Tan[e+f*x]^4)^p)*
-    Subst[Int[(a+2*a*ff^2*x^2+(a+b)*ff^4*x^4)^p/(1+ff^2*x^2)^(2*p+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[p-1/2]
-
-
-Int[1/(a_+b_.*sin[e_.+f_.*x_]^n_),x_Symbol] :=
-  Module[{k},
-  Dist[2/(a*n),Sum[Int[1/(1-Sin[e+f*x]^2/((-1)^(4*k/n)*Rt[-a/b,n/2])),x],{k,1,n/2}],x]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[n/2]
-
-
-(* Int[(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  -ff/f*Subst[Int[(b+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Cot[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[n/2] && IGtQ[p,0] *)
-
-
-Int[(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[n/2] && IGtQ[p,0]
-
-
-Int[(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  Int[ExpandTrig[(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,e,f,n},x] && (IGtQ[p,0] || EqQ[p,-1] && IntegerQ[n])
-
-
-Int[(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  Defer[Int][(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,e,f,n,p},x]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Cos[e+f*x],x]},
-  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*ExpandToSum[a+b*(1-ff^2*x^2)^(n/2),x]^p,x],x,Cos[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && (EqQ[n,2] || EqQ[n,4])
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Cos[e+f*x],x]},
-  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(a+b*(1-ff^2*x^2)^(n/2))^p,x],x,Cos[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[x^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[x^m*(a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n)^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[n/2] && IntegerQ[p]
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff^(m+1)*(a+b*Sin[e+f*x]^n)^p*(Sec[e+f*x]^2)^(n*p/2)/(f*Apart[a*(1+Tan[e+f*x]^2)^(n/2)+b*Tan[e+f*x]^n]^p)*
-    Subst[Int[x^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(m/2+n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4] && IntegerQ[p-1/2])
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[sin[e+f*x]^m*(a+b*sin[e+f*x]^n)^p,x],x] /;
-FreeQ[{a,b,e,f},x] && IntegersQ[m,p] && (EqQ[n,2] || EqQ[n,4] || p>0 || p==-1 && IntegerQ[n])
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*sin[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[cos[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p,x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (EqQ[n,2] || EqQ[n,4] || m>0 || IGtQ[p,0] || IntegersQ[m,p])
-
-
-Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[ExpandToSum[b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2),x]^p/(1+ff^2*x^2)^(m/2+n*(p/2)+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
-
-
-Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(m/2+n*(p/2)+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[n/2] && IntegerQ[p]
-
-
-Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(a+b*Sin[e+f*x]^2)^p*(Sec[e+f*x]^2)^p/(f*(a+(a+b)*Tan[e+f*x]^2)^p)*
-    Subst[Int[(a+(a+b)*ff^2*x^2)^p/(1+ff^2*x^2)^(m/2+p+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && Not[IntegerQ[p]]
-
-
-Int[cos[e_.+f_.*x_]^m_/(a_+b_.*sin[e_.+f_.*x_]^n_),x_Symbol] :=
-  Int[Expand[(1-Sin[e+f*x]^2)^(m/2)/(a+b*Sin[e+f*x]^n),x],x] /;
-FreeQ[{a,b,e,f},x] && IGtQ[m/2,0] && IntegerQ[(n-1)/2]
-
-
-(* Int[cos[e_.+f_.*x_]^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  Int[ExpandTrig[(1-sin[e+f*x]^2)^(m/2)*(a+b*sin[e+f*x]^n)^p,x],x] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[m/2] && IntegerQ[(n-1)/2] && IntegerQ[p] && m<0 && p<-1 *)
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*cos[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Cos[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x]^2,x]},
-  ff^((m+1)/2)/(2*f)*Subst[Int[x^((m-1)/2)*(a+b*ff^(n/2)*x^(n/2))^p/(1-ff*x)^((m+1)/2),x],x,Sin[e+f*x]^2/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[x^m*(a+b*(c*ff*x)^n)^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && ILtQ[(m-1)/2,0]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(d*ff*x)^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,d,e,f,m},x] && (EqQ[n,2] || EqQ[n,4]) && IntegerQ[p]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(a+b*Sin[e+f*x]^n)^p*(Sec[e+f*x]^2)^(n*p/2)/(f*Apart[a*(1+Tan[e+f*x]^2)^(n/2)+b*Tan[e+f*x]^n]^p)*
-    Subst[Int[(d*ff*x)^m*ExpandToSum[a*(1+ff^2*x^2)^(n/2)+b*ff^n*x^n,x]^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,d,e,f,m},x] && (EqQ[n,2] || EqQ[n,4] && IntegerQ[p-1/2]) && Not[IntegerQ[p]]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[(d*x)^m*(b*ff^n*x^n+a*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2)^(n*p/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,d,e,f,m},x] && IntegerQ[n/2] && IGtQ[p,0]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*tan[e+f*x])^m*(a+b*(c*sin[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Sec[e+f*x])^FracPart[m]*(Cos[e+f*x]/d)^FracPart[m]*Int[(Cos[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*sin[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
-  d^(n*p)*Int[(d*Csc[e+f*x])^(m-n*p)*(b+a*Csc[e+f*x]^n)^p,x] /;
-FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sin[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Sin[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.8 trig^m (a+b cos^p+c sin^q)^n*)
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
-    Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
-    Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f/e*Subst[Int[ExpandToSum[c+b*(1+f^2*x^2)^(q/2-p/2)+a*(1+f^2*x^2)^(q/2),x]^n/(1+f^2*x^2)^(m/2+n*q/2+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<p<=q
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_+b_.*cos[d_.+e_.*x_]^p_+c_.*sin[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
-    Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_+b_.*sin[d_.+e_.*x_]^p_+c_.*cos[d_.+e_.*x_]^q_)^n_,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f/e*Subst[Int[ExpandToSum[a*(1+f^2*x^2)^(p/2)+b*f^p*x^p+c*(1+f^2*x^2)^(p/2-q/2),x]^n/(1+f^2*x^2)^(m/2+n*p/2+1),x],x,
-    Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EvenQ[m] && EvenQ[p] && EvenQ[q] && IntegerQ[n] && 0<q<p
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.9 trig^m (a+b sin^n+c sin^(2 n))^p*)
-
-
-Int[(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[1/(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Sin[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Sin[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[1/(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Cos[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Cos[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Sin[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cos[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Sin[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Cos[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f/e*Subst[Int[ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f/e*Subst[Int[ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  Int[ExpandTrig[sin[d+e*x]^m*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegersQ[m,n,p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  Int[ExpandTrig[cos[d+e*x]^m*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && IntegersQ[m,n,p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*sin[d_.+e_.*x_])^n_.+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Sin[d+e*x],x]},
-  g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p,x],x,Sin[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && OddQ[m]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*cos[d_.+e_.*x_])^n_.+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cos[d+e*x],x]},
-  -g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p,x],x,Cos[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && OddQ[m]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cos[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Sin[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Cos[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Sin[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(m/2+n*p+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(1-sin[d+e*x]^2)^(m/2)*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(1-cos[d+e*x]^2)^(m/2)*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*sin[d_.+e_.*x_])^n_+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Sin[d+e*x],x]},
-  g^(m+1)/e*Subst[Int[x^m*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/(1-g^2*x^2)^((m+1)/2),x],x,Sin[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*cos[d_.+e_.*x_])^n_+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cos[d+e*x],x]},
-  -g^(m+1)/e*Subst[Int[x^m*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/(1-g^2*x^2)^((m+1)/2),x],x,Cos[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
-
-
-Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c*x^(2*n)+b*x^n*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && Not[OddQ[m]] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c*x^(2*n)+b*x^n*(1+x^2)^(n/2)+a*(1+x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && Not[OddQ[m]] && NeQ[b^2-4*a*c] && EvenQ[n] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[sin[d+e*x]^m*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p/(1-sin[d+e*x]^2)^(m/2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[cos[d+e*x]^m*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p/(1-cos[d+e*x]^2)^(m/2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*sin[d_.+e_.*x_])^n_+c_.*(f_.*sin[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Sin[d+e*x],x]},
-  g^(m+1)/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/x^m,x],x,Sin[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*(f_.*cos[d_.+e_.*x_])^n_+c_.*(f_.*cos[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cos[d+e*x],x]},
-  -g^(m+1)/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*(a+b*(f*g*x)^n+c*(f*g*x)^(2*n))^p/x^m,x],x,Cos[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,f,n},x] && OddQ[m] && IntegerQ[2*p]
-
-
-Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sin[d+e*x]^n+c*Sin[d+e*x]^(2*n))^p/(b+2*c*Sin[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Sin[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[tan[d_.+e_.*x_]^m_*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cos[d+e*x]^n+c*Cos[d+e*x]^(2*n))^p/(b+2*c*Cos[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Cos[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && Not[OddQ[m]] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*sin[d_.+e_.*x_]^n_+c_.*sin[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+f^2*x^2)^(n/2)+a*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && EvenQ[n] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*cos[d_.+e_.*x_]^n_+c_.*cos[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[c+b*(1+f^2*x^2)^(n/2)+a*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(n*p+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[n2-2*n] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*sin[d_.+e_.*x_]^n_.+c_.*sin[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(1-sin[d+e*x]^2)^(m/2)*(a+b*sin[d+e*x]^n+c*sin[d+e*x]^(2*n))^p/sin[d+e*x]^m,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cos[d_.+e_.*x_]^n_.+c_.*cos[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(1-cos[d+e*x]^2)^(m/2)*(a+b*cos[d+e*x]^n+c*cos[d+e*x]^(2*n))^p/cos[d+e*x]^m,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && NeQ[b^2-4*a*c] && IntegersQ[n,p]
-
-
-Int[(A_+B_.*sin[d_.+e_.*x_])*(a_+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Sin[d+e*x])*(b+2*c*Sin[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Cos[d+e*x])*(b+2*c*Cos[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*sin[d_.+e_.*x_])*(a_+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Sin[d+e*x]+c*Sin[d+e*x]^2)^n/(b+2*c*Sin[d+e*x])^(2*n)*Int[(A+B*Sin[d+e*x])*(b+2*c*Sin[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*cos[d_.+e_.*x_])*(a_+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Cos[d+e*x]+c*Cos[d+e*x]^2)^n/(b+2*c*Cos[d+e*x])^(2*n)*Int[(A+B*Cos[d+e*x])*(b+2*c*Cos[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*sin[d_.+e_.*x_])/(a_.+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Sin[d+e*x]),x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Sin[d+e*x]),x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*cos[d_.+e_.*x_])/(a_.+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Cos[d+e*x]),x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Cos[d+e*x]),x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*sin[d_.+e_.*x_])*(a_.+b_.*sin[d_.+e_.*x_]+c_.*sin[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*sin[d+e*x])*(a+b*sin[d+e*x]+c*sin[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*cos[d_.+e_.*x_])*(a_.+b_.*cos[d_.+e_.*x_]+c_.*cos[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*cos[d+e*x])*(a+b*cos[d+e*x]+c*cos[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.10 (c+d x)^m (a+b sin)^n*)
-
-
-Int[(c_.+d_.*x_)^m_.*sin[e_.+f_.*x_],x_Symbol] :=
-  -(c+d*x)^m*Cos[e+f*x]/f + 
-  d*m/f*Int[(c+d*x)^(m-1)*Cos[e+f*x],x] /;
-FreeQ[{c,d,e,f},x] && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_],x_Symbol] :=
-  (c+d*x)^(m+1)*Sin[e+f*x]/(d*(m+1)) -
-  f/(d*(m+1))*Int[(c+d*x)^(m+1)*Cos[e+f*x],x] /;
-FreeQ[{c,d,e,f},x] && RationalQ[m] && m<-1
-
-
-Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
-  I*SinhIntegral[c*f*fz/d+f*fz*x]/d /;
-FreeQ[{c,d,e,f,fz},x] && EqQ[d*e-c*f*fz*I]
-
-
-Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
-  SinIntegral[e+f*x]/d /;
-FreeQ[{c,d,e,f},x] && EqQ[d*e-c*f]
-
-
-Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
-  CoshIntegral[-c*f*fz/d-f*fz*x]/d /;
-FreeQ[{c,d,e,f,fz},x] && EqQ[d*(e-Pi/2)-c*f*fz*I] && NegQ[c*f*fz/d]
-
-
-Int[sin[e_.+f_.*Complex[0,fz_]*x_]/(c_.+d_.*x_),x_Symbol] :=
-  CoshIntegral[c*f*fz/d+f*fz*x]/d /;
-FreeQ[{c,d,e,f,fz},x] && EqQ[d*(e-Pi/2)-c*f*fz*I]
-
-
-Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
-  CosIntegral[e-Pi/2+f*x]/d /;
-FreeQ[{c,d,e,f},x] && EqQ[d*(e-Pi/2)-c*f]
-
-
-Int[sin[e_.+f_.*x_]/(c_.+d_.*x_),x_Symbol] :=
-  Cos[(d*e-c*f)/d]*Int[Sin[c*f/d+f*x]/(c+d*x),x] + 
-  Sin[(d*e-c*f)/d]*Int[Cos[c*f/d+f*x]/(c+d*x),x] /;
-FreeQ[{c,d,e,f},x] && NeQ[d*e-c*f]
-
-
-Int[sin[e_.+Pi/2+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
-  2/d*Subst[Int[Cos[f*x^2/d],x],x,Sqrt[c+d*x]] /;
-FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && EqQ[d*e-c*f]
-
-
-Int[sin[e_.+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
-  2/d*Subst[Int[Sin[f*x^2/d],x],x,Sqrt[c+d*x]] /;
-FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && EqQ[d*e-c*f]
-
-
-Int[sin[e_.+f_.*x_]/Sqrt[c_.+d_.*x_],x_Symbol] :=
-  Cos[(d*e-c*f)/d]*Int[Sin[c*f/d+f*x]/Sqrt[c+d*x],x] + 
-  Sin[(d*e-c*f)/d]*Int[Cos[c*f/d+f*x]/Sqrt[c+d*x],x] /;
-FreeQ[{c,d,e,f},x] && ComplexFreeQ[f] && NeQ[d*e-c*f]
-
-
-Int[(c_.+d_.*x_)^m_.*sin[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
-  I/2*Int[(c+d*x)^m*E^(-I*k*Pi)*E^(-I*(e+f*x)),x] - I/2*Int[(c+d*x)^m*E^(I*k*Pi)*E^(I*(e+f*x)),x] /;
-FreeQ[{c,d,e,f,m},x] && IntegerQ[2*k]
-
-
-Int[(c_.+d_.*x_)^m_.*sin[e_.+f_.*x_],x_Symbol] :=
-  I/2*Int[(c+d*x)^m*E^(-I*(e+f*x)),x] - I/2*Int[(c+d*x)^m*E^(I*(e+f*x)),x] /;
-FreeQ[{c,d,e,f,m},x]
-
-
-Int[(c_.+d_.*x_)*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*(b*Sin[e+f*x])^n/(f^2*n^2) -
-  b*(c+d*x)*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(f*n) +
-  b^2*(n-1)/n*Int[(c+d*x)*(b*Sin[e+f*x])^(n-2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n>1
-
-
-Int[(c_.+d_.*x_)^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*m*(c+d*x)^(m-1)*(b*Sin[e+f*x])^n/(f^2*n^2) -
-  b*(c+d*x)^m*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(f*n) +
-  b^2*(n-1)/n*Int[(c+d*x)^m*(b*Sin[e+f*x])^(n-2),x] -
-  d^2*m*(m-1)/(f^2*n^2)*Int[(c+d*x)^(m-2)*(b*Sin[e+f*x])^n,x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m>1
-
-
-Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[(c+d*x)^m,Sin[e+f*x]^n,x],x] /;
-FreeQ[{c,d,e,f,m},x] && IntegerQ[n] && n>1 && (Not[RationalQ[m]] || -1<=m<1)
-
-
-Int[(c_.+d_.*x_)^m_*sin[e_.+f_.*x_]^n_,x_Symbol] :=
-  (c+d*x)^(m+1)*Sin[e+f*x]^n/(d*(m+1)) - 
-  f*n/(d*(m+1))*Int[ExpandTrigReduce[(c+d*x)^(m+1),Cos[e+f*x]*Sin[e+f*x]^(n-1),x],x] /;
-FreeQ[{c,d,e,f,m},x] && IntegerQ[n] && n>1 && RationalQ[m] && -2<=m<-1
-
-
-Int[(c_.+d_.*x_)^m_*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (c+d*x)^(m+1)*(b*Sin[e+f*x])^n/(d*(m+1)) - 
-  b*f*n*(c+d*x)^(m+2)*Cos[e+f*x]*(b*Sin[e+f*x])^(n-1)/(d^2*(m+1)*(m+2)) - 
-  f^2*n^2/(d^2*(m+1)*(m+2))*Int[(c+d*x)^(m+2)*(b*Sin[e+f*x])^n,x] + 
-  b^2*f^2*n*(n-1)/(d^2*(m+1)*(m+2))*Int[(c+d*x)^(m+2)*(b*Sin[e+f*x])^(n-2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m<-2
-
-
-Int[(c_.+d_.*x_)*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (c+d*x)*Cos[e+f*x]*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) -
-  d*(b*Sin[e+f*x])^(n+2)/(b^2*f^2*(n+1)*(n+2)) +
-  (n+2)/(b^2*(n+1))*Int[(c+d*x)*(b*Sin[e+f*x])^(n+2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (c+d*x)^m*Cos[e+f*x]*(b*Sin[e+f*x])^(n+1)/(b*f*(n+1)) -
-  d*m*(c+d*x)^(m-1)*(b*Sin[e+f*x])^(n+2)/(b^2*f^2*(n+1)*(n+2)) +
-  (n+2)/(b^2*(n+1))*Int[(c+d*x)^m*(b*Sin[e+f*x])^(n+2),x] +
-  d^2*m*(m-1)/(b^2*f^2*(n+1)*(n+2))*Int[(c+d*x)^(m-2)*(b*Sin[e+f*x])^(n+2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && n!=-2 && m>1
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Sin[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[n] && (n==1 || PositiveIntegerQ[m] || NeQ[a^2-b^2])
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (2*a)^n*Int[(c+d*x)^m*Sin[1/2*(e+Pi*a/(2*b))+f*x/2]^(2*n),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n] && (n>0 || PositiveIntegerQ[m])
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (2*a)^IntPart[n]*(a+b*Sin[e+f*x])^FracPart[n]/Sin[e/2+a*Pi/(4*b)+f*x/2]^(2*FracPart[n])*
-    Int[(c+d*x)^m*Sin[e/2+a*Pi/(4*b)+f*x/2]^(2*n),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n+1/2] && (n>0 || PositiveIntegerQ[m])
-
-
-(* Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (2*a)^n*Int[(c+d*x)^m*Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*n),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n] && (n>0 || PositiveIntegerQ[m]) *)
-
-
-(* Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  (2*a)^IntPart[n]*(a+b*Sin[e+f*x])^FracPart[n]/Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*FracPart[n])*
-    Int[(c+d*x)^m*Cos[1/2*(e-Pi*a/(2*b))+f*x/2]^(2*n),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2-b^2] && IntegerQ[n+1/2] && (n>0 || PositiveIntegerQ[m]) *)
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
-  2*Int[(c+d*x)^m*E^(-I*Pi*(k-1/2))*E^(-I*e+f*fz*x)/(b+2*a*E^(-I*Pi*(k-1/2))*E^(-I*e+f*fz*x)-b*E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))),x] /;
-FreeQ[{a,b,c,d,e,f,fz},x] && IntegerQ[2*k] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+k_.*Pi+f_.*x_]),x_Symbol] :=
-  2*Int[(c+d*x)^m*E^(I*Pi*(k-1/2))*E^(I*(e+f*x))/(b+2*a*E^(I*Pi*(k-1/2))*E^(I*(e+f*x))-b*E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && IntegerQ[2*k] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-(* Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
-  2*I*Int[(c+d*x)^m*E^(-I*e+f*fz*x)/(b+2*I*a*E^(-I*e+f*fz*x)-b*E^(2*(-I*e+f*fz*x))),x] /;
-FreeQ[{a,b,c,d,e,f,fz},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
-
-
-(* Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  -2*I*Int[(c+d*x)^m*E^(I*(e+f*x))/(b-2*I*a*E^(I*(e+f*x))-b*E^(2*I*(e+f*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m] *)
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*Complex[0,fz_]*x_]),x_Symbol] :=
-  2*Int[(c+d*x)^m*E^(-I*e+f*fz*x)/(-I*b+2*a*E^(-I*e+f*fz*x)+I*b*E^(2*(-I*e+f*fz*x))),x] /;
-FreeQ[{a,b,c,d,e,f,fz},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_]),x_Symbol] :=
-  2*Int[(c+d*x)^m*E^(I*(e+f*x))/(I*b+2*a*E^(I*(e+f*x))-I*b*E^(2*I*(e+f*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*sin[e_.+f_.*x_])^2,x_Symbol] :=
-  b*(c+d*x)^m*Cos[e+f*x]/(f*(a^2-b^2)*(a+b*Sin[e+f*x])) + 
-  a/(a^2-b^2)*Int[(c+d*x)^m/(a+b*Sin[e+f*x]),x] - 
-  b*d*m/(f*(a^2-b^2))*Int[(c+d*x)^(m-1)*Cos[e+f*x]/(a+b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*(c+d*x)^m*Cos[e+f*x]*(a+b*Sin[e+f*x])^(n+1)/(f*(n+1)*(a^2-b^2)) + 
-  a/(a^2-b^2)*Int[(c+d*x)^m*(a+b*Sin[e+f*x])^(n+1),x] + 
-  b*d*m/(f*(n+1)*(a^2-b^2))*Int[(c+d*x)^(m-1)*Cos[e+f*x]*(a+b*Sin[e+f*x])^(n+1),x] - 
-  b*(n+2)/((n+1)*(a^2-b^2))*Int[(c+d*x)^m*Sin[e+f*x]*(a+b*Sin[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2-b^2] && NegativeIntegerQ[n+2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(c+d*x)^m*(a+b*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[u_^m_.*(a_.+b_.*Sin[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Sin[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*(a_.+b_.*Cos[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Cos[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.11 (e x)^m (a+b x^n)^p sin*)
-
-
-Int[(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sin[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cos[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  x^(-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
-  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
-
-
-Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  x^(-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) - 
-  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] + 
-  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
-
-
-Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sin[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cos[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(n*p)*(b+a*x^(-n))^p*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(n*p)*(b+a*x^(-n))^p*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(a+b*x^n)^p*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(a+b*x^n)^p*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sin[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cos[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  e^m*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
-  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  e^m*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) + 
-  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  x^(m-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x]/(b*n*(p+1)) - 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  x^(m-n+1)*(a+b*x^n)^(p+1)*Cos[c+d*x]/(b*n*(p+1)) - 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Cos[c+d*x],x] + 
-  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sin[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cos[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sin[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(m+n*p)*(b+a*x^(-n))^p*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cos[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(m+n*p)*(b+a*x^(-n))^p*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sin[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*x^n)^p*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cos[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*x^n)^p*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.12 (e x)^m (a+b sin(c+d x^n))^p*)
-
-
-Int[Sin[d_.*x_^2],x_Symbol] :=
-  Sqrt[Pi/2]/Rt[d,2]*FresnelS[Sqrt[2/Pi]*Rt[d,2]*x] /;
-FreeQ[d,x]
-
-
-Int[Cos[d_.*x_^2],x_Symbol] :=
-  Sqrt[Pi/2]/Rt[d,2]*FresnelC[Sqrt[2/Pi]*Rt[d,2]*x] /;
-FreeQ[d,x]
-
-
-Int[Sin[c_+d_.*x_^2],x_Symbol] :=
-  Sin[c]*Int[Cos[d*x^2],x] + Cos[c]*Int[Sin[d*x^2],x] /;
-FreeQ[{c,d},x]
-
-
-Int[Cos[c_+d_.*x_^2],x_Symbol] :=
-  Cos[c]*Int[Cos[d*x^2],x] - Sin[c]*Int[Sin[d*x^2],x] /;
-FreeQ[{c,d},x]
-
-
-Int[Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  I/2*Int[E^(-c*I-d*I*x^n),x] - I/2*Int[E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d},x] && IntegerQ[n] && n>2
-
-
-Int[Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(-c*I-d*I*x^n),x] + 1/2*Int[E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d},x] && IntegerQ[n] && n>2
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Sin[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Cos[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*Sin[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*Cos[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  I/2*Int[E^(-c*I-d*I*x^n),x] - I/2*Int[E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(-c*I-d*I*x^n),x] + 1/2*Int[E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Sin[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Cos[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sin[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cos[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_,x_Symbol] :=
-  Defer[Int][(a+b*Sin[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
-
-
-Int[(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_,x_Symbol] :=
-  Defer[Int][(a+b*Cos[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
-
-
-Int[(a_.+b_.*Sin[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Sin[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Cos[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Cos[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[Sin[d_.*x_^n_]/x_,x_Symbol] :=
-  SinIntegral[d*x^n]/n /;
-FreeQ[{d,n},x]
-
-
-Int[Cos[d_.*x_^n_]/x_,x_Symbol] :=
-  CosIntegral[d*x^n]/n /;
-FreeQ[{d,n},x]
-
-
-Int[Sin[c_+d_.*x_^n_]/x_,x_Symbol] :=
-  Sin[c]*Int[Cos[d*x^n]/x,x] + Cos[c]*Int[Sin[d*x^n]/x,x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[Cos[c_+d_.*x_^n_]/x_,x_Symbol] :=
-  Cos[c]*Int[Cos[d*x^n]/x,x] - Sin[c]*Int[Sin[d*x^n]/x,x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sin[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
-
-
-Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cos[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_],x_Symbol] :=
-  2/n*Subst[Int[Sin[a+b*x^2],x],x,x^(n/2)] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-(n/2-1)]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_],x_Symbol] :=
-  2/n*Subst[Int[Cos[a+b*x^2],x],x,x^(n/2)] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-(n/2-1)]
-
-
-Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  -e^(n-1)*(e*x)^(m-n+1)*Cos[c+d*x^n]/(d*n) + 
-  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Cos[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
-
-
-Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*Sin[c+d*x^n]/(d*n) - 
-  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Sin[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
-
-
-Int[(e_.*x_)^m_*Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  (e*x)^(m+1)*Sin[c+d*x^n]/(e*(m+1)) - 
-  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Cos[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[(e_.*x_)^m_*Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  (e*x)^(m+1)*Cos[c+d*x^n]/(e*(m+1)) + 
-  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Sin[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  I/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] - I/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] + 1/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -Sin[a+b*x^n]^p/((n-1)*x^(n-1)) +
-  b*n*p/(n-1)*Int[Sin[a+b*x^n]^(p-1)*Cos[a+b*x^n],x] /;
-FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -Cos[a+b*x^n]^p/((n-1)*x^(n-1)) -
-  b*n*p/(n-1)*Int[Cos[a+b*x^n]^(p-1)*Sin[a+b*x^n],x] /;
-FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  n*Sin[a+b*x^n]^p/(b^2*n^2*p^2) -
-  x^n*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Sin[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  n*Cos[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^n*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Cos[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  (m-n+1)*x^(m-2*n+1)*Sin[a+b*x^n]^p/(b^2*n^2*p^2) -
-  x^(m-n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Sin[a+b*x^n]^(p-2),x] -
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Sin[a+b*x^n]^p,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  (m-n+1)*x^(m-2*n+1)*Cos[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^(m-n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Cos[a+b*x^n]^(p-2),x] -
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Cos[a+b*x^n]^p,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m+1)*Sin[a+b*x^n]^p/(m+1) - 
-  b*n*p*x^(m+n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) - 
-  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sin[a+b*x^n]^p,x] + 
-  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sin[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m+1)*Cos[a+b*x^n]^p/(m+1) + 
-  b*n*p*x^(m+n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) - 
-  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cos[a+b*x^n]^p,x] + 
-  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cos[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Sin[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Cos[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sin[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cos[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^n*Cos[a+b*x^n]*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
-  n*Sin[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
-  (p+2)/(p+1)*Int[x^m*Sin[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^n*Sin[a+b*x^n]*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
-  n*Cos[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
-  (p+2)/(p+1)*Int[x^m*Cos[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m-n+1)*Cos[a+b*x^n]*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)*x^(m-2*n+1)*Sin[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (p+2)/(p+1)*Int[x^m*Sin[a+b*x^n]^(p+2),x] +
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Sin[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^(m-n+1)*Sin[a+b*x^n]*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)*x^(m-2*n+1)*Cos[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (p+2)/(p+1)*Int[x^m*Cos[a+b*x^n]^(p+2),x] +
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Cos[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
-
-
-Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/e*Subst[Int[(a+b*Sin[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/e*Subst[Int[(a+b*Cos[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Sin[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Cos[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Sin[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Cos[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*Sin[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*Cos[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sin[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cos[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_.*x_)^m_.*Sin[c_.+d_.*x_^n_],x_Symbol] :=
-  I/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] - I/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,e,m,n},x]
-
-
-Int[(e_.*x_)^m_.*Cos[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(-c*I-d*I*x^n),x] + 1/2*Int[(e*x)^m*E^(c*I+d*I*x^n),x] /;
-FreeQ[{c,d,e,m,n},x]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sin[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cos[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Sin[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Cos[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sin[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*Sin[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cos[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*Cos[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sin[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Sin[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Cos[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Cos[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_.]^p_.*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
-  Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
-FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_.]^p_.*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
-  -Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
-FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_^n_.]^p_.*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
-  x^(m-n+1)*Sin[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Sin[a+b*x^n]^(p+1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_^n_.]^p_.*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
-  -x^(m-n+1)*Cos[a+b*x^n]^(p+1)/(b*n*(p+1)) +
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cos[a+b*x^n]^(p+1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.1.13 (d+e x)^m sin(a+b x+c x^2)^n*)
-
-
-Int[Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Int[Sin[(b+2*c*x)^2/(4*c)],x] /;
-FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Int[Cos[(b+2*c*x)^2/(4*c)],x] /;
-FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c,0]
-
-
-Int[Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Cos[(b^2-4*a*c)/(4*c)]*Int[Sin[(b+2*c*x)^2/(4*c)],x] - 
-  Sin[(b^2-4*a*c)/(4*c)]*Int[Cos[(b+2*c*x)^2/(4*c)],x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Cos[(b^2-4*a*c)/(4*c)]*Int[Cos[(b+2*c*x)^2/(4*c)],x] + 
-  Sin[(b^2-4*a*c)/(4*c)]*Int[Sin[(b+2*c*x)^2/(4*c)],x] /;
-FreeQ[{a,b,c},x] && NeQ[b^2-4*a*c,0]
-
-
-Int[Sin[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[Sin[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[Cos[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[Cos[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[Sin[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Sin[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[Cos[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Cos[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[Sin[v_]^n_.,x_Symbol] :=
-  Int[Sin[ExpandToSum[v,x]]^n,x] /;
-PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
-
-
-Int[Cos[v_]^n_.,x_Symbol] :=
-  Int[Cos[ExpandToSum[v,x]]^n,x] /;
-PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
-
-
-Int[(d_+e_.*x_)*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*Cos[a+b*x+c*x^2]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_+e_.*x_)*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Sin[a+b*x+c*x^2]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*(d+e*x)^(m-1)*Cos[a+b*x+c*x^2]/(2*c) + 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cos[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && GtQ[m,1]
-
-
-Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Sin[a+b*x+c*x^2]/(2*c) - 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sin[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && GtQ[m,1]
-
-
-Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Sin[a+b*x+c*x^2]/(e*(m+1)) -
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cos[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Cos[a+b*x+c*x^2]/(e*(m+1)) + 
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sin[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*Cos[a+b*x+c*x^2]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Sin[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Sin[a+b*x+c*x^2]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Cos[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e,0]
-
-
-Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*(d+e*x)^(m-1)*Cos[a+b*x+c*x^2]/(2*c) - 
-  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Sin[a+b*x+c*x^2],x] + 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cos[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && GtQ[m,1]
-
-
-Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Sin[a+b*x+c*x^2]/(2*c) - 
-  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Cos[a+b*x+c*x^2],x] - 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sin[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && GtQ[m,1]
-
-
-Int[(d_.+e_.*x_)^m_*Sin[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Sin[a+b*x+c*x^2]/(e*(m+1)) -
-  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Cos[a+b*x+c*x^2],x] -
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cos[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)^m_*Cos[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Cos[a+b*x+c*x^2]/(e*(m+1)) + 
-  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Sin[a+b*x+c*x^2],x] +
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sin[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d,0] && LtQ[m,-1]
-
-
-Int[(d_.+e_.*x_)^m_.*Sin[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[(d+e*x)^m,Sin[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IGtQ[n,1]
-
-
-Int[(d_.+e_.*x_)^m_.*Cos[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[(d+e*x)^m,Cos[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IGtQ[n,1]
-
-
-Int[(d_.+e_.*x_)^m_.*Sin[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Sin[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[(d_.+e_.*x_)^m_.*Cos[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Cos[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[u_^m_.*Sin[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Sin[ExpandToSum[v,x]]^n,x] /;
-FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-Int[u_^m_.*Cos[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Cos[ExpandToSum[v,x]]^n,x] /;
-FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-
-`)
+(* ::Subsubsection::Closed:: *)
+(*3.3.1 (a+b sec)^m (d sec)^n (A+B sec)*)
 
-func resourcesRubi41SineMBytes() ([]byte, error) {
-	return _resourcesRubi41SineM, nil
-}
 
-func resourcesRubi41SineM() (*asset, error) {
-	bytes, err := resourcesRubi41SineMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+B Sec[e+f x]) == (a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x])*)
 
-	info := bindataFileInfo{name: "resources/rubi/4.1 Sine.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi42TangentM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Tangent Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.1.1 (a+b tan)^n*)
-
-
-Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*(b*Tan[c+d*x])^(n-1)/(d*(n-1)) - 
-  b^2*Int[(b*Tan[c+d*x])^(n-2),x] /;
-FreeQ[{b,c,d},x] && RationalQ[n] && n>1
-
-
-Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  (b*Tan[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  1/b^2*Int[(b*Tan[c+d*x])^(n+2),x] /;
-FreeQ[{b,c,d},x] && RationalQ[n] && n<-1
-
-
-Int[tan[c_.+d_.*x_],x_Symbol] :=
-  -Log[RemoveContent[Cos[c+d*x],x]]/d /;
-FreeQ[{c,d},x]
-
-
-(* Int[1/tan[c_.+d_.*x_],x_Symbol] :=
-  Log[RemoveContent[Sin[c+d*x],x]]/d /;
-FreeQ[{c,d},x] *)
-
-
-Int[(b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b/d*Subst[Int[x^n/(b^2+x^2),x],x,b*Tan[c+d*x]] /;
-FreeQ[{b,c,d,n},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^2,x_Symbol] :=
-  (a^2-b^2)*x + b^2*Tan[c+d*x]/d + 2*a*b*Int[Tan[c+d*x],x] /;
-FreeQ[{a,b,c,d},x]
-
-
-(* Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*Tan[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] *)
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*(a+b*Tan[c+d*x])^(n-1)/(d*(n-1)) + 
-  2*a*Int[(a+b*Tan[c+d*x])^(n-1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2] && RationalQ[n] && n>1
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  a*(a+b*Tan[c+d*x])^n/(2*b*d*n) + 
-  1/(2*a)*Int[(a+b*Tan[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2] && RationalQ[n] && n<0
-
-
-Int[Sqrt[a_+b_.*tan[c_.+d_.*x_]],x_Symbol] :=
-  -2*b/d*Subst[Int[1/(2*a-x^2),x],x,Sqrt[a+b*Tan[c+d*x]]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2+b^2]
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b/d*Subst[Int[(a+x)^(n-1)/(a-x),x],x,b*Tan[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2]
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*(a+b*Tan[c+d*x])^(n-1)/(d*(n-1)) + 
-  Int[(a^2-b^2+2*a*b*Tan[c+d*x])*(a+b*Tan[c+d*x])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2] && RationalQ[n] && n>1
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b*(a+b*Tan[c+d*x])^(n+1)/(d*(n+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a-b*Tan[c+d*x])*(a+b*Tan[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2] && RationalQ[n] && n<-1
-
-
-Int[1/(a_+b_.*tan[c_.+d_.*x_]),x_Symbol] :=
-  a*x/(a^2+b^2) + b/(a^2+b^2)*Int[(b-a*Tan[c+d*x])/(a+b*Tan[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2+b^2]
-
-
-Int[(a_+b_.*tan[c_.+d_.*x_])^n_,x_Symbol] :=
-  b/d*Subst[Int[(a+x)^n/(b^2+x^2),x],x,b*Tan[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[a^2+b^2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.1.2 (d sec)^m (a+b tan)^n*)
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  b*(d*Sec[e+f*x])^m/(f*m) + a*Int[(d*Sec[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,m},x] && (IntegerQ[2*m] || NeQ[a^2+b^2])
-
-
-Int[sec[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  1/(a^(m-2)*b*f)*Subst[Int[(a-x)^(m/2-1)*(a+x)^(n+m/2-1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,e,f,n},x] && EqQ[a^2+b^2] && IntegerQ[m/2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m+n]]
-
-
-Int[sec[e_.+f_.*x_]/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -2*a/(b*f)*Subst[Int[1/(2-a*x^2),x],x,Sec[e+f*x]/Sqrt[a+b*Tan[e+f*x]]] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) + 
-  a/(2*d^2)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && EqQ[m/2+n] && RationalQ[m,n] && n>0
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  2*d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m-2)) + 
-  2*d^2/a*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && EqQ[m/2+n] && RationalQ[m,n] && n<-1
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (a/d)^(2*IntPart[n])*(a+b*Tan[e+f*x])^FracPart[n]*(a-b*Tan[e+f*x])^FracPart[n]/(d*Sec[e+f*x])^(2*FracPart[n])*
-    Int[1/(a-b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m/2+n]]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  2*b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*m) /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && EqQ[Simplify[m/2+n-1]]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) + 
-  a*(m+2*n-2)/(m+n-1)*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && PositiveIntegerQ[Simplify[m/2+n-1]] && Not[IntegerQ[n]]
-
-
-Int[Sqrt[d_.*sec[e_.+f_.*x_]]*Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -4*b*d^2/f*Subst[Int[x^2/(a^2+d^2*x^4),x],x,Sqrt[a+b*Tan[e+f*x]]/Sqrt[d*Sec[e+f*x]]] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  2*b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*m) - 
-  b^2*(m+2*n-2)/(d^2*m)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n>1 && 
-  (PositiveIntegerQ[n/2] && NegativeIntegerQ[m-1/2] || n==2 && m<0 || m<=-1 && m+n>0 || NegativeIntegerQ[m] && m/2+n-1<0 && IntegerQ[n] || n==3/2 && m==-1/2) && IntegerQ[2*m]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(a*f*m) + 
-  a*(m+n)/(m*d^2)*Int[(d*Sec[e+f*x])^(m+2)*(a+b*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n>0 && m<-1 && IntegersQ[2*m,2*n]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*(m+n-1)) + 
-  a*(m+2*n-2)/(m+n-1)*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n>0 && NeQ[m+n-1] && IntegersQ[2*m,2*n]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  d*Sec[e+f*x]/(Sqrt[a-b*Tan[e+f*x]]*Sqrt[a+b*Tan[e+f*x]])*Int[Sqrt[d*Sec[e+f*x]]*Sqrt[a-b*Tan[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  2*d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m+2*n)) - 
-  d^2*(m-2)/(b^2*(m+2*n))*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n<-1 && 
-  (NegativeIntegerQ[n/2] && PositiveIntegerQ[m-1/2] || n==-2 || PositiveIntegerQ[m+n] || IntegersQ[n,m+1/2] && 2*m+n+1>0) && IntegerQ[2*m]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^2*(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1)/(b*f*(m+n-1)) + 
-  d^2*(m-2)/(a*(m+n-1))*Int[(d*Sec[e+f*x])^(m-2)*(a+b*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m,n] && n<0 && m>1 && Not[NegativeIntegerQ[m+n]] && NeQ[m+n-1] && IntegersQ[2*m,2*n]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(b*f*(m+2*n)) + 
-  Simplify[m+n]/(a*(m+2*n))*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && RationalQ[n] && n<0 && NeQ[m+2*n] && IntegersQ[2*m,2*n]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1)/(f*Simplify[m+n-1]) + 
-  a*(m+2*n-2)/Simplify[m+n-1]*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && PositiveIntegerQ[Simplify[m+n-1]] && RationalQ[n]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^n/(b*f*(m+2*n)) + 
-  Simplify[m+n]/(a*(m+2*n))*Int[(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] && NegativeIntegerQ[Simplify[m+n]] && NeQ[m+2*n]
-
-
-(* Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^n*(d*Sec[e+f*x])^m/(b*f*(Sec[e+f*x]^2)^(m/2))*Subst[Int[(1+x/a)^(n+m/2-1)*(1-x/a)^(m/2-1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2+b^2] && IntegerQ[n] *)
-
-
-(* Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (d*Sec[e+f*x])^m/(b*f*(Sec[e+f*x]^2)^(m/2))*Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2] *)
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (d*Sec[e+f*x])^m/((a+b*Tan[e+f*x])^(m/2)*(a-b*Tan[e+f*x])^(m/2))*Int[(a+b*Tan[e+f*x])^(m/2+n)*(a-b*Tan[e+f*x])^(m/2),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2+b^2]
-
-
-Int[sec[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  1/(b*f)*Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,e,f,n},x] && NeQ[a^2+b^2] && IntegerQ[m/2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^2/sec[e_.+f_.*x_],x_Symbol] :=
-  b^2*ArcTanh[Sin[e+f*x]]/f - 2*a*b*Cos[e+f*x]/f + (a^2-b^2)*Sin[e+f*x]/f /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2+b^2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
-  b*(d*Sec[e+f*x])^m*(a+b*Tan[e+f*x])/(f*(m+1)) + 
-  1/(m+1)*Int[(d*Sec[e+f*x])^m*(a^2*(m+1)-b^2+a*b*(m+2)*Tan[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2+b^2] && NeQ[m+1]
-
-
-Int[sec[e_.+f_.*x_]/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -1/f*Subst[Int[1/(a^2+b^2-x^2),x],x,(b-a*Tan[e+f*x])/Sec[e+f*x]] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2+b^2]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -d^2/b^2*Int[(d*Sec[e+f*x])^(m-2)*(a-b*Tan[e+f*x]),x] + 
-  d^2*(a^2+b^2)/b^2*Int[(d*Sec[e+f*x])^(m-2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2+b^2] && PositiveIntegerQ[m-1]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2+b^2)*Int[(d*Sec[e+f*x])^m*(a-b*Tan[e+f*x]),x] + 
-  b^2/(d^2*(a^2+b^2))*Int[(d*Sec[e+f*x])^(m+2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2+b^2] && NegativeIntegerQ[m]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^(2*IntPart[m/2])*(d*Sec[e+f*x])^(2*FracPart[m/2])/(b*f*(Sec[e+f*x]^2)^FracPart[m/2])*
-    Subst[Int[(a+x)^n*(1+x^2/b^2)^(m/2-1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && NeQ[a^2+b^2] && Not[IntegerQ[m/2]]
-
-
-Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]/Sqrt[d_. cos[e_.+f_.*x_]],x_Symbol] :=
-  -4*b/f*Subst[Int[x^2/(a^2*d^2+x^4),x],x,Sqrt[d*Cos[e+f*x]]*Sqrt[a+b*Tan[e+f*x]]] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[1/((d_. cos[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*tan[e_.+f_.*x_]]),x_Symbol] :=
-  1/(d*Cos[e+f*x]*Sqrt[a-b*Tan[e+f*x]]*Sqrt[a+b*Tan[e+f*x]])*Int[Sqrt[a-b*Tan[e+f*x]]/Sqrt[d*Cos[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (d*Cos[e+f*x])^m*(d*Sec[e+f*x])^m*Int[(a+b*Tan[e+f*x])^n/(d*Sec[e+f*x])^m,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.1.3 (d sin)^m (a+b tan)^n*)
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b/f*Subst[Int[x^m*(a+x)^n/(b^2+x^2)^(m/2+1),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,e,f,n},x] && IntegerQ[m/2]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[Expand[Sin[e+f*x]^m*(a+b*Tan[e+f*x])^n,x],x] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && PositiveIntegerQ[n]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[Sin[e+f*x]^m*(a*Cos[e+f*x]+b*Sin[e+f*x])^n/Cos[e+f*x]^n,x] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && NegativeIntegerQ[n] && (m<5 && n>-4 || m==5 && n==-1)
-
-
-Int[(d_.*csc[e_.+f_.*x_])^m_*(a_.+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(a+b*Tan[e+f*x])^n/(Sin[e+f*x]/d)^m,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && Not[IntegerQ[m]]
-
-
-Int[cos[e_.+f_.*x_]^m_.*sin[e_.+f_.*x_]^p_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[Cos[e+f*x]^(m-n)*Sin[e+f*x]^p*(a*Cos[e+f*x]+b*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n]
-
-
-Int[sin[e_.+f_.*x_]^m_.*cos[e_.+f_.*x_]^p_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[Sin[e+f*x]^(m-n)*Cos[e+f*x]^p*(a*Sin[e+f*x]+b*Cos[e+f*x])^n,x] /;
-FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.2.1 (a+b tan)^m (c+d tan)^n*)
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*c^m*Int[Sec[e+f*x]^(2*m)*(c+d*Tan[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2] && IntegerQ[m] && Not[IntegerQ[n] && n>0 && (m<0 || n<m)]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*c/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^(n-1),x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*c-b*d)*x + b*d*Tan[e+f*x]/f /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[b*c+a*d]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*c-b*d)*x + b*d*Tan[e+f*x]/f + (b*c+a*d)*Int[Tan[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[b*c+a*d]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
-  (b*c+a*d)/(2*a*b)*Int[(a+b*Tan[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m<0
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  d*(a+b*Tan[e+f*x])^m/(f*m) + (b*c+a*d)/b*Int[(a+b*Tan[e+f*x])^m,x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  d*(a+b*Tan[e+f*x])^m/(f*m) + 
-  Int[(a+b*Tan[e+f*x])^(m-1)*Simp[a*c-b*d+(b*c+a*d)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && RationalQ[m] && m>0
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*(a+b*Tan[e+f*x])^(m+1)/(f*(m+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c+b*d-(b*c-a*d)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && RationalQ[m] && m<-1
-
-
-Int[(c_+d_.*tan[e_.+f_.*x_])/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  c/(b*f)*Log[RemoveContent[a*Cos[e+f*x]+b*Sin[e+f*x],x]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[a*c+b*d]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*c+b*d)*x/(a^2+b^2) + (b*c-a*d)/(a^2+b^2)*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[a*c+b*d]
-
-
-Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -2*d^2/f*Subst[Int[1/(2*c*d+b*x^2),x],x,(c-d*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]]] /;
-FreeQ[{b,c,d,e,f},x] && EqQ[c^2-d^2]
-
-
-(* Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  (c+d)/2*Int[(1+Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] + 
-  (c-d)/2*Int[(1-Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[c^2+d^2] && NeQ[c^2-d^2] *)
-
-
-Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  2*c^2/f*Subst[Int[1/(b*c-d*x^2),x],x,Sqrt[b*Tan[e+f*x]]] /;
-FreeQ[{b,c,d,e,f},x] && EqQ[c^2+d^2]
-
-
-(* Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  (c+I*d)/2*Int[(1-I*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] + (c-I*d)/2*Int[(1+I*Tan[e+f*x])/Sqrt[b*Tan[e+f*x]],x] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NeQ[c^2+d^2] *)
-
-
-Int[(c_+d_.*tan[e_.+f_.*x_])/Sqrt[b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  2/f*Subst[Int[(b*c+d*x^2)/(b^2+x^4),x],x,Sqrt[b*Tan[e+f*x]]] /;
-FreeQ[{b,c,d,e,f},x] && NeQ[c^2-d^2] && NeQ[c^2+d^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -2*d^2/f*Subst[Int[1/(2*b*c*d-4*a*d^2+x^2),x],x,(b*c-2*a*d-b*d*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[2*a*c*d-b*(c^2-d^2)]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])/Sqrt[a_+b_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  With[{q=Rt[a^2+b^2,2]},
-  1/(2*q)*Int[(a*c+b*d+c*q+(b*c-a*d+d*q)*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]],x] - 
-  1/(2*q)*Int[(a*c+b*d-c*q+(b*c-a*d-d*q)*Tan[e+f*x])/Sqrt[a+b*Tan[e+f*x]],x]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && NeQ[2*a*c*d-b*(c^2-d^2)] && 
-  (PerfectSquareQ[a^2+b^2] || RationalQ[a,b,c,d])
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  c*d/f*Subst[Int[(a+b/d*x)^m/(d^2+c*x),x],x,d*Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[c^2+d^2]
-
-
-Int[(b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  c*Int[(b*Tan[e+f*x])^m,x] + d/b*Int[(b*Tan[e+f*x])^(m+1),x] /;
-FreeQ[{b,c,d,e,f,m},x] && NeQ[c^2+d^2] && Not[IntegerQ[2*m]]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (c+I*d)/2*Int[(a+b*Tan[e+f*x])^m*(1-I*Tan[e+f*x]),x] + 
-  (c-I*d)/2*Int[(a+b*Tan[e+f*x])^m*(1+I*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && Not[IntegerQ[m]]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
-  -b*(a*c+b*d)^2*(a+b*Tan[e+f*x])^m/(2*a^3*f*m) + 
-  1/(2*a^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c^2-2*b*c*d+a*d^2-2*b*d^2*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^2/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  d*(2*b*c-a*d)*x/b^2 + d^2/b*Int[Tan[e+f*x],x] + (b*c-a*d)^2/b^2*Int[1/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
-  (b*c-a*d)^2*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*c^2+2*b*c*d-a*d^2-(b*c^2-2*a*c*d-b*d^2)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
-  d^2*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + 
-  Int[(a+b*Tan[e+f*x])^m*Simp[c^2-d^2+2*c*d*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && Not[RationalQ[m] && m<=-1] && Not[EqQ[m-2] && EqQ[a]]
-
-
-Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -2*a*b/f*Subst[Int[1/(a*c-b*d-2*a^2*x^2),x],x,Sqrt[c+d*Tan[e+f*x]]/Sqrt[a+b*Tan[e+f*x]]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*b*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m-1)*(a*c-b*d)) + 
-  2*a^2/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n==0 && m>1/2
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(2*b*f*m) - 
-  (a*c-b*d)/(2*b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n==0 && m<=-1/2
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
-  1/(2*a)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m+n+1==0 && m<-1
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*m*(c^2+d^2)) + 
-  a/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<-1]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -(a*c+b*d)*(c+d*Tan[e+f*x])^n/(2*(b*c-a*d)*f*(a+b*Tan[e+f*x])) + 
-  1/(2*a*(b*c-a*d))*Int[(c+d*Tan[e+f*x])^(n-1)*Simp[a*c*d*(n-1)+b*c^2+b*d^2*n-d*(b*c-a*d)*(n-1)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[n] && 0<n<1
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*(c+d*Tan[e+f*x])^(n-1)/(2*a*f*(a+b*Tan[e+f*x])) + 
-  1/(2*a^2)*Int[(c+d*Tan[e+f*x])^(n-2)*Simp[a*c^2+a*d^2*(n-1)-b*c*d*n-d*(a*c*(n-2)+b*d*n)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[n] && n>1
-
-
-Int[1/((a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  b/(b*c-a*d)*Int[1/(a+b*Tan[e+f*x]),x] - d/(b*c-a*d)*Int[1/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -a*(c+d*Tan[e+f*x])^(n+1)/(2*f*(b*c-a*d)*(a+b*Tan[e+f*x])) + 
-  1/(2*a*(b*c -a*d))*Int[(c+d*Tan[e+f*x])^n*Simp[b*c+a*d*(n-1)-b*d*n*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && Not[RationalQ[n] && n>0]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a^2*(b*c-a*d)*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(b*c+a*d)*(n+1)) + 
-  a/(d*(b*c+a*d)*(n+1))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[b*(b*c*(m-2)-a*d*(m-2*n-4))+(a*b*c*(m-2)+b^2*d*(n+1)-a^2*d*(m+n-1))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n<-1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^(3/2)/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  2*a^2/(a*c-b*d)*Int[Sqrt[a+b*Tan[e+f*x]],x] - 
-  (2*b*c*d+a*(c^2-d^2))/(a*(c^2+d^2))*Int[(a-b*Tan[e+f*x])*Sqrt[a+b*Tan[e+f*x]]/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^(3/2)/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  2*a*Int[Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] + 
-  b/a*Int[(b+a*Tan[e+f*x])*Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n-1)) + 
-  a/(d*(m+n-1))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^n*
-    Simp[b*c*(m-2)+a*d*(m+2*n)+(a*c*(m-2)+b*d*(3*m+2*n-4))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  IntegerQ[2*m] && m>1 && NeQ[m+n-1] && (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  -b*(a+b*Tan[e+f*x])^m*Sqrt[c+d*Tan[e+f*x]]/(2*a*f*m) + 
-  1/(4*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[2*a*c*m+b*d+a*d*(2*m+1)*Tan[e+f*x],x]/Sqrt[c+d*Tan[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<0 && IntegersQ[2*m]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(b*c-a*d)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)/(2*a*f*m) + 
-  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-2)*
-    Simp[c*(a*c*m+b*d*(n-1))-d*(b*c*m+a*d*(n-1))-d*(b*d*(m-n+1)-a*c*(m+n-1))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  RationalQ[m,n] && m<0 && n>1 && (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
-  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[b*c*m-a*d*(2*m+n+1)+b*d*(m+n+1)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  RationalQ[m] && m<0 && (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)/(f*(m+n-1)) - 
-  1/(a*(m+n-1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-2)*
-    Simp[d*(b*c*m+a*d*(-1+n))-a*c^2*(m+n-1)+d*(b*d*m-a*c*(m+2*n-2))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  RationalQ[n] && n>1 && NeQ[m+n-1] && (IntegerQ[n] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*(n+1)*(c^2+d^2)) - 
-  1/(a*(c^2+d^2)*(n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[b*d*m-a*c*(n+1)+a*d*(m+n+1)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  RationalQ[n] && n<-1 && (IntegerQ[n] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  a/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m,x] - 
-  d/(a*c-b*d)*Int[(a+b*Tan[e+f*x])^m*(b+a*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[Sqrt[a_+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  (a*c-b*d)/a*Int[Sqrt[a+b*Tan[e+f*x]]/Sqrt[c+d*Tan[e+f*x]],x] + 
-  d/a*Int[Sqrt[a+b*Tan[e+f*x]]*(b+a*Tan[e+f*x])/Sqrt[c+d*Tan[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*b/f*Subst[Int[(a+x)^(m-1)*(c+d/b*x)^n/(b^2+a*x),x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*c-a*d)^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-3)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[a^2*d*(b*d*(m-2)-a*c*(n+1))+b*(b*c-2*a*d)*(b*c*(m-2)+a*d*(n+1)) - 
-      d*(n+1)*(3*a^2*b*c-b^3*c-a^3*d+3*a*b^2*d)*Tan[e+f*x] - 
-      b*(a*d*(2*b*c-a*d)*(m+n-1)-b^2*(c^2*(m-2)-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>2 && n<-1 && 
-  IntegerQ[2*m]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n-1)) + 
-  1/(d*(m+n-1))*Int[(a+b*Tan[e+f*x])^(m-3)*(c+d*Tan[e+f*x])^n*
-    Simp[a^3*d*(m+n-1)-b^2*(b*c*(m-2)+a*d*(1+n))+b*d*(m+n-1)*(3*a^2-b^2)*Tan[e+f*x]-
-      b^2*(b*c*(m-2)-a*d*(3*m+2*n-4))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && IntegerQ[2*m] && m>2 && 
-  (RationalQ[n] && n>=-1 || IntegerQ[m]) && Not[IntegerQ[n] && n>2 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*c-a*d)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)/(f*(m+1)*(a^2+b^2)) + 
-  1/((m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-2)*
-    Simp[a*c^2*(m+1)+a*d^2*(n-1)+b*c*d*(m-n+2)-(b*c^2-2*a*c*d-b*d^2)*(m+1)*Tan[e+f*x]-d*(b*c-a*d)*(m+n)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && 1<n<2 && 
-  IntegerQ[2*m]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n/(f*(m+1)*(a^2+b^2)) + 
-  1/((m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[a*c*(m+1)-b*d*n-(b*c-a*d)*(m+1)*Tan[e+f*x]-b*d*(m+n+1)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && n>0 && 
-  IntegerQ[2*m]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(a^2+b^2)*(b*c-a*d)) + 
-  1/((m+1)*(a^2+b^2)*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[a*(b*c-a*d)*(m+1)-b^2*d*(m+n+2)-b*(b*c-a*d)*(m+1)*Tan[e+f*x]-b^2*d*(m+n+2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && IntegerQ[2*m] && m<-1 && 
-  (RationalQ[n] && n<0 || IntegerQ[m]) && Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n/(f*(m+n-1)) + 
-  1/(m+n-1)*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[a^2*c*(m+n-1)-b*(b*c*(m-1)+a*d*n)+(2*a*b*c+a^2*d-b^2*d)*(m+n-1)*Tan[e+f*x]+b*(b*c*n+a*d*(2*m+n-2))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n>0 && IntegerQ[2*n]
-
-
-Int[1/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  (a*c-b*d)*x/((a^2+b^2)*(c^2+d^2)) + 
-  b^2/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
-  d^2/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[Sqrt[a_.+b_.*tan[e_.+f_.*x_]]/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(c^2+d^2)*Int[Simp[a*c+b*d+(b*c-a*d)*Tan[e+f*x],x]/Sqrt[a+b*Tan[e+f*x]],x] - 
-  d*(b*c-a*d)/(c^2+d^2)*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*(c+d*Tan[e+f*x])),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^(3/2)/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(c^2+d^2)*Int[Simp[a^2*c-b^2*c+2*a*b*d+(2*a*b*c-a^2*d+b^2*d)*Tan[e+f*x],x]/Sqrt[a+b*Tan[e+f*x]],x] + 
-  (b*c-a*d)^2/(c^2+d^2)*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*(c+d*Tan[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(c^2+d^2)*Int[(a+b*Tan[e+f*x])^m*(c-d*Tan[e+f*x]),x] + 
-  d^2/(c^2+d^2)*Int[(a+b*Tan[e+f*x])^m*(1+Tan[e+f*x]^2)/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && Not[IntegerQ[m]]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(d_./tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(b+a*Cot[e+f*x])^m*(d*Cot[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(d_./cot[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(b+a*Tan[e+f*x])^m*(d*Tan[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.*(d_.*tan[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Tan[e + f*x])^p)^FracPart[n]/(d*Tan[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Tan[e+f*x])^m*(d*Tan[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.*(d_.*cot[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Cot[e + f*x])^p)^FracPart[n]/(d*Cot[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Cot[e+f*x])^m*(d*Cot[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.2.3 (g tan)^p (a+b tan)^m (c+d tan)^n*)
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(g*Tan[e+f*x])^p*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-Int[(g_.*cot[e_.+f_.*x_])^p_*(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(m+n)*Int[(g*Cot[e+f*x])^(p-m-n)*(b+a*Cot[e+f*x])^m*(d+c*Cot[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^(m+n)*Int[(g*Tan[e+f*x])^(p-m-n)*(b+a*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(g_.*tan[e_.+f_.*x_]^q_)^p_*(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (g*Tan[e+f*x]^q)^p/(g*Tan[e+f*x])^(p*q)*Int[(g*Tan[e+f*x])^(p*q)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[m] && IntegerQ[n]]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[(g*Tan[e+f*x])^(p-n)*(a+b*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,p},x] && IntegerQ[n]
-
-
-Int[tan[e_.+f_.*x_]^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(b+a*Cot[e+f*x])^m*(c+d*Cot[e+f*x])^n/Cot[e+f*x]^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m] && IntegerQ[p]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_*(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
-  Cot[e+f*x]^p*(g*Tan[e+f*x])^p*Int[(b+a*Cot[e+f*x])^m*(c+d*Cot[e+f*x])^n/Cot[e+f*x]^(m+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && Not[IntegerQ[n]] && IntegerQ[m] && Not[IntegerQ[p]]
-
-
-Int[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*tan[e_.+f_.*x_])^m_*(c_+d_.*cot[e_.+f_.*x_])^n_,x_Symbol] :=
-  (g*Tan[e+f*x])^n*(c+d*Cot[e+f*x])^n/(d+c*Tan[e+f*x])^n*Int[(g*Tan[e+f*x])^(p-n)*(a+b*Tan[e+f*x])^m*(d+c*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.3.1 (a+b tan)^m (c+d tan)^n (A+B tan)*)
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  a*c/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^(n-1)*(A+B*x),x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2+b^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  B*d/b*Int[Tan[e+f*x],x] + 1/b*Int[Simp[A*b*c+(A*b*d+B*(b*c-a*d))*Tan[e+f*x],x]/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*(a*c+b*d)*(a+b*Tan[e+f*x])^m/(2*a^2*f*m) + 
-  1/(2*a*b)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[A*b*c+a*B*c+a*A*d+b*B*d+2*a*B*d*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && EqQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*(A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*A*c+b*B*c+A*b*d-a*B*d-(A*b*c-a*B*c-a*A*d-b*B*d)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  B*d*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + 
-  Int[(a+b*Tan[e+f*x])^m*Simp[A*c-B*d+(B*c+A*d)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && Not[RationalQ[m] && m<=-1]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -a^2*(B*c-A*d)*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(b*c+a*d)*(n+1)) - 
-  a/(d*(b*c+a*d)*(n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[A*b*d*(m-n-2)-B*(b*c*(m-1)+a*d*(n+1))+(a*A*d*(m+n)-B*(a*c*(m-1)+b*d*(n+1)))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m,n] && m>1 && n<-1
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  b*B*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
-    Simp[a*A*d*(m+n)+B*(a*c*(m-1)-b*d*(n+1))-(B*(b*c-a*d)*(m-1)-d*(A*b+a*B)*(m+n))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m>1 && Not[RationalQ[n] && n<-1]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(2*a*f*m) + 
-  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[A*(a*c*m+b*d*n)-B*(b*c*m+a*d*n)-d*(b*B*(m-n)-a*A*(m+n))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m,n] && m<0 && n>0
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*A+b*B)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
-  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[A*(b*c*m-a*d*(2*m+n+1))+B*(a*c*m-b*d*(n+1))+d*(A*b-a*B)*(m+n+1)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[m] && m<0 && Not[RationalQ[n] && n>0]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  B*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(f*(m+n)) + 
-  1/(a*(m+n))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[a*A*c*(m+n)-B*(b*c*m+a*d*n)+(a*A*d*(m+n)-B*(b*d*m-a*c*n))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[n] && n>0
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A*d-B*c)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(f*(n+1)*(c^2+d^2)) - 
-  1/(a*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[A*(b*d*m-a*c*(n+1))-B*(b*c*m+a*d*(n+1))-a*(B*c-A*d)*(m+n+1)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && RationalQ[n] && n<-1
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  b*B/f*Subst[Int[(a+b*x)^(m-1)*(c+d*x)^n,x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && EqQ[A*b+a*B]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(A_.+B_.*tan[e_.+f_.*x_])/(c_.+d_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A*b+a*B)/(b*c+a*d)*Int[(a+b*Tan[e+f*x])^m,x] - 
-  (B*c-A*d)/(b*c+a*d)*Int[(a+b*Tan[e+f*x])^m*(a-b*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[A*b+a*B]
-
-
-(* Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] + 
-  B/b*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[c^2+d^2] *)
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A*b+a*B)/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n,x] - 
-  B/b*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(a-b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && NeQ[A*b+a*B]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  A^2/f*Subst[Int[(a+b*x)^m*(c+d*x)^n/(A-B*x),x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && 
-  Not[IntegersQ[2*m,2*n]] && EqQ[A^2+B^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A+I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1-I*Tan[e+f*x]),x] + 
-  (A-I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1+I*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && 
-  Not[IntegersQ[2*m,2*n]] && NeQ[A^2+B^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (b*c-a*d)*(B*c-A*d)*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[a*A*d*(b*d*(m-1)-a*c*(n+1))+(b*B*c-(A*b+a*B)*d)*(b*c*(m-1)+a*d*(n+1))-
-      d*((a*A-b*B)*(b*c-a*d)+(A*b+a*B)*(a*c+b*d))*(n+1)*Tan[e+f*x]-
-      b*(d*(A*b*c+a*B*c-a*A*d)*(m+n)-b*B*(c^2*(m-1)-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>1 && n<-1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  b*B*(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Tan[e+f*x])^(m-2)*(c+d*Tan[e+f*x])^n*
-    Simp[a^2*A*d*(m+n)-b*B*(b*c*(m-1)+a*d*(n+1))+
-      d*(m+n)*(2*a*A*b+B*(a^2-b^2))*Tan[e+f*x]-
-      (b*B*(b*c-a*d)*(m-1)-b*(A*b+a*B)*d*(m+n))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n/(f*(m+1)*(a^2+b^2)) + 
-  1/(b*(m+1)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[b*B*(b*c*(m+1)+a*d*n)+A*b*(a*c*(m+1)-b*d*n)-b*(A*(b*c-a*d)-B*(a*c+b*d))*(m+1)*Tan[e+f*x]-b*d*(A*b-a*B)*(m+n+1)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m<-1 && 0<n<1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  b*(A*b-a*B)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[b*B*(b*c*(m+1)+a*d*(n+1))+A*(a*(b*c-a*d)*(m+1)-b^2*d*(m+n+2)) - 
-      (A*b-a*B)*(b*c-a*d)*(m+1)*Tan[e+f*x] - 
-      b*d*(A*b-a*B)*(m+n+2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  B*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n/(f*(m+n)) + 
-  1/(m+n)*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n-1)*
-    Simp[a*A*c*(m+n)-B*(b*c*m+a*d*n)+(A*b*c+a*B*c+a*A*d-b*B*d)*(m+n)*Tan[e+f*x]+(A*b*d*(m+n)+B*(a*d*m+b*c*n))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && 0<m<1 && 0<n<1
-
-
-Int[(A_.+B_.*tan[e_.+f_.*x_])/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  (B*(b*c+a*d)+A*(a*c-b*d))*x/((a^2+b^2)*(c^2+d^2)) + 
-  b*(A*b-a*B)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] + 
-  d*(B*c-A*d)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[Sqrt[c_.+d_.*tan[e_.+f_.*x_]]*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2+b^2)*Int[Simp[A*(a*c+b*d)+B*(b*c-a*d)-(A*(b*c-a*d)-B*(a*c+b*d))*Tan[e+f*x],x]/Sqrt[c+d*Tan[e+f*x]],x] - 
-  (b*c-a*d)*(B*a-A*b)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/((a+b*Tan[e+f*x])*Sqrt[c+d*Tan[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_])/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[a*A+b*B-(A*b-a*B)*Tan[e+f*x],x],x] + 
-  b*(A*b-a*B)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*(A_.+B_.*tan[e_.+f_.*x_])/Sqrt[c_.+d_.*tan[e_.+f_.*x_]],x_Symbol] :=
-  Int[Simp[a*A-b*B+(A*b+a*B)*Tan[e+f*x],x]/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] + 
-  b*B*Int[(1+Tan[e+f*x]^2)/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-(* Int[(A_.+B_.*tan[e_.+f_.*x_])/(Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]]),x_Symbol] :=
-  A^2/f*Subst[Int[1/((A-B*x)*Sqrt[a+b*x]*Sqrt[c+d*x]),x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && EqQ[A^2+B^2] *)
-
-
-(* Int[(A_.+B_.*tan[e_.+f_.*x_])/(Sqrt[a_.+b_.*tan[e_.+f_.*x_]]*Sqrt[c_.+d_.*tan[e_.+f_.*x_]]),x_Symbol] :=
-  (A+I*B)/2*Int[(1-I*Tan[e+f*x])/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] + 
-  (A-I*B)/2*Int[(1+I*Tan[e+f*x])/(Sqrt[a+b*Tan[e+f*x]]*Sqrt[c+d*Tan[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && NeQ[A^2+B^2] *)
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  A^2/f*Subst[Int[(a+b*x)^m*(c+d*x)^n/(A-B*x),x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && EqQ[A^2+B^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (A+I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1-I*Tan[e+f*x]),x] + 
-  (A-I*B)/2*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*(1+I*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[A^2+B^2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.4.1 (a+b tan)^m (A+B tan+C tan^2)*)
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  A/(b*f)*Subst[Int[(a+x)^m,x],x,b*Tan[e+f*x]] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A-C]
-
-
-Int[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_+C_.*cot[e_.+f_.*x_]^2),x_Symbol] :=
-  -A/(b*f)*Subst[Int[(a+x)^m,x],x,b*Cot[e+f*x]] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A-C]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b^2*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  -C/b^2*Int[(a+b*Tan[e+f*x])^(m+1)*(a-b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  -(a*A+b*B-a*C)*Tan[e+f*x]*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
-  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[(b*B-a*C)+a*A*(2*m+1)-(b*C*(m-1)+(A*b-a*B)*(m+1))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  -(a*A-a*C)*Tan[e+f*x]*(a+b*Tan[e+f*x])^m/(2*a*f*m) + 
-  1/(2*a^2*m)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[-a*C+a*A*(2*m+1)-(b*C*(m-1)+A*b*(m+1))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[A*b^2+a^2*C] && RationalQ[m] && m<=-1 && EqQ[a^2+b^2]
-
-
-Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*A+b*B-a*C)*x/(a^2+b^2) + 
-  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2+b^2] && EqQ[A*b-a*B-b*C]
-
-
-Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/tan[e_.+f_.*x_],x_Symbol] :=
-  B*x+A*Int[1/Tan[e+f*x],x] + C*Int[Tan[e+f*x],x] /;
-FreeQ[{e,f,A,B,C},x] && NeQ[A-C]
-
-
-Int[(A_+C_.*tan[e_.+f_.*x_]^2)/tan[e_.+f_.*x_],x_Symbol] :=
-  A*Int[1/Tan[e+f*x],x] + C*Int[Tan[e+f*x],x] /;
-FreeQ[{e,f,A,C},x] && NeQ[A-C]
-
-
-Int[(A_+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (a*A+b*B-a*C)*x/(a^2+b^2) - 
-  (A*b-a*B-b*C)/(a^2+b^2)*Int[Tan[e+f*x],x] + 
-  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && NeQ[a^2+b^2] && NeQ[A*b-a*B-b*C]
-
-
-Int[(A_+C_.*tan[e_.+f_.*x_]^2)/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  a*(A-C)*x/(a^2+b^2) - 
-  b*(A-C)/(a^2+b^2)*Int[Tan[e+f*x],x] + 
-  (a^2*C+A*b^2)/(a^2+b^2)*Int[(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2*C+A*b^2] && NeQ[a^2+b^2] && NeQ[A-C]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2-a*b*B+a^2*C)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[b*B+a*(A-C)-(A*b-a*B-b*C)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2+a^2*C)*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)*(a^2+b^2)) + 
-  1/(a^2+b^2)*Int[(a+b*Tan[e+f*x])^(m+1)*Simp[a*(A-C)-(A*b-b*C)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[A*b^2+a^2*C] && RationalQ[m] && m<-1 && NeQ[a^2+b^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + Int[(a+b*Tan[e+f*x])^m*Simp[A-C+B*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[A*b^2-a*b*B+a^2*C] && Not[RationalQ[m] && m<=-1]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^(m+1)/(b*f*(m+1)) + (A-C)*Int[(a+b*Tan[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && NeQ[A*b^2+a^2*C] && Not[RationalQ[m] && m<=-1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.4.2 (a+b tan)^m (c+d tan)^n (A+B tan+C tan^2)*)
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  A/f*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,Tan[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && EqQ[A-C]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  -(b*c-a*d)*(c^2*C-B*c*d+A*d^2)*(c+d*Tan[e+f*x])^(n+1)/(d^2*f*(n+1)*(c^2+d^2)) + 
-  1/(d*(c^2+d^2))*Int[(c+d*Tan[e+f*x])^(n+1)*
-    Simp[a*d*(A*c-c*C+B*d)+b*(c^2*C-B*c*d+A*d^2)+d*(A*b*c+a*B*c-b*c*C-a*A*d+b*B*d+a*C*d)*Tan[e+f*x]+b*C*(c^2+d^2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && RationalQ[n] && n<-1
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  -(b*c-a*d)*(c^2*C+A*d^2)*(c+d*Tan[e+f*x])^(n+1)/(d^2*f*(n+1)*(c^2+d^2)) + 
-  1/(d*(c^2+d^2))*Int[(c+d*Tan[e+f*x])^(n+1)*
-    Simp[a*d*(A*c-c*C)+b*(c^2*C+A*d^2)+d*(A*b*c-b*c*C-a*A*d+a*C*d)*Tan[e+f*x]+b*C*(c^2+d^2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && RationalQ[n] && n<-1
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  b*C*Tan[e+f*x]*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+2)) - 
-  1/(d*(n+2))*Int[(c+d*Tan[e+f*x])^n*
-    Simp[b*c*C-a*A*d*(n+2)-(A*b+a*B-b*C)*d*(n+2)*Tan[e+f*x]-(a*C*d*(n+2)-b*(c*C-B*d*(n+2)))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && Not[RationalQ[n] && n<-1]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  b*C*Tan[e+f*x]*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+2)) - 
-  1/(d*(n+2))*Int[(c+d*Tan[e+f*x])^n*
-    Simp[b*c*C-a*A*d*(n+2)-(A*b-b*C)*d*(n+2)*Tan[e+f*x]-(a*C*d*(n+2)-b*c*C)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[c^2+d^2] && Not[RationalQ[n] && n<-1]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (a*A+b*B-a*C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
-  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[b*(c*(A+C)*m-B*d*(n+1))+a*(B*c*m+C*d*(n+1)-A*d*(2*m+n+1))+
-      (b*C*d*(m-n-1)+A*b*d*(m+n+1)+a*(2*c*C*m-B*d*(m+n+1)))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && (RationalQ[m] && m<0 || EqQ[m+n+1])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  a*(A-C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(2*f*m*(b*c-a*d)) + 
-  1/(2*a*m*(b*c-a*d))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-    Simp[b*c*(A+C)*m+a*(C*d*(n+1)-A*d*(2*m+n+1))+(b*C*d*(m-n-1)+A*b*d*(m+n+1)+2*a*c*C*m)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && (RationalQ[m] && m<0 || EqQ[m+n+1])
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (c^2*C-B*c*d+A*d^2)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(a*d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[b*(c^2*C-B*c*d+A*d^2)*m-a*d*(n+1)*(A*c-c*C+B*d)-a*(d*(B*c-A*d)*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && RationalQ[n] && n<-1 && 
-  NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (c^2*C+A*d^2)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(a*d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[b*(c^2*C+A*d^2)*m-a*d*(n+1)*(A*c-c*C)-a*(-A*d^2*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && RationalQ[n] && n<-1 && 
-  NeQ[c^2+d^2]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(b*d*(m+n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*
-    Simp[A*b*d*(m+n+1)+C*(a*c*m-b*d*(n+1))-(C*m*(b*c-a*d)-b*B*d*(m+n+1))*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && NeQ[m+n+1]
-
-
-Int[(a_+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(b*d*(m+n+1))*Int[(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^n*
-    Simp[A*b*d*(m+n+1)+C*(a*c*m-b*d*(n+1))-C*m*(b*c-a*d)*Tan[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2+b^2] && Not[RationalQ[m] && m<0] && NeQ[m+n+1]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*d^2+c*(c*C-B*d))*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[A*d*(b*d*m-a*c*(n+1))+(c*C-B*d)*(b*c*m+a*d*(n+1)) - 
-      d*(n+1)*((A-C)*(b*c-a*d)+B*(a*c+b*d))*Tan[e+f*x] - 
-      b*(d*(B*c-A*d)*(m+n+1)-C*(c^2*m-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*d^2+c^2*C)*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(n+1)*(c^2+d^2)) - 
-  1/(d*(n+1)*(c^2+d^2))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^(n+1)*
-    Simp[A*d*(b*d*m-a*c*(n+1))+c*C*(b*c*m+a*d*(n+1)) - 
-      d*(n+1)*((A-C)*(b*c-a*d))*Tan[e+f*x] + 
-      b*(A*d^2*(m+n+1)+C*(c^2*m-d^2*(n+1)))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m,n] && m>0 && n<-1
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(d*(m+n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
-    Simp[a*A*d*(m+n+1)-C*(b*c*m+a*d*(n+1))+d*(A*b+a*B-b*C)*(m+n+1)*Tan[e+f*x]-(C*m*(b*c-a*d)-b*B*d*(m+n+1))*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>0 && 
-  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  C*(a+b*Tan[e+f*x])^m*(c+d*Tan[e+f*x])^(n+1)/(d*f*(m+n+1)) + 
-  1/(d*(m+n+1))*Int[(a+b*Tan[e+f*x])^(m-1)*(c+d*Tan[e+f*x])^n*
-    Simp[a*A*d*(m+n+1)-C*(b*c*m+a*d*(n+1))+d*(A*b-b*C)*(m+n+1)*Tan[e+f*x]-C*m*(b*c-a*d)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m>0 && 
-  Not[IntegerQ[n] && n>0 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2-a*(b*B-a*C))*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-     Simp[A*(a*(b*c -a*d)*(m+1)-b^2*d*(m+n+2))+(b*B-a*C)*(b*c*(m+1)+a*d*(n+1)) - 
-      (m+1)*(b*c-a*d)*(A*b-a*B-b*C)*Tan[e+f*x] - 
-      d*(A*b^2-a*(b*B-a*C))*(m+n+2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 &&
-  Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2+a^2*C)*(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^(n+1)/(f*(m+1)*(b*c-a*d)*(a^2+b^2)) + 
-  1/((m+1)*(b*c-a*d)*(a^2+b^2))*Int[(a+b*Tan[e+f*x])^(m+1)*(c+d*Tan[e+f*x])^n*
-     Simp[A*(a*(b*c -a*d)*(m+1)-b^2*d*(m+n+2))-a*C*(b*c*(m+1)+a*d*(n+1)) - 
-      (m+1)*(b*c-a*d)*(A*b-b*C)*Tan[e+f*x] - 
-      d*(A*b^2+a^2*C)*(m+n+2)*Tan[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && RationalQ[m] && m<-1 &&
-  Not[IntegerQ[n] && n<-1 && (Not[IntegerQ[m]] || EqQ[c] && NeQ[a])]
-
-
-Int[(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  (a*(A*c-c*C+B*d)+b*(B*c-A*d+C*d))*x/((a^2+b^2)*(c^2+d^2)) + 
-  (A*b^2-a*b*B+a^2*C)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
-  (c^2*C-B*c*d+A*d^2)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(A_.+C_.*tan[e_.+f_.*x_]^2)/((a_+b_.*tan[e_.+f_.*x_])*(c_.+d_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  (a*(A*c-c*C)-b*(A*d-C*d))*x/((a^2+b^2)*(c^2+d^2)) + 
-  (A*b^2+a^2*C)/((b*c-a*d)*(a^2+b^2))*Int[(b-a*Tan[e+f*x])/(a+b*Tan[e+f*x]),x] - 
-  (c^2*C+A*d^2)/((b*c-a*d)*(c^2+d^2))*Int[(d-c*Tan[e+f*x])/(c+d*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,C},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[b*B+a*(A-C)+(a*B-b*(A-C))*Tan[e+f*x],x],x] + 
-  (A*b^2-a*b*B+a^2*C)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  Not[RationalQ[n] && n>0] && Not[RationalQ[n] && n<=-1]
-
-
-Int[(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2)/(a_.+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  1/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*Simp[a*(A-C)-(A*b-b*C)*Tan[e+f*x],x],x] + 
-  (A*b^2+a^2*C)/(a^2+b^2)*Int[(c+d*Tan[e+f*x])^n*(1+Tan[e+f*x]^2)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2] && 
-  Not[RationalQ[n] && n>0] && Not[RationalQ[n] && n<=-1]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+B_.*tan[e_.+f_.*x_]+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n*(A+B*ff*x+C*ff^2*x^2)/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-Int[(a_.+b_.*tan[e_.+f_.*x_])^m_*(c_.+d_.*tan[e_.+f_.*x_])^n_*(A_.+C_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b*ff*x)^m*(c+d*ff*x)^n*(A+C*ff^2*x^2)/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x] && NeQ[b*c-a*d] && NeQ[a^2+b^2] && NeQ[c^2+d^2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.7 (d trig)^m (a+b (c tan)^n)^p*)
-
-
-Int[u_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  a^p*Int[ActivateTrig[u*sec[e+f*x]^(2*p)],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a-b,0] && IntegerQ[p]
-
-
-Int[u_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  Int[ActivateTrig[u*(a*sec[e+f*x]^2)^p],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a-b,0]
-
-
-Int[u_.*(b_.*tan[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  (b*ff^n)^IntPart[p]*(b*Tan[e+f*x]^n)^FracPart[p]/(Tan[e+f*x]/ff)^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(Tan[e+f*x]/ff)^(n*p),x]] /;
-FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[u_.*(b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  b^IntPart[p]*(b*(c*Tan[e+f*x])^n)^FracPart[p]/(c*Tan[e+f*x])^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(c*Tan[e+f*x])^(n*p),x] /;
-FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[1/(a_+b_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  1/a*Int[Cos[e+f*x]^2,x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a-b]
-
-
-Int[1/(a_+b_.*tan[e_.+f_.*x_]^2),x_Symbol] :=
-  x/(a-b) - b/(a-b)*Int[Sec[e+f*x]^2/(a+b*Tan[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a-b]
-
-
-Int[(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  c*ff/f*Subst[Int[(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2),x],x,c*Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && (IntegersQ[n,p] || IGtQ[p,0] || EqQ[n^2,4] || EqQ[n^2,16])
-
-
-Int[(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,e,f,n,p},x]
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  c*ff^(m+1)/f*Subst[Int[x^m*(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2)^(m/2+1),x],x,c*Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[m/2]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sec[e+f*x],x]},
-  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a-b+b*ff^2*x^2)^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sec[e+f*x],x]},
-  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(-1+ff^2*x^2)^(n/2))^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*sin[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(d*Sin[e+f*x])^m*(Sec[e+f*x]^2)^(m/2)/(f*Tan[e+f*x]^m)*
-    Subst[Int[(ff*x)^m*(a+b*ff^2*x^2)^p/(1+ff^2*x^2)^(m/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  c*ff/f*Subst[Int[(d*ff*x/c)^m*(a+b*(ff*x)^n)^p/(c^2+ff^2*x^2),x],x,c*Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && (IGtQ[p,0] || EqQ[n,2] || EqQ[n,4] || IntegerQ[p] && RationalQ[n])
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*tan[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
-  d^(n*p)*Int[(d*Cot[e+f*x])^(m-n*p)*(b+a*Cot[e+f*x]^n)^p,x] /;
-FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
-
-
-Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[sec[e_.+f_.*x_]^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/(c^(m-1)*f)*Subst[Int[(c^2+ff^2*x^2)^(m/2-1)*(a+b*(ff*x)^n)^p,x],x,c*Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[m/2] && (IntegersQ[n,p] || IGtQ[m,0] || IGtQ[p,0] || EqQ[n^2,4] || EqQ[n^2,16])
-
-
-Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[ExpandToSum[b*(ff*x)^n+a*(1-ff^2*x^2)^(n/2),x]^p/(1-ff^2*x^2)^((m+n*p+1)/2),x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && IntegerQ[p]
-
-
-Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*tan[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[1/(1-ff^2*x^2)^((m+1)/2)*((b*(ff*x)^n+a*(1-ff^2*x^2)^(n/2))/(1-ff^2*x^2)^(n/2))^p,x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && Not[IntegerQ[p]]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Int[ExpandTrig[(d*sec[e+f*x])^m*(a+b*(c*tan[e+f*x])^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && IGtQ[p,0]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_*(a_+b_.*tan[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff*(d*Sec[e+f*x])^m/(f*(Sec[e+f*x]^2)^(m/2))*
-    Subst[Int[(1+ff^2*x^2)^(m/2-1)*(a+b*ff^2*x^2)^p,x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,d,e,f,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Sec[e+f*x])^m*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*tan[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Tan[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.9 trig^m (a+b tan^n+c tan^(2 n))^p*)
-
-
-Int[(a_+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(a_+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[1/(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Tan[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Tan[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[1/(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Cot[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Cot[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
-  f/e*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Tan[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && IntegerQ[m/2]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
-  -f/e*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Cot[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && IntegerQ[m/2]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cos[d+e*x],x]},
-  -g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*ExpandToSum[a*(g*x)^(2*n)+b*(g*x)^n*(1-g^2*x^2)^(n/2)+c*(1-g^2*x^2)^n,x]^p/(g*x)^(2*n*p),x],x,Cos[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Sin[d+e*x],x]},
-  g/e*Subst[Int[(1-g^2*x^2)^((m-1)/2)*ExpandToSum[a*(g*x)^(2*n)+b*(g*x)^n*(1-g^2*x^2)^(n/2)+c*(1-g^2*x^2)^n,x]^p/(g*x)^(2*n*p),x],x,Sin[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  f^(m+1)/e*Subst[Int[(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Tan[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EvenQ[m]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_.,x_Symbol] :=
-  -f^(m+1)/e*Subst[Int[(a+b*x^n+c*x^(2*n))^p/(f^2+x^2)^(m/2+1),x],x,f*Cot[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,n,p},x] && EqQ[n2-2*n] && EvenQ[m]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Sin[d+e*x],x]},
-  g/e*Subst[Int[(1-g^2*x^2)^((m-2*n*p-1)/2)*ExpandToSum[c*x^(2*n)+b*x^n*(1-x^2)^(n/2)+a*(1-x^2)^n,x]^p,x],x,Sin[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cos[d+e*x],x]},
-  -g/e*Subst[Int[(1-g^2*x^2)^((m-2*n*p-1)/2)*ExpandToSum[c*x^(2*n)+b*x^n*(1-x^2)^(n/2)+a*(1-x^2)^n,x]^p,x],x,Cos[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && EvenQ[n] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*tan[d_.+e_.*x_])^n_.+c_.*(f_.*tan[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
-  f/e*Subst[Int[(x/f)^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2),x],x,f*Tan[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*(f_.*cot[d_.+e_.*x_])^n_.+c_.*(f_.*cot[d_.+e_.*x_])^n2_.)^p_,x_Symbol] :=
-  -f/e*Subst[Int[(x/f)^m*(a+b*x^n+c*x^(2*n))^p/(f^2+x^2),x],x,f*Cot[d+e*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Cot[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[Tan[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_.+c_.*tan[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Tan[d+e*x]^n+c*Tan[d+e*x]^(2*n))^p/(b+2*c*Tan[d+e*x]^n)^(2*p)*Int[Cot[d+e*x]^m*(b+2*c*Tan[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_.+c_.*cot[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Cot[d+e*x]^n+c*Cot[d+e*x]^(2*n))^p/(b+2*c*Cot[d+e*x]^n)^(2*p)*Int[Tan[d+e*x]^m*(b+2*c*Cot[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_.+b_.*tan[d_.+e_.*x_]^n_+c_.*tan[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Cot[d+e*x],x]},
-  g/e*Subst[Int[(g*x)^(m-2*n*p)*(c+b*(g*x)^n+a*(g*x)^(2*n))^p/(1+g^2*x^2),x],x,Cot[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EvenQ[n]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_.+b_.*cot[d_.+e_.*x_]^n_+c_.*cot[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{g=FreeFactors[Tan[d+e*x],x]},
-  -g/e*Subst[Int[(g*x)^(m-2*n*p)*(c+b*(g*x)^n+a*(g*x)^(2*n))^p/(1+g^2*x^2),x],x,Tan[d+e*x]/g]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c] && EvenQ[n]
-
-
-Int[(A_+B_.*tan[d_.+e_.*x_])*(a_+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Tan[d+e*x])*(b+2*c*Tan[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*cot[d_.+e_.*x_])*(a_+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Cot[d+e*x])*(b+2*c*Cot[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*tan[d_.+e_.*x_])*(a_+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Tan[d+e*x]+c*Tan[d+e*x]^2)^n/(b+2*c*Tan[d+e*x])^(2*n)*Int[(A+B*Tan[d+e*x])*(b+2*c*Tan[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*cot[d_.+e_.*x_])*(a_+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Cot[d+e*x]+c*Cot[d+e*x]^2)^n/(b+2*c*Cot[d+e*x])^(2*n)*Int[(A+B*Cot[d+e*x])*(b+2*c*Cot[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*tan[d_.+e_.*x_])/(a_.+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/Simp[b+q+2*c*Tan[d+e*x],x],x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/Simp[b-q+2*c*Tan[d+e*x],x],x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*cot[d_.+e_.*x_])/(a_.+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/Simp[b+q+2*c*Cot[d+e*x],x],x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/Simp[b-q+2*c*Cot[d+e*x],x],x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*tan[d_.+e_.*x_])*(a_.+b_.*tan[d_.+e_.*x_]+c_.*tan[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*tan[d+e*x])*(a+b*tan[d+e*x]+c*tan[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*cot[d_.+e_.*x_])*(a_.+b_.*cot[d_.+e_.*x_]+c_.*cot[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*cot[d+e*x])*(a+b*cot[d+e*x]+c*cot[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.10 (c+d x)^m (a+b tan)^n*)
-
-
-Int[(c_.+d_.*x_)^m_.*tan[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_],x_Symbol] :=
-  -I*(c+d*x)^(m+1)/(d*(m+1)) + 2*I*Int[(c+d*x)^m*E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))/(1+E^(-2*I*k*Pi)*E^(2*(-I*e+f*fz*x))),x] /;
-FreeQ[{c,d,e,f,fz},x] && IntegerQ[4*k] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*tan[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
-  I*(c+d*x)^(m+1)/(d*(m+1)) - 2*I*Int[(c+d*x)^m*E^(2*I*k*Pi)*E^(2*I*(e+f*x))/(1+E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
-FreeQ[{c,d,e,f},x] && IntegerQ[4*k] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*Complex[0,fz_]*x_],x_Symbol] :=
-  -I*(c+d*x)^(m+1)/(d*(m+1)) + 2*I*Int[(c+d*x)^m*E^(2*(-I*e+f*fz*x))/(1+E^(2*(-I*e+f*fz*x))),x] /;
-FreeQ[{c,d,e,f,fz},x] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*x_],x_Symbol] :=
-  I*(c+d*x)^(m+1)/(d*(m+1)) - 2*I*Int[(c+d*x)^m*E^(2*I*(e+f*x))/(1+E^(2*I*(e+f*x))),x] /;
-FreeQ[{c,d,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*(c+d*x)^m*(b*Tan[e+f*x])^(n-1)/(f*(n-1)) - 
-  b*d*m/(f*(n-1))*Int[(c+d*x)^(m-1)*(b*Tan[e+f*x])^(n-1),x] - 
-  b^2*Int[(c+d*x)^m*(b*Tan[e+f*x])^(n-2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  (c+d*x)^m*(b*Tan[e+f*x])^(n+1)/(b*f*(n+1)) - 
-  d*m/(b*f*(n+1))*Int[(c+d*x)^(m-1)*(b*Tan[e+f*x])^(n+1),x] - 
-  1/b^2*Int[(c+d*x)^m*(b*Tan[e+f*x])^(n+2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Tan[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[m,n]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (c+d*x)^(m+1)/(2*a*d*(m+1)) - 
-  a*(c+d*x)^m/(2*b*f*(a+b*Tan[e+f*x])) + 
-  a*d*m/(2*b*f)*Int[(c+d*x)^(m-1)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m>0
-
-
-Int[1/((c_.+d_.*x_)^2*(a_+b_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  -1/(d*(c+d*x)*(a+b*Tan[e+f*x])) + 
-  f/(b*d)*Int[Cos[2*e+2*f*x]/(c+d*x),x] - 
-  f/(a*d)*Int[Sin[2*e+2*f*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  f*(c+d*x)^(m+2)/(b*d^2*(m+1)*(m+2)) + 
-  (c+d*x)^(m+1)/(d*(m+1)*(a+b*Tan[e+f*x])) + 
-  2*b*f/(a*d*(m+1))*Int[(c+d*x)^(m+1)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m<-1 && m!=-2
-
-
-(* Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (c+d*x)^(m+1)/(d*(m+1)*(a+b*Tan[e+f*x])) + 
-  f/(b*d*(m+1))*Int[(c+d*x)^(m+1),x] + 
-  2*b*f/(a*d*(m+1))*Int[(c+d*x)^(m+1)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && RationalQ[m] && m<-1 *)
-
-
-Int[1/((c_.+d_.*x_)*(a_+b_.*tan[e_.+f_.*x_])),x_Symbol] :=
-  Log[c+d*x]/(2*a*d) + 
-  1/(2*a)*Int[Cos[2*e+2*f*x]/(c+d*x),x] + 
-  1/(2*b)*Int[Sin[2*e+2*f*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2]
-
-
-Int[(c_.+d_.*x_)^m_/(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (c+d*x)^(m+1)/(2*a*d*(m+1)) + 
-  1/(2*a)*Int[(c+d*x)^m*E^(2*a/b*(e+f*x)),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2+b^2] && Not[IntegerQ[m]]
-
-
-Int[(c_.+d_.*x_)^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(1/(2*a)+Cos[2*e+2*f*x]/(2*a)+Sin[2*e+2*f*x]/(2*b))^(-n),x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && NegativeIntegerQ[m,n]
-
-
-Int[(c_.+d_.*x_)^m_*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(1/(2*a)+E^(2*a/b*(e+f*x))/(2*a))^(-n),x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[a^2+b^2] && NegativeIntegerQ[n]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  With[{u=IntHide[(a+b*Tan[e+f*x])^n,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[Dist[(c+d*x)^(m-1),u,x],x]] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[a^2+b^2] && NegativeIntegerQ[n+1] && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+k_.*Pi+f_.*x_]),x_Symbol] :=
-  (c+d*x)^(m+1)/(d*(m+1)*(a-I*b)) - 2*I*b*Int[(c+d*x)^m/(a^2+b^2+(a-I*b)^2*E^(2*I*k*Pi)*E^(2*I*(e+f*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && IntegerQ[4*k] && NeQ[a^2+b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_./(a_+b_.*tan[e_.+f_.*x_]),x_Symbol] :=
-  (c+d*x)^(m+1)/(d*(m+1)*(a-I*b)) - 2*I*b*Int[(c+d*x)^m/(a^2+b^2+(a-I*b)^2*E^(2*I*(e+f*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)/(a_+b_.*tan[e_.+f_.*x_])^2,x_Symbol] :=
-  -(c+d*x)^2/(2*d*(a^2+b^2)) - 
-  b*(c+d*x)/(f*(a^2+b^2)*(a+b*Tan[e+f*x])) + 
-  1/(f*(a^2+b^2))*Int[(b*d+2*a*c*f+2*a*d*f*x)/(a+b*Tan[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*tan[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(1/(a-I*b)-2*I*b/(a^2+b^2+(a-I*b)^2*E^(2*I*(e+f*x))))^(-n),x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[a^2+b^2] && NegativeIntegerQ[n] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*tan[e_.+f_.*x_]^n_.,x_Symbol] :=
-  If[MatchQ[f,f1_.*Complex[0,j_]],
-    If[MatchQ[e,e1_.+Pi/2],
-      I^n*Defer[Int][(c+d*x)^m*Coth[-I*(e-Pi/2)-I*f*x]^n,x],
-    I^n*Defer[Int][(c+d*x)^m*Tanh[-I*e-I*f*x]^n,x]],
-  If[MatchQ[e,e1_.+Pi/2],
-    (-1)^n*Defer[Int][(c+d*x)^m*Cot[e-Pi/2+f*x]^n,x],
-  Defer[Int][(c+d*x)^m*Tan[e+f*x]^n,x]]] /;
-FreeQ[{c,d,e,f,m,n},x] && IntegerQ[n]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*tan[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(c+d*x)^m*(a+b*Tan[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[u_^m_.*(a_.+b_.*Tan[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Tan[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*(a_.+b_.*Cot[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Cot[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.11 (e x)^m (a+b tan(c+d x^n))^p*)
-
-
-Int[(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Tan[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Cot[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Tan[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Cot[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Tan[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Tan[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Cot[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cot[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Tan[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Tan[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Cot[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Cot[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Tan[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cot[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*Tan[c_.+d_.*x_^n_]^2,x_Symbol] :=
-  x^(m-n+1)*Tan[c+d*x^n]/(d*n) - Int[x^m,x] - (m-n+1)/(d*n)*Int[x^(m-n)*Tan[c+d*x^n],x] /;
-FreeQ[{c,d,m,n},x]
-
-
-Int[x_^m_.*Cot[c_.+d_.*x_^n_]^2,x_Symbol] :=
-  -x^(m-n+1)*Cot[c+d*x^n]/(d*n) - Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Cot[c+d*x^n],x] /;
-FreeQ[{c,d,m,n},x]
-
-
-(* Int[x_^m_.*Tan[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m-n+1)*Tan[a+b*x^n]^(p-1)/(b*n*(p-1)) - 
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Tan[a+b*x^n]^(p-1),x] - 
-  Int[x^m*Tan[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p>1 *)
-
-
-(* Int[x_^m_.*Cot[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^(m-n+1)*Cot[a+b*x^n]^(p-1)/(b*n*(p-1)) + 
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Cot[a+b*x^n]^(p-1),x] - 
-  Int[x^m*Cot[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p>1 *)
-
-
-(* Int[x_^m_.*Tan[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m-n+1)*Tan[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Tan[a+b*x^n]^(p+1),x] - 
-  Int[x^m*Tan[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p<-1 *)
-
-
-(* Int[x_^m_.*Cot[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^(m-n+1)*Cot[a+b*x^n]^(p+1)/(b*n*(p+1)) + 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cot[a+b*x^n]^(p+1),x] - 
-  Int[x^m*Cot[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && 0<n<m+1 && p<-1 *)
-
-
-Int[x_^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Tan[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Cot[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Tan[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Tan[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Cot[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cot[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Tan[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Tan[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Cot[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Cot[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sec[a_.+b_.*x_^n_.]^p_.*Tan[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
-  x^(m-n+1)*Sec[a+b*x^n]^p/(b*n*p) -
-  (m-n+1)/(b*n*p)*Int[x^(m-n)*Sec[a+b*x^n]^p,x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
-
-
-Int[x_^m_.*Csc[a_.+b_.*x_^n_.]^p_.*Cot[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
-  -x^(m-n+1)*Csc[a+b*x^n]^p/(b*n*p) +
-  (m-n+1)/(b*n*p)*Int[x^(m-n)*Csc[a+b*x^n]^p,x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2.12 (d+e x)^m tan(a+b x+c x^2)^n*)
-
-
-Int[Tan[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Tan[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[Cot[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Cot[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(d_+e_.*x_)*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*Log[Cos[a+b*x+c*x^2]]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e]
-
-
-Int[(d_+e_.*x_)*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Log[Sin[a+b*x+c*x^2]]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[2*c*d-b*e]
-
-
-Int[(d_.+e_.*x_)*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -e*Log[Cos[a+b*x+c*x^2]]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Tan[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e]
-
-
-Int[(d_.+e_.*x_)*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Log[Sin[a+b*x+c*x^2]]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Cot[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[2*c*d-b*e]
-
-
-(* Int[x_^m_*Tan[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  -x^(m-1)*Log[Cos[a+b*x+c*x^2]]/(2*c) - 
-  b/(2*c)*Int[x^(m-1)*Tan[a+b*x+c*x^2],x] + 
-  (m-1)/(2*c)*Int[x^(m-2)*Log[Cos[a+b*x+c*x^2]],x] /;
-FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
-
-
-(* Int[x_^m_*Cot[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  x^(m-1)*Log[Sin[a+b*x+c*x^2]]/(2*c) -
-  b/(2*c)*Int[x^(m-1)*Cot[a+b*x+c*x^2],x] -
-  (m-1)/(2*c)*Int[x^(m-2)*Log[Sin[a+b*x+c*x^2]],x] /;
-FreeQ[{a,b,c},x] && RationalQ[m] && m>1*)
-
-
-Int[(d_.+e_.*x_)^m_.*Tan[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Tan[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[(d_.+e_.*x_)^m_.*Cot[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Cot[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-
-`)
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_]),x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x]) /;
+FreeQ[{a,b,d,e,f,A,B,m,n},x]
 
-func resourcesRubi42TangentMBytes() ([]byte, error) {
-	return _resourcesRubi42TangentM, nil
-}
 
-func resourcesRubi42TangentM() (*asset, error) {
-	bytes, err := resourcesRubi42TangentMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (c+d Sec[e+f x])^n (A+B Sec[e+f x])^p == (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x])^p*)
 
-	info := bindataFileInfo{name: "resources/rubi/4.2 Tangent.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi43SecantM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Secant Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.1.1 (a+b sec)^n*)
-
-
-Int[csc[c_.+d_.*x_]^n_,x_Symbol] :=
-  -1/d*Subst[Int[ExpandIntegrand[(1+x^2)^(n/2-1),x],x],x,Cot[c+d*x]] /;
-FreeQ[{c,d},x] && PositiveIntegerQ[n/2]
-
-
-Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b*Cos[c+d*x]*(b*Csc[c+d*x])^(n-1)/(d*(n-1)) + 
-  b^2*(n-2)/(n-1)*Int[(b*Csc[c+d*x])^(n-2),x] /;
-FreeQ[{b,c,d},x] && n>1 && IntegerQ[2*n]
-
-
-Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Cos[c+d*x]*(b*Csc[c+d*x])^(n+1)/(b*d*n) + 
-  (n+1)/(b^2*n)*Int[(b*Csc[c+d*x])^(n+2),x] /;
-FreeQ[{b,c,d},x] && n<-1 && IntegerQ[2*n]
-
-
-Int[csc[c_.+d_.*x_],x_Symbol] :=
-(* -ArcCoth[Cos[c+d*x]]/d /; *)
-  -ArcTanh[Cos[c+d*x]]/d /;
-FreeQ[{c,d},x]
-
-
-(* Int[1/csc[c_.+d_.*x_],x_Symbol] :=
-  -Cos[c+d*x]/d /;
-FreeQ[{c,d},x] *)
-
-
-Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  (b*Csc[c+d*x])^n*Sin[c+d*x]^n*Int[1/Sin[c+d*x]^n,x] /;
-FreeQ[{b,c,d},x] && EqQ[n^2-1/4]
-
-
-Int[(b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  (b*Csc[c+d*x])^(n-1)*((Sin[c+d*x]/b)^(n-1)*Int[1/(Sin[c+d*x]/b)^n,x]) /;
-FreeQ[{b,c,d,n},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^2,x_Symbol] :=
-  a^2*x + 2*a*b*Int[Csc[c+d*x],x] + b^2*Int[Csc[c+d*x]^2,x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
-  -2*b/d*Subst[Int[1/(a+x^2),x],x,b*Cot[c+d*x]/Sqrt[a+b*Csc[c+d*x]]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n-2)/(d*(n-1)) + 
-  a/(n-1)*Int[(a+b*Csc[c+d*x])^(n-2)*(a*(n-1)+b*(3*n-4)*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
-
-
-Int[1/Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
-  1/a*Int[Sqrt[a+b*Csc[c+d*x]],x] - 
-  b/a*Int[Csc[c+d*x]/Sqrt[a+b*Csc[c+d*x]],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -Cot[c+d*x]*(a+b*Csc[c+d*x])^n/(d*(2*n+1)) + 
-  1/(a^2*(2*n+1))*Int[(a+b*Csc[c+d*x])^(n+1)*(a*(2*n+1)-b*(n+1)*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^n*Cot[c+d*x]/(d*Sqrt[1+Csc[c+d*x]]*Sqrt[1-Csc[c+d*x]])*
-    Subst[Int[(1+b*x/a)^(n-1/2)/(x*Sqrt[1-b*x/a]),x],x,Csc[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && PositiveQ[a]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^IntPart[n]*(a+b*Csc[c+d*x])^FracPart[n]/(1+b/a*Csc[c+d*x])^FracPart[n]*Int[(1+b/a*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[2*n]] && Not[PositiveQ[a]]
-
-
-Int[Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
-  2*(a+b*Csc[c+d*x])/(d*Rt[a+b,2]*Cot[c+d*x])*Sqrt[b*(1+Csc[c+d*x])/(a+b*Csc[c+d*x])]*Sqrt[-b*(1-Csc[c+d*x])/(a+b*Csc[c+d*x])]*
-    EllipticPi[a/(a+b),ArcSin[Rt[a+b,2]/Sqrt[a+b*Csc[c+d*x]]],(a-b)/(a+b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^(3/2),x_Symbol] :=
-  Int[(a^2+b*(2*a-b)*Csc[c+d*x])/Sqrt[a+b*Csc[c+d*x]],x] + 
-  b^2*Int[Csc[c+d*x]*(1+Csc[c+d*x])/Sqrt[a+b*Csc[c+d*x]],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n-2)/(d*(n-1)) + 
-  1/(n-1)*Int[(a+b*Csc[c+d*x])^(n-3)*
-    Simp[a^3*(n-1)+(b*(b^2*(n-2)+3*a^2*(n-1)))*Csc[c+d*x]+(a*b^2*(3*n-4))*Csc[c+d*x]^2,x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
-
-
-Int[1/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  x/a - 1/a*Int[1/(1+a/b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[1/Sqrt[a_+b_.*csc[c_.+d_.*x_]],x_Symbol] :=
-  2*Rt[a+b,2]/(a*d*Cot[c+d*x])*Sqrt[b*(1-Csc[c+d*x])/(a+b)]*Sqrt[-b*(1+Csc[c+d*x])/(a-b)]*
-    EllipticPi[(a+b)/a,ArcSin[Sqrt[a+b*Csc[c+d*x]]/Rt[a+b,2]],(a+b)/(a-b)] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  b^2*Cot[c+d*x]*(a+b*Csc[c+d*x])^(n+1)/(a*d*(n+1)*(a^2-b^2)) + 
-  1/(a*(n+1)*(a^2-b^2))*Int[(a+b*Csc[c+d*x])^(n+1)*Simp[(a^2-b^2)*(n+1)-a*b*(n+1)*Csc[c+d*x]+b^2*(n+2)*Csc[c+d*x]^2,x],x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.1.2 (d sec)^n (a+b sec)^m*)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a*Int[(d*Csc[e+f*x])^n,x] + b/d*Int[(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,n},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^2*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  2*a*b/d*Int[(d*Csc[e+f*x])^(n+1),x] + Int[(d*Csc[e+f*x])^n*(a^2+b^2*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,n},x]
-
-
-Int[csc[e_.+f_.*x_]^2/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  1/b*Int[Csc[e+f*x],x] - a/b*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[csc[e_.+f_.*x_]^3/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -Cot[e+f*x]/(b*f) - a/b*Int[Csc[e+f*x]^2/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandTrig[(a+b*csc[e+f*x])^m*(d*csc[e+f*x])^n,x],x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && RationalQ[n]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*b*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]) /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + a*(2*m-1)/m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m>1/2 && IntegerQ[2*m]
-
-
-Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -Cot[e+f*x]/(f*(b+a*Csc[e+f*x])) /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2/f*Subst[Int[1/(2*a+x^2),x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + (m+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2 && IntegerQ[2*m]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(2*m+1)) + 
-  m/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  a*m/(b*(m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) - 
-  1/(a^2*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(a*m-b*(2*m+1)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(b*(m+1)-a*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*a/(b*f)*Sqrt[a*d/b]*Subst[Int[1/Sqrt[1+x^2/a],x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && PositiveQ[a*d/b]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*b*d/f*Subst[Int[1/(b-d*x^2),x],x,b*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]])] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && Not[PositiveQ[a*d/b]]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*b*d*Cot[e+f*x]*(d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  2*a*d*(n-1)/(b*(2*n-1))*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*a*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]]) /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n*Sqrt[a+b*Csc[e+f*x]]) + 
-  a*(2*n+1)/(2*b*d*n)*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2 && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*d*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*Subst[Int[(d*x)^(n-1)/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -Sqrt[2]*Sqrt[a]/(b*f)*Subst[Int[1/Sqrt[1+x^2],x],x,b*Cot[e+f*x]/(a+b*Csc[e+f*x])] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && EqQ[d-a/b] && PositiveQ[a]
-
-
-Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*b*d/(a*f)*Subst[Int[1/(2*b-d*x^2),x],x,b*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]])] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*m) + 
-  b*(2*m-1)/(d*m)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n] && RationalQ[m] && m>1/2 && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) + 
-  d*(m+1)/(b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n] && RationalQ[m] && m<-1/2 && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(2*m+1)) + 
-  m/(a*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m+n+1==0 && m<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+1)) + 
-  a*m/(b*d*(m+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*n) - 
-  a/(d*n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n+1)*(b*(m-2*n-2)-a*(m+2*n-1)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m>1 && (n<-1 || m==3/2 && n==-1/2) && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*(m+n-1)) + 
-  b/(m+n-1)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n*(b*(m+2*n-1)+a*(3*m+2*n-4)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m>1 && NeQ[m+n-1] && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) - 
-  d/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*(a*(n-1)-b*(m+n)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 1<n<2 && (IntegersQ[2*m,2*n] || IntegerQ[m])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(2*m+1)) + 
-  d^2/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*(b*(n-2)+a*(m-n+2)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>2 && (IntegersQ[2*m,2*n] || IntegerQ[m])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(2*m+1)) + 
-  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*(a*(2*m+n+1)-b*(m+n+1)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1 && (IntegersQ[2*m,2*n] || IntegerQ[m])
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  d^2*Cot[e+f*x]*(d*Csc[e+f*x])^(n-2)/(f*(a+b*Csc[e+f*x])) - 
-  d^2/(a*b)*Int[(d*Csc[e+f*x])^(n-2)*(b*(n-2)-a*(n-1)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>1
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(a+b*Csc[e+f*x])) - 
-  1/a^2*Int[(d*Csc[e+f*x])^n*(a*(n-1)-b*n*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<0
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*d*Cot[e+f*x]*(d*Csc[e+f*x])^(n-1)/(a*f*(a+b*Csc[e+f*x])) + 
-  d*(n-1)/(a*b)*Int[(d*Csc[e+f*x])^(n-1)*(a-b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,n},x] && EqQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  d/b*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] - 
-  a*d/b*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*d^2*Cot[e+f*x]*(d*Csc[e+f*x])^(n-2)/(f*(2*n-3)*Sqrt[a+b*Csc[e+f*x]]) + 
-  d^2/(b*(2*n-3))*Int[(d*Csc[e+f*x])^(n-2)*(2*b*(n-2)-a*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n*Sqrt[a+b*Csc[e+f*x]]) + 
-  1/(2*b*d*n)*Int[(d*Csc[e+f*x])^(n+1)*(a+b*(2*n+1)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && EqQ[a^2-b^2] && RationalQ[n] && n<0 && IntegerQ[2*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(m+n-1)) + 
-  d^2/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)*(b*(n-2)+a*m*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,m},x] && EqQ[a^2-b^2] && RationalQ[n] && n>2 && NeQ[m+n-1] && IntegerQ[n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(a*d/b)^n*Cot[e+f*x]/(a^(n-2)*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
-    Subst[Int[(a-x)^(n-1)*(2*a-x)^(m-1/2)/Sqrt[x],x],x,a-b*Csc[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[IntegerQ[n]] && PositiveQ[a*d/b]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -(-a*d/b)^n*Cot[e+f*x]/(a^(n-1)*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
-    Subst[Int[x^(m-1/2)*(a-x)^(n-1)/Sqrt[2*a-x],x],x,a+b*Csc[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a] && Not[IntegerQ[n]] && NegativeQ[a*d/b]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^2*d*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
-    Subst[Int[(d*x)^(n-1)*(a+b*x)^(m-1/2)/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && PositiveQ[a]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^IntPart[m]*(a+b*Csc[e+f*x])^FracPart[m]/(1+b/a*Csc[e+f*x])^FracPart[m]*Int[(1+b/a*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[m]] && Not[PositiveQ[a]]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  (a-b)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + b*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
-  1/m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(b^2*(m-1)+a^2*m+a*b*(2*m-1)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && IntegerQ[2*m]
-
-
-(* Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -2/f*Subst[Int[1/(a+b-(a-b)*x^2),x],x,Cot[e+f*x]/(1+Csc[e+f*x])] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] *)
-
-
-Int[csc[e_.+f_.*x_]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  1/b*Int[1/(1+a/b*Sin[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*Rt[a+b,2]/(b*f*Cot[e+f*x])*Sqrt[(b*(1-Csc[e+f*x]))/(a+b)]*Sqrt[-b*(1+Csc[e+f*x])/(a-b)]*
-    EllipticF[ArcSin[Sqrt[a+b*Csc[e+f*x]]/Rt[a+b,2]],(a+b)/(a-b)] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -b*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(a*(m+1)-b*(m+2)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegerQ[2*m]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
- Cot[e+f*x]/(f*Sqrt[1+Csc[e+f*x]]*Sqrt[1-Csc[e+f*x]])*Subst[Int[(a+b*x)^m/(Sqrt[1+x]*Sqrt[1-x]),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  m/(m+1)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(b+a*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  a*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) - 
-  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(b*(m+1)-a*(m+2)*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]^2/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -a/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] + 1/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -a^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
-  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[a*b*(m+1)-(a^2+b^2*(m+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]^3*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(b*(m+1)-a*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-3)*(d*Csc[e+f*x])^(n+1)*
-    Simp[a^2*b*(m-2*n-2)-a*(3*b^2*n+a^2*(n+1))*Csc[e+f*x]-b*(b^2*n+a^2*(m+n-1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>2 && (IntegerQ[m] && n<-1 || IntegersQ[m+1/2,2*n] && n<=-1)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n/(f*(m+n-1)) + 
-  1/(d*(m+n-1))*Int[(a+b*Csc[e+f*x])^(m-3)*(d*Csc[e+f*x])^n*
-    Simp[a^3*d*(m+n-1)+a*b^2*d*n+b*(b^2*d*(m+n-2)+3*a^2*d*(m+n-1))*Csc[e+f*x]+a*b^2*d*(3*m+2*n-4)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>2 && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n]) && Not[IntegerQ[n] && n>2 && Not[IntegerQ[m]]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[b*d*(n-1)+a*d*(m+1)*Csc[e+f*x]-b*d*(m+n+1)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 0<n<1 && IntegersQ[2*m,2*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(f*(m+1)*(a^2-b^2)) - 
-  d^2/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*(a*(n-2)+b*(m+1)*Csc[e+f*x]-a*(m+n)*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 1<n<2 && IntegersQ[2*m,2*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a^2*d^3*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)/(b*f*(m+1)*(a^2-b^2)) + 
-  d^3/(b*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)*
-    Simp[a^2*(n-3)+a*b*(m+1)*Csc[e+f*x]-(a^2*(n-2)+b^2*(m+1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && (IntegerQ[n] && n>3 || IntegersQ[n+1/2,2*m] && n>2)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) - 
-  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
-    Simp[b*(m+n+1)-a*(n+1)*Csc[e+f*x]-b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+1/2,n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    (a^2*(m+1)-b^2*(m+n+1)-a*b*(m+1)*Csc[e+f*x]+b^2*(m+n+2)*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && IntegersQ[2*m,2*n]
-
-
-Int[Sqrt[d_.*csc[e_.+f_.*x_]]/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  Sqrt[d*Sin[e+f*x]]*Sqrt[d*Csc[e+f*x]]/d*Int[Sqrt[d*Sin[e+f*x]]/(b+a*Sin[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^(3/2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  d*Sqrt[d*Sin[e+f*x]]*Sqrt[d*Csc[e+f*x]]*Int[1/(Sqrt[d*Sin[e+f*x]]*(b+a*Sin[e+f*x])),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^(5/2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  d/b*Int[(d*Csc[e+f*x])^(3/2),x] - a*d/b*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -d^3*Cot[e+f*x]*(d*Csc[e+f*x])^(n-3)/(b*f*(n-2)) + 
-  d^3/(b*(n-2))*Int[(d*Csc[e+f*x])^(n-3)*Simp[a*(n-3)+b*(n-3)*Csc[e+f*x]-a*(n-2)*Csc[e+f*x]^2,x]/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>3
-
-
-Int[1/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  b^2/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
-  1/a^2*Int[(a-b*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  Cot[e+f*x]*(d*Csc[e+f*x])^n/(a*f*n) - 
-  1/(a*d*n)*Int[(d*Csc[e+f*x])^(n+1)/(a+b*Csc[e+f*x])*
-    Simp[b*n-a*(n+1)*Csc[e+f*x]-b*(n+1)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  a*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  b/d*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*d*Cos[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n-1)/(f*(2*n-1)) + 
-  d^2/(2*n-1)*Int[(d*Csc[e+f*x])^(n-2)*Simp[2*a*(n-2)+b*(2*n-3)*Csc[e+f*x]+a*Csc[e+f*x]^2,x]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && IntegerQ[2*n]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[a+b*Csc[e+f*x]]/(Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]])*Int[Sqrt[b+a*Sin[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Cot[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(2*d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[b-2*a*(n+1)*Csc[e+f*x]-b*(2*n+3)*Csc[e+f*x]^2,x]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegerQ[2*n]
-
-
-Int[Sqrt[d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/Sqrt[b+a*Sin[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  d*Sqrt[d*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/(Sin[e+f*x]*Sqrt[b+a*Sin[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*d^2*Cos[e+f*x]*(d*Csc[e+f*x])^(n-2)*Sqrt[a+b*Csc[e+f*x]]/(b*f*(2*n-3)) + 
-  d^3/(b*(2*n-3))*Int[(d*Csc[e+f*x])^(n-3)/Sqrt[a+b*Csc[e+f*x]]*
-     Simp[2*a*(n-3)+b*(2*n-5)*Csc[e+f*x]-2*a*(n-2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n>2 && IntegerQ[2*n]
-
-
-Int[1/(csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  -Cos[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(a*f) - b/(2*a)*Int[(1+Csc[e+f*x]^2)/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  1/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] - 
-  b/(a*d)*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Cos[e+f*x]*(d*Csc[e+f*x])^(n+1)*Sqrt[a+b*Csc[e+f*x]]/(a*d*f*n) + 
-  1/(2*a*d*n)*Int[(d*Csc[e+f*x])^(n+1)/Sqrt[a+b*Csc[e+f*x]]*
-    Simp[-b*(2*n+1)+2*a*(n+1)*Csc[e+f*x]+b*(2*n+3)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<-1 && IntegerQ[2*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*Cot[e+f*x]*Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n/(f*n) + 
-  1/(2*d*n)*Int[(d*Csc[e+f*x])^(n+1)/Sqrt[a+b*Csc[e+f*x]]*
-    Simp[a*b*(2*n-1)+2*(b^2*n+a^2*(n+1))*Csc[e+f*x]+a*b*(2*n+3)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1 && IntegersQ[2*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d^3*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-3)/(b*f*(m+n-1)) + 
-  d^3/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-3)*
-    Simp[a*(n-3)+b*(m+n-2)*Csc[e+f*x]-a*(n-2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>3 && 
-  (IntegerQ[n] || IntegersQ[2*m,2*n]) && Not[IntegerQ[m] && m>2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-1)/(f*(m+n-1)) + 
-  d/(m+n-1)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n-1)*
-    Simp[a*b*(n-1)+(b^2*(m+n-2)+a^2*(m+n-1))*Csc[e+f*x]+a*b*(2*m+n-2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<2 && 0<n<3 && NeQ[m+n-1] && 
-  (IntegerQ[m] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)/(f*(m+n-1)) + 
-  d^2/(b*(m+n-1))*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-2)*
-    Simp[a*b*(n-2)+b^2*(m+n-2)*Csc[e+f*x]+a*b*m*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2] && RationalQ[m,n] && -1<m<2 && 1<n<3 && NeQ[m+n-1] && 
-  (IntegerQ[n] || IntegersQ[2*m,2*n])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] + 
-  b/d*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b/d*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1),x] + 
-  a*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,n},x] && PositiveIntegerQ[m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,m,n},x]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_*(a_.+b_.*sec[e_.+f_.*x_])^p_,x_Symbol] :=
-  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*Sec[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.1.3 (d sin)^n (a+b sec)^m*)
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Int[(g*Cos[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
-FreeQ[{a,b,e,f,g,p},x] && IntegerQ[m]
-
-
-Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -1/(f*b^(p-1))*Subst[Int[(-a+b*x)^((p-1)/2)*(a+b*x)^(m+(p-1)/2)/x^(p+1),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && EqQ[a^2-b^2]
-
-
-Int[cos[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  -1/f*Subst[Int[(-1+x)^((p-1)/2)*(1+x)^((p-1)/2)*(a+b*x)^m/x^(p+1),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,e,f,m},x] && IntegerQ[(p-1)/2] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_/cos[e_.+f_.*x_]^2,x_Symbol] :=
-  Tan[e+f*x]*(a+b*Csc[e+f*x])^m/f + b*m*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1),x] /;
-FreeQ[{a,b,e,f,m},x]
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  Sin[e+f*x]^FracPart[m]*(a+b*Csc[e+f*x])^FracPart[m]/(b+a*Sin[e+f*x])^FracPart[m]*
-    Int[(g*Cos[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && (EqQ[a^2-b^2] || IntegersQ[2*m,p])
-
-
-Int[(g_.*cos[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Defer[Int][(g*Cos[e+f*x])^p*(a+b*Csc[e+f*x])^m,x] /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
-  Int[(g*Sec[e+f*x])^p*(b+a*Sin[e+f*x])^m/Sin[e+f*x]^m,x] /;
-FreeQ[{a,b,e,f,g,p},x] && Not[IntegerQ[p]] && IntegerQ[m] *)
-
-
-Int[(g_.*sec[e_.+f_.*x_])^p_*(a_+b_.*csc[e_.+f_.*x_])^m_.,x_Symbol] :=
-  g^IntPart[p]*(g*Sec[e+f*x])^FracPart[p]*Cos[e+f*x]^FracPart[p]*Int[(a+b*Csc[e+f*x])^m/Cos[e+f*x]^p,x] /;
-FreeQ[{a,b,e,f,g,m,p},x] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.1.4 (d tan)^n (a+b sec)^m*)
-
-
-Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
-  1/(a^(m-n-1)*b^n*d)*Subst[Int[(a-b*x)^((m-1)/2)*(a+b*x)^((m-1)/2+n)/x^(m+n),x],x,Sin[c+d*x]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[(m-1)/2] && EqQ[a^2-b^2] && IntegerQ[n]
-
-
-Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -1/(d*b^(m-1))*Subst[Int[(-a+b*x)^((m-1)/2)*(a+b*x)^((m-1)/2+n)/x,x],x,Csc[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[(m-1)/2] && EqQ[a^2-b^2] && Not[IntegerQ[n]]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  -e*(e*Cot[c+d*x])^(m-1)*(a*m+b*(m-1)*Csc[c+d*x])/(d*m*(m-1)) - 
-  e^2/m*Int[(e*Cot[c+d*x])^(m-2)*(a*m+b*(m-1)*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  -(e*Cot[c+d*x])^(m+1)*(a+b*Csc[c+d*x])/(d*e*(m+1)) - 
-  1/(e^2*(m+1))*Int[(e*Cot[c+d*x])^(m+2)*(a*(m+1)+b*(m+2)*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1
-
-
-Int[(a_+b_.*csc[c_.+d_.*x_])/cot[c_.+d_.*x_],x_Symbol] :=
-  Int[(b+a*Sin[c+d*x])/Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_.*(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  a*Int[(e*Cot[c+d*x])^m,x] + b*Int[(e*Cot[c+d*x])^m*Csc[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m},x]
-
-
-Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -(-1)^((m-1)/2)/(d*b^(m-1))*Subst[Int[(b^2-x^2)^((m-1)/2)*(a+x)^n/x,x],x,b*Csc[c+d*x]] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[(m-1)/2] && NeQ[a^2-b^2]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(e*Cot[c+d*x])^m,(a+b*Csc[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n]
-
-
-Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -2*a^(m/2+n+1/2)/d*Subst[Int[x^m*(2+a*x^2)^(m/2+n-1/2)/(1+a*x^2),x],x,Cot[c+d*x]/Sqrt[a+b*Csc[c+d*x]]] /;
-FreeQ[{a,b,c,d},x] && EqQ[a^2-b^2] && IntegerQ[m/2] && IntegerQ[n-1/2]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  a^(2*n)*e^(-2*n)*Int[(e*Cot[c+d*x])^(m+2*n)/(-a+b*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[a^2-b^2] && NegativeIntegerQ[n]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  -2^(m+n+1)*(e*Cot[c+d*x])^(m+1)*(a+b*Csc[c+d*x])^n/(d*e*(m+1))*(a/(a+b*Csc[c+d*x]))^(m+n+1)*
-    AppellF1[(m+1)/2,m+n,1,(m+3)/2,-(a-b*Csc[c+d*x])/(a+b*Csc[c+d*x]),(a-b*Csc[c+d*x])/(a+b*Csc[c+d*x])] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[a^2-b^2] && Not[IntegerQ[n]]
-
-
-Int[Sqrt[e_.*cot[c_.+d_.*x_]]/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  1/a*Int[Sqrt[e*Cot[c+d*x]],x] - b/a*Int[Sqrt[e*Cot[c+d*x]]/(b+a*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  -e^2/b^2*Int[(e*Cot[c+d*x])^(m-2)*(a-b*Csc[c+d*x]),x] + 
-  e^2*(a^2-b^2)/b^2*Int[(e*Cot[c+d*x])^(m-2)/(a+b*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m-1/2]
-
-
-Int[1/(Sqrt[e_.*cot[c_.+d_.*x_]]*(a_+b_.*csc[c_.+d_.*x_])),x_Symbol] :=
-  1/a*Int[1/Sqrt[e*Cot[c+d*x]],x] - b/a*Int[1/(Sqrt[e*Cot[c+d*x]]*(b+a*Sin[c+d*x])),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_/(a_+b_.*csc[c_.+d_.*x_]),x_Symbol] :=
-  1/(a^2-b^2)*Int[(e*Cot[c+d*x])^m*(a-b*Csc[c+d*x]),x] + 
-  b^2/(e^2*(a^2-b^2))*Int[(e*Cot[c+d*x])^(m+2)/(a+b*Csc[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[a^2-b^2] && NegativeIntegerQ[m+1/2]
-
-
-Int[cot[c_.+d_.*x_]^2*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[(-1+Csc[c+d*x]^2)*(a+b*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(e*Cot[c+d*x])^m,(a+b*Csc[c+d*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[a^2-b^2] && PositiveIntegerQ[n]
-
-
-Int[cot[c_.+d_.*x_]^m_.*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[Cos[c+d*x]^m*(b+a*Sin[c+d*x])^n/Sin[c+d*x]^(m+n),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a^2-b^2] && IntegerQ[n] && IntegerQ[m] && (IntegerQ[m/2] || m<=1)
-
-
-(* Int[cot[c_.+d_.*x_]^m_*(a_+b_.*csc[c_.+d_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*Csc[c+d*x])^n,(-1+Csc[c+d*x]^2)^(m/2),x],x] /;
-FreeQ[{a,b,c,d,n},x] && NeQ[a^2-b^2] && PositiveIntegerQ[m/2] *)
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_.*(a_.+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(e*Cot[c+d*x])^m*(a+b*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[(e_.*cot[c_.+d_.*x_])^m_*(a_+b_.*sec[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e*Cot[c+d*x])^m*Tan[c+d*x]^m*Int[(a+b*Sec[c+d*x])^n/Tan[c+d*x]^m,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[m]]
-
-
-Int[(e_.*tan[c_.+d_.*x_]^p_)^m_*(a_+b_.*sec[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e*Tan[c+d*x]^p)^m/(e*Tan[c+d*x])^(m*p)*Int[(e*Tan[c+d*x])^(m*p)*(a+b*Sec[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[(e_.*cot[c_.+d_.*x_]^p_)^m_*(a_+b_.*csc[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e*Cot[c+d*x]^p)^m/(e*Cot[c+d*x])^(m*p)*Int[(e*Cot[c+d*x])^(m*p)*(a+b*Csc[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.2.1 (a+b sec)^m (c+d sec)^n*)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  c^n*Int[ExpandTrig[(1+d/c*csc[e+f*x])^n,(a+b*csc[e+f*x])^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[m] && NegativeIntegerQ[n] && m+n<2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (-a*c)^m*Int[Cot[e+f*x]^(2*m)*(c+d*Csc[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && RationalQ[n] && Not[IntegerQ[n] && m-n>0]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[Cot[e+f*x]^(2*m),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  2*a*c*Cot[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n>1/2
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -2*a*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  1/c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  -4*a^2*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  a/c*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  -2*a^2*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  a*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && Not[RationalQ[n] && n<=-1/2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(5/2)*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  -8*a^3*Cot[e+f*x]*(c+d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  a^2/c^2*Int[Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(n+2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && RationalQ[n] && n<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
-    Subst[Int[(b+a*x)^(m-1/2)*(d+c*x)^(n-1/2)/x^(m+n),x],x,Sin[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m-1/2] && EqQ[m+n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2)/x,x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*c*x + b*d*Int[Csc[e+f*x]^2,x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*c*x + (b*c+a*d)*Int[Csc[e+f*x],x] + b*d*Int[Csc[e+f*x]^2,x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[b*c+a*d]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  c*Int[Sqrt[a+b*Csc[e+f*x]],x] + d*Int[Sqrt[a+b*Csc[e+f*x]]*Csc[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + 
- Int[Csc[e+f*x]*(b*c+a*d+b*d*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
-  1/m*Int[(a+b*Csc[e+f*x])^(m-1)*Simp[a*c*m+(b*c*m+a*d*(2*m-1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m>1 && EqQ[a^2-b^2] && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)/(f*m) + 
-  1/m*Int[(a+b*Csc[e+f*x])^(m-2)*
-    Simp[a^2*c*m+(b^2*d*(m-1)+2*a*b*c*m+a^2*d*m)*Csc[e+f*x]+b*(b*c*m+a*d*(2*m-1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m>1 && NeQ[a^2-b^2] && IntegerQ[2*m]
-
-
-Int[(c_+d_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  c*x/a - (b*c-a*d)/a*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[(c_+d_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  c/a*Int[Sqrt[a+b*Csc[e+f*x]],x] - (b*c-a*d)/a*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[(c_+d_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -(b*c-a*d)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)) + 
-  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[a*c*(2*m+1)-(b*c-a*d)*(m+1)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && EqQ[a^2-b^2] && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  b*(b*c-a*d)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
-    Simp[c*(a^2-b^2)*(m+1)-(a*(b*c-a*d)*(m+1))*Csc[e+f*x]+b*(b*c-a*d)*(m+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && RationalQ[m] && m<-1 && NeQ[a^2-b^2] && IntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  c*Int[(a+b*Csc[e+f*x])^m,x] + d*Int[(a+b*Csc[e+f*x])^m*Csc[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[b*c-a*d] && Not[IntegerQ[2*m]]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  1/c*Int[Sqrt[a+b*Csc[e+f*x]],x] - d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a/c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] + (b*c-a*d)/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a/c*Int[Sqrt[a+b*Csc[e+f*x]],x] + (b*c-a*d)/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-(* Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  b/d*Int[Sqrt[a+b*Csc[e+f*x]],x] - (b*c-a*d)/d*Int[Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] *)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^(3/2)/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  1/(c*d)*Int[(a^2*d+b^2*c*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] - 
-  (b*c-a*d)^2/(c*d)*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  1/(c*(b*c-a*d))*Int[(b*c-a*d-b*d*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + 
-  d^2/(c*(b*c-a*d))*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  1/c*Int[1/Sqrt[a+b*Csc[e+f*x]],x] - d/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]/Cot[e+f*x]*Int[Cot[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  c*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] + 
-  d*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  1/c*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]],x] - 
-  d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*a/f*Subst[Int[1/(1+a*c*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  a/c*Int[Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  (b*c-a*d)/c*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  2*(a+b*Csc[e+f*x])/(c*f*Rt[(a+b)/(c+d),2]*Cot[e+f*x])*
-    Sqrt[(b*c-a*d)*(1+Csc[e+f*x])/((c-d)*(a+b*Csc[e+f*x]))]*
-    Sqrt[-(b*c-a*d)*(1-Csc[e+f*x])/((c+d)*(a+b*Csc[e+f*x]))]*
-    EllipticPi[a*(c+d)/(c*(a+b)),ArcSin[Rt[(a+b)/(c+d),2]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[1/Cot[e+f*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[1/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  1/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] - 
-  b/a*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  1/c*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] - 
-  d/c*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x])^(3/2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[c^2-d^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^2*(Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]]))*
-    Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^n/(x*Sqrt[a-b*x]),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && IntegerQ[m-1/2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m] && IntegerQ[n] && MemberQ[{0,-1,-2},m+n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Sqrt[d+c*Sin[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(Sqrt[b+a*Sin[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
-    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m+1/2] && IntegerQ[n+1/2] && MemberQ[{0,-1,-2},m+n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Sin[e+f*x]^(m+n)*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/((b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n)*
-    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^Simplify[m+n],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && EqQ[m+n] && Not[IntegerQ[2*m]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(a+b*csc[e+f*x])^m,(c+d*csc[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_./sec[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_.+b_.*csc[e_.+f_.*x_])^m_.*(d_./csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  d^m*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,d,e,f,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Sec[e + f*x])^p)^FracPart[n]/(d*Sec[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_.+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_,x_Symbol] :=
-  c^IntPart[n]*(c*(d*Csc[e + f*x])^p)^FracPart[n]/(d*Csc[e + f*x])^(p*FracPart[n])*
-    Int[(a+b*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n*p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.2.2 (g sec)^p (a+b sec)^m (c+d sec)^n*)
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && EqQ[m+n+1] && NeQ[2*m+1]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
-  (m+n+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NegativeIntegerQ[m+n+1] && NeQ[2*m+1] && 
-  Not[RationalQ[n] && n<0] && Not[PositiveIntegerQ[n+1/2] && n+1/2<-(m+n)]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  a*c*Log[1+b/a*Csc[e+f*x]]*Cot[e+f*x]/(b*f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]) /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)*Sqrt[c+d*Csc[e+f*x]]) /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && NeQ[m+1/2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(b*f*(2*m+1)) - 
-  d*(2*n-1)/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2] && RationalQ[m] && m<-1/2
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
-  c*(2*n-1)/(m+n)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n-1/2] && Not[RationalQ[m] && m<-1/2] && 
-  Not[PositiveIntegerQ[m-1/2] && m<n]
-
-
-Int[csc[e_.+f_.*x_]*(c_+d_.*csc[e_.+f_.*x_])^n_./Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*d*Cot[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/(f*(2*n-1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  2*c*(2*n-1)/(2*n-1)*Int[Csc[e+f*x]*(c+d*Csc[e+f*x])^(n-1)/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  2*a*c*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^(n-1)/(b*f*(2*m+1)) - 
-  d*(2*n-1)/(b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && PositiveIntegerQ[n] && m<-1/2 && IntegerQ[2*m]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (-a*c)^m*Int[ExpandTrig[csc[e+f*x]*cot[e+f*x]^(2*m),(c+d*csc[e+f*x])^(n-m),x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n] && n-m>=0 && m*n>0
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[Csc[e+f*x]*Cot[e+f*x]^(2*m),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  b*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
-  (m+n+1)/(a*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && (NegativeIntegerQ[m,n-1/2] || NegativeIntegerQ[m-1/2,n-1/2] && m<n)
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*c*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Subst[Int[(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  (-a*c)^m*Int[ExpandTrig[(g*csc[e+f*x])^p*cot[e+f*x]^(2*m),(c+d*csc[e+f*x])^(n-m),x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n] && n-m>=0 && m*n>0
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^m_,x_Symbol] :=
-  (-a*c)^(m+1/2)*Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*Int[(g*Csc[e+f*x])^p*Cot[e+f*x]^(2*m),x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m+1/2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a*c*g*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
-    Subst[Int[(g*x)^(p-1)*(a+b*x)^(m-1/2)*(c+d*x)^(n-1/2),x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[g_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -2*b*g/f*Subst[Int[1/(b*c+a*d-c*g*x^2),x],x,b*Cot[e+f*x]/(Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[Sqrt[g_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a/c*Int[Sqrt[g*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  (b*c-a*d)/(c*g)*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -2*b/f*Subst[Int[1/(b*c+a*d+d*x^2),x],x,b*Cot[e+f*x]/Sqrt[a+b*Csc[e+f*x]]] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -Sqrt[a+b*Csc[e+f*x]]*Sqrt[c/(c+d*Csc[e+f*x])]/(d*f*Sqrt[c*d*(a+b*Csc[e+f*x])/((b*c+a*d)*(c+d*Csc[e+f*x]))])*
-    EllipticE[ArcSin[c*Cot[e+f*x]/(c+d*Csc[e+f*x])],-(b*c-a*d)/(b*c+a*d)] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  b/d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
-  (b*c-a*d)/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  g/d*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]],x] - 
-  c*g/d*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(3/2)*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  b/d*Int[(g*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] - 
-  (b*c-a*d)/d*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  b/(b*c-a*d)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
-  d/(b*c-a*d)*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  -2*Cot[e+f*x]/(f*(c+d)*Sqrt[a+b*Csc[e+f*x]]*Sqrt[-Cot[e+f*x]^2])*Sqrt[(a+b*Csc[e+f*x])/(a+b)]*
-    EllipticPi[2*d/(c+d),ArcSin[Sqrt[1-Csc[e+f*x]]/Sqrt[2]],2*b/(a+b)] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(3/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  -a*g/(b*c-a*d)*Int[Sqrt[g*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  c*g/(b*c-a*d)*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(3/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  g*Sqrt[g*Csc[e+f*x]]*Sqrt[b+a*Sin[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]*Int[1/(Sqrt[b+a*Sin[e+f*x]]*(d+c*Sin[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  -a/(b*c-a*d)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  c/(b*c-a*d)*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && (EqQ[a^2-b^2] || EqQ[c^2-d^2])
-
-
-Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  1/d*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] - 
-  c/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(5/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  -c^2*g^2/(d*(b*c-a*d))*Int[Sqrt[g*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(c+d*Csc[e+f*x]),x] + 
-  g^2/(d*(b*c-a*d))*Int[Sqrt[g*Csc[e+f*x]]*(a*c+(b*c-a*d)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^(5/2)/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  g/d*Int[(g*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] - 
-  c*g/d*Int[(g*Csc[e+f*x])^(3/2)/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*b/f*Subst[Int[1/(1-b*d*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -(b*c-a*d)/d*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
-  b/d*Int[Csc[e+f*x]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && EqQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/Sqrt[c_+d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*(a+b*Csc[e+f*x])/(d*f*Sqrt[(a+b)/(c+d)]*Cot[e+f*x])*
-    Sqrt[-(b*c-a*d)*(1-Csc[e+f*x])/((c+d)*(a+b*Csc[e+f*x]))]*Sqrt[(b*c-a*d)*(1+Csc[e+f*x])/((c-d)*(a+b*Csc[e+f*x]))]*
-    EllipticPi[b*(c+d)/(d*(a+b)),ArcSin[Sqrt[(a+b)/(c+d)]*Sqrt[c+d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]]],(a-b)*(c+d)/((a+b)*(c-d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  -2*a/(b*f)*Subst[Int[1/(2+(a*c-b*d)*x^2),x],x,Cot[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  -2*(c+d*Csc[e+f*x])/(f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cot[e+f*x])*
-    Sqrt[(b*c-a*d)*(1-Csc[e+f*x])/((a+b)*(c+d*Csc[e+f*x]))]*Sqrt[-(b*c-a*d)*(1+Csc[e+f*x])/((a-b)*(c+d*Csc[e+f*x]))]*
-    EllipticF[ArcSin[Rt[(c+d)/(a+b),2]*(Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]])],(a+b)*(c-d)/((a-b)*(c+d))] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[csc[e_.+f_.*x_]^2/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*Sqrt[c_+d_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  -a/b*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
-  1/b*Int[Csc[e+f*x]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d]
-
-
-Int[csc[e_.+f_.*x_]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]/(c_+d_.*csc[e_.+f_.*x_])^(3/2),x_Symbol] :=
-  (a-b)/(c-d)*Int[Csc[e+f*x]/(Sqrt[a+b*Csc[e+f*x]]*Sqrt[c+d*Csc[e+f*x]]),x] + 
-  (b*c-a*d)/(c-d)*Int[Csc[e+f*x]*(1+Csc[e+f*x])/(Sqrt[a+b*Csc[e+f*x]]*(c+d*Csc[e+f*x])^(3/2)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^2*g*Cot[e+f*x]/(f*Sqrt[a+b*Csc[e+f*x]]*Sqrt[a-b*Csc[e+f*x]])*
-    Subst[Int[(g*x)^(p-1)*(a+b*x)^(m-1/2)*(c+d*x)^n/Sqrt[a-b*x],x],x,Csc[e+f*x]] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[a^2-b^2] && NeQ[c^2-d^2] && (EqQ[p-1] || IntegerQ[m-1/2])
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  1/g^(m+n)*Int[(g*Csc[e+f*x])^(m+n+p)*(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && NeQ[b*c-a*d] && IntegerQ[m] && IntegerQ[n]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (g*Csc[e+f*x])^(m+p)*(c+d*Csc[e+f*x])^n/(g^m*(d+c*Sin[e+f*x])^n)*Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n+p] && IntegerQ[m]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (g*Csc[e+f*x])^p*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n/((b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n)*
-    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && EqQ[m+n+p] && Not[IntegerQ[m]]
-
-
-Int[csc[e_.+f_.*x_]^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Sqrt[d+c*Sin[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]/(Sqrt[b+a*Sin[e+f*x]]*Sqrt[c+d*Csc[e+f*x]])*
-    Int[(b+a*Sin[e+f*x])^m*(d+c*Sin[e+f*x])^n/Sin[e+f*x]^(m+n+p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && NeQ[b*c-a*d] && IntegerQ[m-1/2] && IntegerQ[n-1/2] && IntegerQ[p] && MemberQ[{-1,-2},m+n+p]
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*csc[e_.+f_.*x_])^m_*(c_+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Int[ExpandTrig[(g*csc[e+f*x])^p*(a+b*csc[e+f*x])^m*(c+d*csc[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && NeQ[b*c-a*d] && (IntegersQ[m,n] || IntegersQ[m,p] || IntegersQ[n,p])
-
-
-Int[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*csc[e_.+f_.*x_])^m_*(c_.+d_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(g*Csc[e+f*x])^p*(a+b*Csc[e+f*x])^m*(c+d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-Int[sec[e_.+f_.*x_]*(A_+B_.*sec[e_.+f_.*x_])/(Sqrt[a_+b_.*sec[e_.+f_.*x_]]*(c_+d_.*sec[e_.+f_.*x_])^(3/2)),x_Symbol] :=
-  2*A*(1+Sec[e+f*x])*Sqrt[(b*c-a*d)*(1-Sec[e+f*x])/((a+b)*(c+d*Sec[e+f*x]))]/
-    (f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Tan[e+f*x]*Sqrt[-(b*c-a*d)*(1+Sec[e+f*x])/((a-b)*(c+d*Sec[e+f*x]))])*
-    EllipticE[ArcSin[Rt[(c+d)/(a+b),2]*Sqrt[a+b*Sec[e+f*x]]/Sqrt[c+d*Sec[e+f*x]]],(a+b)*(c-d)/((a-b)*(c+d))] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B]
-
-
-Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/(Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(c_+d_.*csc[e_.+f_.*x_])^(3/2)),x_Symbol] :=
-  -2*A*(1+Csc[e+f*x])*Sqrt[(b*c-a*d)*(1-Csc[e+f*x])/((a+b)*(c+d*Csc[e+f*x]))]/
-    (f*(b*c-a*d)*Rt[(c+d)/(a+b),2]*Cot[e+f*x]*Sqrt[-(b*c-a*d)*(1+Csc[e+f*x])/((a-b)*(c+d*Csc[e+f*x]))])*
-    EllipticE[ArcSin[Rt[(c+d)/(a+b),2]*Sqrt[a+b*Csc[e+f*x]]/Sqrt[c+d*Csc[e+f*x]]],(a+b)*(c-d)/((a-b)*(c+d))] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && NeQ[b*c-a*d] && NeQ[a^2-b^2] && NeQ[c^2-d^2] && EqQ[A-B]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.3.1 (a+b sec)^m (d sec)^n (A+B sec)*)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
-  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[n*(B*a+A*b)+(B*b*n+A*a*(n+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && RationalQ[n] && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_.*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+1)) + 
-  1/(n+1)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+1)+B*b*n+(A*b+B*a)*(n+1)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && Not[RationalQ[n] && n<=-1]
-
-
-Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  B/b*Int[Csc[e+f*x],x] + (A*b-a*B)/b*Int[Csc[e+f*x]/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) /;
-FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[a*B*m+A*b*(m+1)]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
-  (a*B*m+A*b*(m+1))/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[a*B*m+A*b*(m+1)] && RationalQ[m] && m<-1/2
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  (a*B*m+A*b*(m+1))/(b*(m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] /;
-FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[a*B*m+A*b*(m+1)] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  1/(m+1)*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*Simp[b*B*m+a*A*(m+1)+(a*B*m+A*b*(m+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m>0
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[(a*A-b*B)*(m+1)-(A*b-a*B)*(m+2)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  -2*(A*b-a*B)*Rt[a+b*B/A,2]*Sqrt[b*(1-Csc[e+f*x])/(a+b)]*Sqrt[-b*(1+Csc[e+f*x])/(a-b)]/(b^2*f*Cot[e+f*x])*
-    EllipticE[ArcSin[Sqrt[a+b*Csc[e+f*x]]/Rt[a+b*B/A,2]],(a*A+b*B)/(a*A-b*B)] /;
-FreeQ[{a,b,e,f,A,B},x] && NeQ[a^2-b^2] && EqQ[A^2-B^2]
-
-
-Int[csc[e_.+f_.*x_]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  (A-B)*Int[Csc[e+f*x]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  B*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f,A,B},x] && NeQ[a^2-b^2] && NeQ[A^2-B^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  2*Sqrt[2]*A*(a+b*Csc[e+f*x])^m*(A-B*Csc[e+f*x])*Sqrt[(A+B*Csc[e+f*x])/A]/(B*f*Cot[e+f*x]*(A*(a+b*Csc[e+f*x])/(a*A+b*B))^m)*
-    AppellF1[1/2,-(1/2),-m,3/2,(A-B*Csc[e+f*x])/(2*A),(b*(A-B*Csc[e+f*x]))/(A*b+a*B)] /;
-FreeQ[{a,b,A,B,e,f},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && EqQ[A^2-B^2] && Not[IntegerQ[2*m]]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m,x] + B/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,A,B,e,f,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(b*f*(2*m+1)) + 
-  1/(b^2*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*m-a*B*m+b*B*(2*m+1)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) - 
-  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[b*(A*b-a*B)*(m+1)-(a*A*b*(m+2)-B*(a^2+b^2*(m+1)))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*B*(m+1)+(A*b*(m+2)-a*B)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,m},x] && NeQ[A*b-a*B] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) /;
-FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && EqQ[a*A*m-b*B*n]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(b*f*(2*m+1)) + 
-  (a*A*m+b*B*(m+1))/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && RationalQ[m] && m<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  (a*A*m-b*B*n)/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[m+n+1] && Not[RationalQ[m] && m<=-1]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -2*b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && EqQ[A*b*(2*n+1)+2*a*B*n]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*b^2*Cot[e+f*x]*(d*Csc[e+f*x])^n/(a*f*n*Sqrt[a+b*Csc[e+f*x]]) + 
-  (A*b*(2*n+1)+2*a*B*n)/(2*a*d*n)*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^(n+1),x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[A*b*(2*n+1)+2*a*B*n] && RationalQ[n] && n<0
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -2*b*B*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(2*n+1)*Sqrt[a+b*Csc[e+f*x]]) + 
-  (A*b*(2*n+1)+2*a*B*n)/(b*(2*n+1))*Int[Sqrt[a+b*Csc[e+f*x]]*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && NeQ[A*b*(2*n+1)+2*a*B*n] && Not[RationalQ[n] && n<0]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*n) - 
-  b/(a*d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*Simp[a*A*(m-n-1)-b*B*n-(a*B*n+A*b*(m+n))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m,n] && m>1/2 && n<-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*(m+n)) + 
-  1/(d*(m+n))*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*Simp[a*A*d*(m+n)+B*(b*d*n)+(A*b*d*(m+n)+a*B*d*(2*m+n-1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m>1/2 && Not[RationalQ[n] && n<-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  d*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(a*f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[A*(a*d*(n-1))-B*(b*d*(n-1))-d*(a*B*(m-n+1)+A*b*(m+n))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m,n] && m<-1/2 && n>0
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(b*f*(2*m+1)) - 
-  1/(a^2*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[b*B*n-a*A*(2*m+n+1)+(A*b-a*B)*(m+n+1)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2 && Not[RationalQ[n] && n>0]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
-  d/(b*(m+n))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*Simp[b*B*(n-1)+(A*b*(m+n)+a*B*m)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[n] && n>1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*B*n-A*b*(m+n+1)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2] && RationalQ[n] && n<0
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  (A*b-a*B)/b*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n,x] + 
-  B/b*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && EqQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*n) + 
-  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^(n+1)*
-    Simp[a*(a*B*n-A*b*(m-n-1))+(2*a*b*B*n+A*(b^2*n+a^2*(1+n)))*Csc[e+f*x]+b*(b*B*n+a*A*(m+n))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m>1 && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -b*B*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n/(f*(m+n)) + 
-  1/(m+n)*Int[(a+b*Csc[e+f*x])^(m-2)*(d*Csc[e+f*x])^n*
-    Simp[a^2*A*(m+n)+a*b*B*n+(a*(2*A*b+a*B)*(m+n)+b^2*B*(m+n-1))*Csc[e+f*x]+b*(A*b*(m+n)+a*B*(2*m+n-1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m>1 && 
-  Not[IntegerQ[n] && n>1 && Not[IntegerQ[m]]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -d*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(f*(m+1)*(a^2-b^2)) + 
-  1/((m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[d*(n-1)*(A*b-a*B)+d*(a*A-b*B)*(m+1)*Csc[e+f*x]-d*(A*b-a*B)*(m+n+1)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && 0<n<1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  a*d^2*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(b*f*(m+1)*(a^2-b^2)) - 
-  d/(b*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)*
-    Simp[a*d*(A*b-a*B)*(n-2)+b*d*(A*b-a*B)*(m+1)*Csc[e+f*x]-(a*A*b*d*(m+n)-d*B*(a^2*(n-1)+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  b*(A*b-a*B)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[A*(a^2*(m+1)-b^2*(m+n+1))+a*b*B*n-a*(A*b-a*B)*(m+1)*Csc[e+f*x]+b*(A*b-a*B)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)/(f*(m+n)) + 
-  d/(m+n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[a*B*(n-1)+(b*B*(m+n-1)+a*A*(m+n))*Csc[e+f*x]+(a*B*m+A*b*(m+n))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<1 && n>0
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
-    Simp[A*b*m-a*B*n-(b*B*n+a*A*(n+1))*Csc[e+f*x]-A*b*(m+n+1)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[m,n] && 0<m<1 && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  -B*d^2*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-2)/(b*f*(m+n)) + 
-  d^2/(b*(m+n))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-2)*
-    Simp[a*B*(n-2)+B*b*(m+n-1)*Csc[e+f*x]+(A*b*(m+n)-a*B*(n-1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[n] && n>1 && NeQ[m+n] && 
-  Not[IntegerQ[m] && m>1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
-  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
-    Simp[a*B*n-A*b*(m+n+1)+A*a*(n+1)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,m},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
-
-
-Int[(A_+B_.*csc[e_.+f_.*x_])/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  A/a*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] - 
-  (A*b-a*B)/(a*d)*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[d_.*csc[e_.+f_.*x_]]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  A*Int[Sqrt[d*Csc[e+f*x]]/Sqrt[a+b*Csc[e+f*x]],x] + 
-  B/d*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-Int[Sqrt[a_+b_.*csc[e_.+f_.*x_]]*(A_+B_.*csc[e_.+f_.*x_])/Sqrt[d_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  B/d*Int[Sqrt[a+b*Csc[e+f*x]]*Sqrt[d*Csc[e+f*x]],x] + 
-  A*Int[Sqrt[a+b*Csc[e+f*x]]/Sqrt[d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,A,B},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_*(A_+B_.*csc[e_.+f_.*x_])/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  A/a*Int[(d*Csc[e+f*x])^n,x] - (A*b-a*B)/(a*d)*Int[(d*Csc[e+f*x])^(n+1)/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,A,B,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_.*(A_+B_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+B*Csc[e+f*x]),x] /;
-FreeQ[{a,b,d,e,f,A,B,m,n},x] && NeQ[A*b-a*B] && NeQ[a^2-b^2]
-
-
-(* Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_])^p_.,x_Symbol] :=
-  (-a*c)^m*Int[Cot[e+f*x]^(2*m)*(c+d*Csc[e+f*x])^(n-m)*(A+B*Csc[e+f*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegerQ[m] && 
-  Not[IntegerQ[n] && (m<0 && n>0 || 0<n<m || m<n<0)] *)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_+d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_])^p_.,x_Symbol] :=
-  (-a*c)^m*Int[Cos[e+f*x]^(2*m)*(d+c*Sin[e+f*x])^(n-m)*(B+A*Sin[e+f*x])^p/Sin[e+f*x]^(m+n+p),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,n,p},x] && EqQ[b*c+a*d] && EqQ[a^2-b^2] && IntegersQ[m,n,p]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.4.1 (a+b sec)^m (A+B sec+C sec^2)*)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b^2*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[b*B-a*C+b*C*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[A*b^2-a*b*B+a^2*C]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  C/b^2*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[-a+b*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[A*b^2+a^2*C]
-
-
-Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*m) /;
-FreeQ[{b,e,f,A,C,m},x] && EqQ[C*m+A*(m+1)]
-
-
-Int[csc[e_.+f_.*x_]^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  Int[(C+A*Sin[e+f*x]^2)/Sin[e+f*x]^(m+2),x] /;
-FreeQ[{e,f,A,C},x] && NeQ[C*m+A*(m+1)] && NegativeIntegerQ[(m+1)/2]
-
-
-Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*m) + 
-  (C*m+A*(m+1))/(b^2*m)*Int[(b*Csc[e+f*x])^(m+2),x] /;
-FreeQ[{b,e,f,A,C},x] && NeQ[C*m+A*(m+1)] && RationalQ[m] && m<=-1
-
-
-Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(b*Csc[e+f*x])^m/(f*(m+1)) + 
-  (C*m+A*(m+1))/(m+1)*Int[(b*Csc[e+f*x])^m,x] /;
-FreeQ[{b,e,f,A,C,m},x] && NeQ[C*m+A*(m+1)] && Not[RationalQ[m] && m<=-1]
-
-
-Int[(b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  B/b*Int[(b*Csc[e+f*x])^(m+1),x] + Int[(b*Csc[e+f*x])^m*(A+C*Csc[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,B,C,m},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -b*C*Csc[e+f*x]*Cot[e+f*x]/(2*f) + 
-  1/2*Int[Simp[2*A*a+(2*B*a+b*(2*A+C))*Csc[e+f*x]+2*(a*C+B*b)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -b*C*Csc[e+f*x]*Cot[e+f*x]/(2*f) + 
-  1/2*Int[Simp[2*A*a+b*(2*A+C)*Csc[e+f*x]+2*a*C*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,C},x]
-
-
-Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  C/b*Int[Csc[e+f*x],x] + 1/b*Int[(A*b+(b*B-a*C)*Csc[e+f*x])/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,B,C},x]
-
-
-Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(a_+b_.*csc[e_.+f_.*x_]),x_Symbol] :=
-  C/b*Int[Csc[e+f*x],x] + 1/b*Int[(A*b-a*C*Csc[e+f*x])/(a+b*Csc[e+f*x]),x] /;
-FreeQ[{a,b,e,f,A,C},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(a*A-b*B+a*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
-  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*(2*m+1)+(b*B*(m+1)-a*(A*(m+1)-C*m))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -a*(A+C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) + 
-  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*Simp[A*b*(2*m+1)-a*(A*(m+1)-C*m)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  1/(b*(m+1))*Int[(a+b*Csc[e+f*x])^m*Simp[A*b*(m+1)+(a*C*m+b*B*(m+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  1/(b*(m+1))*Int[(a+b*Csc[e+f*x])^m*Simp[A*b*(m+1)+a*C*m*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  1/(m+1)*Int[(a+b*Csc[e+f*x])^(m-1)*
-    Simp[a*A*(m+1)+((A*b+a*B)*(m+1)+b*C*m)*Csc[e+f*x]+(b*B*(m+1)+a*C*m)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && PositiveIntegerQ[2*m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(m+1)) + 
-  1/(m+1)*Int[(a+b*Csc[e+f*x])^(m-1)*Simp[a*A*(m+1)+(A*b*(m+1)+b*C*m)*Csc[e+f*x]+a*C*m*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && PositiveIntegerQ[2*m]
-
-
-Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Int[(A+(B-C)*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + C*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/Sqrt[a_+b_.*csc[e_.+f_.*x_]],x_Symbol] :=
-  Int[(A-C*Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] + C*Int[Csc[e+f*x]*(1+Csc[e+f*x])/Sqrt[a+b*Csc[e+f*x]],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
-    Simp[A*(a^2-b^2)*(m+1)-a*(A*b-a*B+b*C)*(m+1)*Csc[e+f*x]+(A*b^2-a*b*B+a^2*C)*(m+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*
-    Simp[A*(a^2-b^2)*(m+1)-a*b*(A+C)*(m+1)*Csc[e+f*x]+(A*b^2+a^2*C)*(m+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && IntegerQ[2*m] && m<-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b*Int[(a+b*Csc[e+f*x])^m*(A*b+(b*B-a*C)*Csc[e+f*x]),x] + C/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  1/b*Int[(a+b*Csc[e+f*x])^m*(A*b-a*C*Csc[e+f*x]),x] + C/b*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1),x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && NeQ[a^2-b^2] && Not[IntegerQ[2*m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_])^m_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  b^2*Int[(b*Cos[e+f*x])^(m-2)*(C+B*Cos[e+f*x]+A*Cos[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,B,C,m},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  b^2*Int[(b*Sin[e+f*x])^(m-2)*(C+B*Sin[e+f*x]+A*Sin[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,B,C,m},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*cos[e_.+f_.*x_])^m_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  b^2*Int[(b*Cos[e+f*x])^(m-2)*(C+A*Cos[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,C,m},x] && Not[IntegerQ[m]]
-
-
-Int[(b_.*sin[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  b^2*Int[(b*Sin[e+f*x])^(m-2)*(C+A*Sin[e+f*x]^2),x] /;
-FreeQ[{b,e,f,A,C,m},x] && Not[IntegerQ[m]]
-
-
-Int[(a_.*(b_.*sec[e_.+f_.*x_])^p_)^m_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  a^IntPart[m]*(a*(b*Sec[e+f*x])^p)^FracPart[m]/(b*Sec[e+f*x])^(p*FracPart[m])*
-    Int[(b*Sec[e+f*x])^(m*p)*(A+B*Sec[e+f*x]+C*Sec[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(a_.*(b_.*csc[e_.+f_.*x_])^p_)^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  a^IntPart[m]*(a*(b*Csc[e+f*x])^p)^FracPart[m]/(b*Csc[e+f*x])^(p*FracPart[m])*
-    Int[(b*Csc[e+f*x])^(m*p)*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f,A,B,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(a_.*(b_.*sec[e_.+f_.*x_])^p_)^m_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  a^IntPart[m]*(a*(b*Sec[e+f*x])^p)^FracPart[m]/(b*Sec[e+f*x])^(p*FracPart[m])*
-    Int[(b*Sec[e+f*x])^(m*p)*(A+C*Sec[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
-
-
-Int[(a_.*(b_.*csc[e_.+f_.*x_])^p_)^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  a^IntPart[m]*(a*(b*Csc[e+f*x])^p)^FracPart[m]/(b*Csc[e+f*x])^(p*FracPart[m])*
-    Int[(b*Csc[e+f*x])^(m*p)*(A+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f,A,C,m,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.4.2 (a+b sec)^m (d sec)^n (A+B sec+C sec^2)*)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
-  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[n*(B*a+A*b)+(n*(a*C+B*b)+A*a*(n+1))*Csc[e+f*x]+b*C*n*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && RationalQ[n] && n<-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*a*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*n) + 
-  1/(d*n)*Int[(d*Csc[e+f*x])^(n+1)*Simp[A*b*n+a*(C*n+A*(n+1))*Csc[e+f*x]+b*C*n*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && RationalQ[n] && n<-1
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_.*(a_+b_.*csc[e_.+f_.*x_])*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -b*C*Csc[e+f*x]*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+2)) + 
-  1/(n+2)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+2)+(B*a*(n+2)+b*(C*(n+1)+A*(n+2)))*Csc[e+f*x]+(a*C+B*b)*(n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[RationalQ[n] && n<-1]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^n_.*(a_+b_.*csc[e_.+f_.*x_])*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -b*C*Csc[e+f*x]*Cot[e+f*x]*(d*Csc[e+f*x])^n/(f*(n+2)) + 
-  1/(n+2)*Int[(d*Csc[e+f*x])^n*Simp[A*a*(n+2)+b*(C*(n+1)+A*(n+2))*Csc[e+f*x]+a*C*(n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && Not[RationalQ[n] && n<-1]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(a*A-b*B+a*C)*Cot[e+f*x]*Csc[e+f*x]*(a+b*Csc[e+f*x])^m/(a*f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[a*B-b*C-2*A*b*(m+1)-(b*B*(m+2)-a*(A*(m+2)-C*(m-1)))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A+C)*Cot[e+f*x]*Csc[e+f*x]*(a+b*Csc[e+f*x])^m/(f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[-b*C-2*A*b*(m+1)+a*(A*(m+2)-C*(m-1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && EqQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
-  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[b*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C+b*(A*b-a*B+b*C)*(m+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+1)*(a^2-b^2)) + 
-  1/(b*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[a*b*(A+C)*(m+1)-(A*b^2+a^2*C+b*(A*b+b*C)*(m+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && RationalQ[m] && m<-1 && NeQ[a^2-b^2]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*A*(m+2)+b*C*(m+1)+(b*B*(m+2)-a*C)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && Not[RationalQ[m] && m<-1]
-
-
-Int[csc[e_.+f_.*x_]*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+2)) + 
-  1/(b*(m+2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[b*A*(m+2)+b*C*(m+1)-a*C*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -(a*A-b*B+a*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(a*f*(2*m+1)) - 
-  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[a*B*n-b*C*n-A*b*(2*m+n+1)-(b*B*(m+n+1)-a*(A*(m+n+1)-C*(m-n)))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -a*(A+C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(a*f*(2*m+1)) + 
-  1/(a*b*(2*m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[b*C*n+A*b*(2*m+n+1)-(a*(A*(m+n+1)-C*(m-n)))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && EqQ[a^2-b^2] && RationalQ[m] && m<-1/2
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*B*n-b*(A*(m+n+1)+C*n)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && (RationalQ[n] && n<-1/2 || EqQ[m+n+1])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(b*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*Simp[a*A*m-b*(A*(m+n+1)+C*n)*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,C,m},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && (RationalQ[n] && n<-1/2 || EqQ[m+n+1])
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
-  1/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*Simp[A*b*(m+n+1)+b*C*n+(a*C*m+b*B*(m+n+1))*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,m,n},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && Not[RationalQ[n] && n<-1/2] && NeQ[m+n+1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
-  1/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*Simp[A*b*(m+n+1)+b*C*n+a*C*m*Csc[e+f*x],x],x] /;
-FreeQ[{a,b,d,e,f,A,C,m,n},x] && EqQ[a^2-b^2] && Not[RationalQ[m] && m<-1/2] && Not[RationalQ[n] && n<-1/2] && NeQ[m+n+1]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  a*(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
-  1/(b^2*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[b*(m+1)*(-a*(b*B-a*C)+A*b^2)+
-      (b*B*(a^2+b^2*(m+1))-a*(A*b^2*(m+2)+C*(a^2+b^2*(m+1))))*Csc[e+f*x]-
-      b*C*(m+1)*(a^2-b^2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  a*(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b^2*f*(m+1)*(a^2-b^2)) - 
-  1/(b^2*(m+1)*(a^2-b^2))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*
-    Simp[b*(m+1)*(a^2*C+A*b^2)-a*(A*b^2*(m+2)+C*(a^2+b^2*(m+1)))*Csc[e+f*x]-b*C*(m+1)*(a^2-b^2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Csc[e+f*x]*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+3)) + 
-  1/(b*(m+3))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*
-    Simp[a*C+b*(C*(m+2)+A*(m+3))*Csc[e+f*x]-(2*a*C-b*B*(m+3))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[csc[e_.+f_.*x_]^2*(a_+b_.*csc[e_.+f_.*x_])^m_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Csc[e+f*x]*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)/(b*f*(m+3)) + 
-  1/(b*(m+3))*Int[Csc[e+f*x]*(a+b*Csc[e+f*x])^m*Simp[a*C+b*(C*(m+2)+A*(m+3))*Csc[e+f*x]-2*a*C*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,e,f,A,C,m},x] && NeQ[a^2-b^2] && Not[RationalQ[m] && m<-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
-    Simp[A*b*m-a*B*n-(b*B*n+a*(C*n+A*(n+1)))*Csc[e+f*x]-b*(C*n+A*(m+n+1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*n) - 
-  1/(d*n)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^(n+1)*
-    Simp[A*b*m-a*(C*n+A*(n+1))*Csc[e+f*x]-b*(C*n+A*(m+n+1))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m>0 && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
-  1/(m+n+1)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*
-    Simp[a*A*(m+n+1)+a*C*n+((A*b+a*B)*(m+n+1)+b*C*(m+n))*Csc[e+f*x]+(b*B*(m+n+1)+a*C*m)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[n] && n<=-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*Cot[e+f*x]*(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n/(f*(m+n+1)) + 
-  1/(m+n+1)*Int[(a+b*Csc[e+f*x])^(m-1)*(d*Csc[e+f*x])^n*
-    Simp[a*A*(m+n+1)+a*C*n+b*(A*(m+n+1)+C*(m+n))*Csc[e+f*x]+a*C*m*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m>0 && Not[RationalQ[n] && n<=-1]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -d*(A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(a^2-b^2)*(m+1)) + 
-  d/(b*(a^2-b^2)*(m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[A*b^2*(n-1)-a*(b*B-a*C)*(n-1)+
-      b*(a*A-b*B+a*C)*(m+1)*Csc[e+f*x]-
-      (b*(A*b-a*B)*(m+n+1)+C*(a^2*n+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>0
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -d*(A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(a^2-b^2)*(m+1)) + 
-  d/(b*(a^2-b^2)*(m+1))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)*
-    Simp[A*b^2*(n-1)+a^2*C*(n-1)+a*b*(A+C)*(m+1)*Csc[e+f*x]-(A*b^2*(m+n+1)+C*(a^2*n+b^2*(m+1)))*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2] && RationalQ[m,n] && m<-1 && n>0
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2-a*b*B+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[a*(a*A-b*B+a*C)*(m+1)-(A*b^2-a*b*B+a^2*C)*(m+n+1)-
-      a*(A*b-a*B+b*C)*(m+1)*Csc[e+f*x]+
-      (A*b^2-a*b*B+a^2*C)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  (A*b^2+a^2*C)*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*(m+1)*(a^2-b^2)) + 
-  1/(a*(m+1)*(a^2-b^2))*Int[(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n*
-    Simp[a^2*(A+C)*(m+1)-(A*b^2+a^2*C)*(m+n+1)-a*b*(A+C)*(m+1)*Csc[e+f*x]+(A*b^2+a^2*C)*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && NeQ[a^2-b^2] && RationalQ[m] && m<-1 && Not[NegativeIntegerQ[m+1/2,n]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(m+n+1)) + 
-  d/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*
-    Simp[a*C*(n-1)+(A*b*(m+n+1)+b*C*(m+n))*Csc[e+f*x]+(b*B*(m+n+1)-a*C*n)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>0 (* && Not[IntegerQ[m] && m>0 && Not[IntegerQ[n]]] *)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  -C*d*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^(n-1)/(b*f*(m+n+1)) + 
-  d/(b*(m+n+1))*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n-1)*
-    Simp[a*C*(n-1)+(A*b*(m+n+1)+b*C*(m+n))*Csc[e+f*x]-a*C*n*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n>0 (* && Not[IntegerQ[m] && m>0 && Not[IntegerQ[n]]] *)
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
-  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
-    Simp[a*B*n-A*b*(m+n+1)+a*(A+A*n+C*n)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,B,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_*(d_.*csc[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  A*Cot[e+f*x]*(a+b*Csc[e+f*x])^(m+1)*(d*Csc[e+f*x])^n/(a*f*n) + 
-  1/(a*d*n)*Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n+1)*
-    Simp[-A*b*(m+n+1)+a*(A+A*n+C*n)*Csc[e+f*x]+A*b*(m+n+2)*Csc[e+f*x]^2,x],x] /;
-FreeQ[{a,b,d,e,f,A,C,m},x] && NeQ[a^2-b^2] && RationalQ[n] && n<=-1
-
-
-Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  (A*b^2-a*b*B+a^2*C)/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
-  1/a^2*Int[(a*A-(A*b-a*B)*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*(a_+b_.*csc[e_.+f_.*x_])),x_Symbol] :=
-  (A*b^2+a^2*C)/(a^2*d^2)*Int[(d*Csc[e+f*x])^(3/2)/(a+b*Csc[e+f*x]),x] + 
-  1/a^2*Int[(a*A-A*b*Csc[e+f*x])/Sqrt[d*Csc[e+f*x]],x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  C/d^2*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] + 
-  Int[(A+B*Csc[e+f*x])/(Sqrt[d*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f,A,B,C},x] && NeQ[a^2-b^2]
-
-
-Int[(A_.+C_.*csc[e_.+f_.*x_]^2)/(Sqrt[d_.*csc[e_.+f_.*x_]]*Sqrt[a_+b_.*csc[e_.+f_.*x_]]),x_Symbol] :=
-  C/d^2*Int[(d*Csc[e+f*x])^(3/2)/Sqrt[a+b*Csc[e+f*x]],x] + 
-  A*Int[1/(Sqrt[d*Csc[e+f*x]]*Sqrt[a+b*Csc[e+f*x]]),x] /;
-FreeQ[{a,b,d,e,f,A,C},x] && NeQ[a^2-b^2]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,B,C,m,n},x]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*csc[e_.+f_.*x_])^n_.*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  Defer[Int][(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^n*(A+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,C,m,n},x]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(d_.*cos[e_.+f_.*x_])^n_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  d^(m+2)*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m-2)*(C+B*Cos[e+f*x]+A*Cos[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  d^(m+2)*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m-2)*(C+B*Sin[e+f*x]+A*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,B,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(d_.*cos[e_.+f_.*x_])^n_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  d^(m+2)*Int[(b+a*Cos[e+f*x])^m*(d*Cos[e+f*x])^(n-m-2)*(C+A*Cos[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(d_.*sin[e_.+f_.*x_])^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  d^(m+2)*Int[(b+a*Sin[e+f*x])^m*(d*Sin[e+f*x])^(n-m-2)*(C+A*Sin[e+f*x]^2),x] /;
-FreeQ[{a,b,d,e,f,A,C,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  c^IntPart[n]*(c*(d*Sec[e+f*x])^p)^FracPart[n]/(d*Sec[e+f*x])^(p*FracPart[n])*
-    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p)*(A+B*Sec[e+f*x]+C*Sec[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_*(A_.+B_.*csc[e_.+f_.*x_]+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  c^IntPart[n]*(c*(d*Csc[e+f*x])^p)^FracPart[n]/(d*Csc[e+f*x])^(p*FracPart[n])*
-    Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n*p)*(A+B*Csc[e+f*x]+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_])^m_.*(c_.*(d_.*sec[e_.+f_.*x_])^p_)^n_*(A_.+C_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  c^IntPart[n]*(c*(d*Sec[e+f*x])^p)^FracPart[n]/(d*Sec[e+f*x])^(p*FracPart[n])*
-    Int[(a+b*Sec[e+f*x])^m*(d*Sec[e+f*x])^(n*p)*(A+C*Sec[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[n]]
-
-
-Int[(a_+b_.*csc[e_.+f_.*x_])^m_.*(c_.*(d_.*csc[e_.+f_.*x_])^p_)^n_*(A_.+C_.*csc[e_.+f_.*x_]^2),x_Symbol] :=
-  c^IntPart[n]*(c*(d*Csc[e+f*x])^p)^FracPart[n]/(d*Csc[e+f*x])^(p*FracPart[n])*
-    Int[(a+b*Csc[e+f*x])^m*(d*Csc[e+f*x])^(n*p)*(A+C*Csc[e+f*x]^2),x] /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n,p},x] && Not[IntegerQ[n]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.7 (d trig)^m (a+b (c sec)^n)^p*)
-
-
-Int[u_.*(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  b^p*Int[ActivateTrig[u*tan[e+f*x]^(2*p)],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0] && IntegerQ[p]
-
-
-Int[u_.*(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  Int[ActivateTrig[u*(b*tan[e+f*x]^2)^p],x] /;
-FreeQ[{a,b,e,f,p},x] && EqQ[a+b,0]
-
-
-Int[(b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  b*ff/f*Subst[Int[(b+b*ff^2*x^2)^(p-1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{b,e,f,p},x] && Not[IntegerQ[p]]
-
-
-Int[(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  b^IntPart[p]*(b*(c*Sec[e+f*x])^n)^FracPart[p]/(c*Sec[e+f*x])^(n*FracPart[p])*Int[(c*Sec[e+f*x])^(n*p),x] /;
-FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(b_.*sec[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
-  b/(2*f)*Subst[Int[(-1+x)^((m-1)/2)*(b*x)^(p-1),x],x,Sec[e+f*x]^2] /;
-FreeQ[{b,e,f,p},x] && Not[IntegerQ[p]] && IntegerQ[(m-1)/2]
-
-
-Int[u_.*(b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Sec[e+f*x],x]},
-  (b*ff^n)^IntPart[p]*(b*Sec[e+f*x]^n)^FracPart[p]/(Sec[e+f*x]/ff)^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(Sec[e+f*x]/ff)^(n*p),x]] /;
-FreeQ[{b,e,f,n,p},x] && Not[IntegerQ[p]] && IntegerQ[n] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[u_.*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  b^IntPart[p]*(b*(c*Sec[e+f*x])^n)^FracPart[p]/(c*Sec[e+f*x])^(n*FracPart[p])*
-    Int[ActivateTrig[u]*(c*Sec[e+f*x])^(n*p),x] /;
-FreeQ[{b,c,e,f,n,p},x] && Not[IntegerQ[p]] && Not[IntegerQ[n]] && 
-  (EqQ[u,1] || MatchQ[u,(d_.*trig_[e+f*x])^m_. /; FreeQ[{d,m},x] && MemberQ[{sin,cos,tan,cot,sec,csc},trig]])
-
-
-Int[1/(a_+b_.*sec[e_.+f_.*x_]^2),x_Symbol] :=
-  x/a - b/a*Int[1/(b+a*Cos[e+f*x]^2),x] /;
-FreeQ[{a,b,e,f},x] && NeQ[a+b,0]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_]^2)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b+b*ff^2*x^2)^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && NeQ[a+b,0] && NeQ[p,-1]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_]^4)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b+2*b*ff^2*x^2+b*ff^4*x^4)^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[2*p]
-
-
-Int[(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(a+b*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[n/2] && IGtQ[p,-2]
-
-
-Int[(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  Defer[Int][(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,e,f,n,p},x]
-
-
-Int[sin[e_.+f_.*x_]^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff^(m+1)/f*Subst[Int[x^m*ExpandToSum[a+b*(1+ff^2*x^2)^(n/2),x]^p/(1+ff^2*x^2)^(m/2+1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && IntegerQ[n/2]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Cos[e+f*x],x]},
-  -ff/f*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(b+a*(ff*x)^n)^p/(ff*x)^(n*p),x],x,Cos[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n] && IntegerQ[p]
-
-
-Int[sin[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Cos[e+f*x],x]},
-  1/(f*ff^m)*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p/x^(m+1),x],x,Sec[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (m>0 || EqQ[n,2] || EqQ[n,4])
-
-
-Int[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Sin[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*sec[e_.+f_.*x_]^n_.)^p_.,x_Symbol] :=
-  d^(n*p)*Int[(d*Cos[e+f*x])^(m-n*p)*(b+a*Cos[e+f*x]^n)^p,x] /;
-FreeQ[{a,b,d,e,f,m,n,p},x] && Not[IntegerQ[m]] && IntegersQ[n,p]
-
-
-Int[(d_.*cos[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Cos[e+f*x])^FracPart[m]*(Sec[e+f*x]/d)^FracPart[m]*Int[(Sec[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  Module[{ff=FreeFactors[Cos[e+f*x],x]},
-  -1/(f*ff^(m+n*p-1))*Subst[Int[(1-ff^2*x^2)^((m-1)/2)*(b+a*(ff*x)^n)^p/x^(m+n*p),x],x,Cos[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,n},x] && IntegerQ[(m-1)/2] && IntegerQ[n] && IntegerQ[p]
-
-
-Int[tan[e_.+f_.*x_]^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Sec[e+f*x],x]},
-  1/f*Subst[Int[(-1+ff^2*x^2)^((m-1)/2)*(a+b*(c*ff*x)^n)^p/x,x],x,Sec[e+f*x]/ff]] /;
-FreeQ[{a,b,c,e,f,n,p},x] && IntegerQ[(m-1)/2] && (m>0 || EqQ[n,2] || EqQ[n,4] || IGtQ[p,0] || IntegersQ[2*n,p])
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*sec[e_.+f_.*x_]^2)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  b*ff/f*Subst[Int[(d*ff*x)^m*(b+b*ff^2*x^2)^(p-1),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{b,e,f,m,p},x]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_.,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(d*ff*x)^m*(a+b*(1+ff^2*x^2)^(n/2))^p/(1+ff^2*x^2),x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,m,p},x] && IntegerQ[n/2] && (IntegerQ[m/2] || EqQ[n,2])
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  d*(d*Tan[e+f*x])^(m-1)*(b*(c*Sec[e+f*x])^n)^p/(f*(p*n+m-1)) - 
-  d^2*(m-1)/(p*n+m-1)*Int[(d*Tan[e+f*x])^(m-2)*(b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{b,d,c,e,f,p,n},x] && GtQ[m,1] && NeQ[p*n+m-1,0] && IntegersQ[2*p*n,2*m]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_*(b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  (d*Tan[e+f*x])^(m+1)*(b*(c*Sec[e+f*x])^n)^p/(d*f*(m+1)) - 
-  (p*n+m+1)/(d^2*(m+1))*Int[(d*Tan[e+f*x])^(m+2)*(b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{b,d,c,e,f,p,n},x] && LtQ[m,-1] && NeQ[p*n+m+1,0] && IntegersQ[2*p*n,2*m]
-
-
-Int[(d_.*tan[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Tan[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*cot[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Cot[e+f*x])^FracPart[m]*(Tan[e+f*x]/d)^FracPart[m]*Int[(Tan[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-Int[sec[e_.+f_.*x_]^m_*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Tan[e+f*x],x]},
-  ff/f*Subst[Int[(1+ff^2*x^2)^(m/2-1)*ExpandToSum[a+b*(1+ff^2*x^2)^(n/2),x]^p,x],x,Tan[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[m/2] && IntegerQ[n/2]
-
-
-Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[ExpandToSum[b+a*(1-ff^2*x^2)^(n/2),x]^p/(1-ff^2*x^2)^((m+n*p+1)/2),x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && IntegerQ[p]
-
-
-Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  With[{ff=FreeFactors[Sin[e+f*x],x]},
-  ff/f*Subst[Int[(a+b/(1-ff^2*x^2)^(n/2))^p/(1-ff^2*x^2)^((m+1)/2),x],x,Sin[e+f*x]/ff]] /;
-FreeQ[{a,b,e,f,p},x] && IntegerQ[(m-1)/2] && IntegerQ[n/2] && Not[IntegerQ[p]]
-
-
-Int[sec[e_.+f_.*x_]^m_.*(a_+b_.*sec[e_.+f_.*x_]^n_)^p_,x_Symbol] :=
-  Int[ExpandTrig[sec[e+f*x]^m*(a+b*sec[e+f*x]^n)^p,x],x] /;
-FreeQ[{a,b,e,f},x] && IntegersQ[m,n,p]
-
-
-Int[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_.,x_Symbol] :=
-  Defer[Int][(d*Sec[e+f*x])^m*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(d_.*csc[e_.+f_.*x_])^m_*(a_+b_.*(c_.*sec[e_.+f_.*x_])^n_)^p_,x_Symbol] :=
-  (d*Csc[e+f*x])^FracPart[m]*(Sin[e+f*x]/d)^FracPart[m]*Int[(Sin[e+f*x]/d)^(-m)*(a+b*(c*Sec[e+f*x])^n)^p,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[IntegerQ[m]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.9 trig^m (a+b sec^n+c sec^(2 n))^p*)
-
-
-Int[(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sec[d+e*x]^n+c*Sec[d+e*x]^(2*n))^p/(b+2*c*Sec[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Csc[d+e*x]^n+c*Csc[d+e*x]^(2*n))^p/(b+2*c*Csc[d+e*x]^n)^(2*p)*Int[u*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[1/(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Sec[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Sec[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[1/(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  2*c/q*Int[1/(b-q+2*c*Csc[d+e*x]^n),x] - 
-  2*c/q*Int[1/(b+q+2*c*Csc[d+e*x]^n),x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && NeQ[b^2-4*a*c]
-
-
-Int[sin[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cos[d+e*x],x]},
-  -f/e*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(b+a*(f*x)^n)^p/(f*x)^(n*p),x],x,Cos[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && IntegersQ[n,p]
-
-
-Int[cos[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Sin[d+e*x],x]},
-  f/e*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(b+a*(f*x)^n)^p/(f*x)^(n*p),x],x,Sin[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && OddQ[m] && IntegersQ[n,p]
-
-
-Int[sin[d_.+e_.*x_]^m_*(a_.+b_.*sec[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(m/2+1),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
-
-
-Int[cos[d_.+e_.*x_]^m_*(a_.+b_.*csc[d_.+e_.*x_]^n_+c_.*csc[d_.+e_.*x_]^n2_)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2)^(m/2+1),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
-
-
-Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Sec[d+e*x]^m*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  1/(4^p*c^p)*Int[Csc[d+e*x]^m*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Sec[d+e*x]^n+c*Sec[d+e*x]^(2*n))^p/(b+2*c*Sec[d+e*x]^n)^(2*p)*Int[Sec[d+e*x]^m*(b+2*c*Sec[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  (a+b*Csc[d+e*x]^n+c*Csc[d+e*x]^(2*n))^p/(b+2*c*Csc[d+e*x]^n)^(2*p)*Int[Csc[d+e*x]^m*(b+2*c*Csc[d+e*x]^n)^(2*p),x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]]
-
-
-Int[sec[d_.+e_.*x_]^m_.*(a_.+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  Int[ExpandTrig[sec[d+e*x]^m*(a+b*sec[d+e*x]^n+c*sec[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && IntegersQ[m,n,p]
-
-
-Int[csc[d_.+e_.*x_]^m_.*(a_.+b_.*csc[d_.+e_.*x_]^n_.+c_.*csc[d_.+e_.*x_]^n2_.)^p_,x_Symbol] :=
-  Int[ExpandTrig[csc[d+e*x]^m*(a+b*csc[d+e*x]^n+c*csc[d+e*x]^(2*n))^p,x],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && IntegersQ[m,n,p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*sec[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cos[d+e*x],x]},
-  -1/(e*f^(m+n*p-1))*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(c+b*(f*x)^n+c*(f*x)^(2*n))^p/x^(m+2*n*p),x],x,Cos[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && OddQ[m] && IntegerQ[n] && IntegerQ[p]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*csc[d_.+e_.*x_]^n_.+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Sin[d+e*x],x]},
-  1/(e*f^(m+n*p-1))*Subst[Int[(1-f^2*x^2)^((m-1)/2)*(c+b*(f*x)^n+c*(f*x)^(2*n))^p/x^(m+2*n*p),x],x,Sin[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[n2-2*n] && OddQ[m] && IntegerQ[n] && IntegerQ[p]
-
-
-Int[tan[d_.+e_.*x_]^m_.*(a_+b_.*sec[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Tan[d+e*x],x]},
-  f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2),x],x,Tan[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
-
-
-Int[cot[d_.+e_.*x_]^m_.*(a_+b_.*csc[d_.+e_.*x_]^n_+c_.*sec[d_.+e_.*x_]^n2_.)^p_.,x_Symbol] :=
-  Module[{f=FreeFactors[Cot[d+e*x],x]},
-  -f^(m+1)/e*Subst[Int[x^m*ExpandToSum[a+b*(1+f^2*x^2)^(n/2)+c*(1+f^2*x^2)^n,x]^p/(1+f^2*x^2),x],x,Cot[d+e*x]/f]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[n2-2*n] && EvenQ[m] && EvenQ[n]
-
-
-Int[(A_+B_.*sec[d_.+e_.*x_])*(a_+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Sec[d+e*x])*(b+2*c*Sec[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*csc[d_.+e_.*x_])*(a_+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  1/(4^n*c^n)*Int[(A+B*Csc[d+e*x])*(b+2*c*Csc[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*sec[d_.+e_.*x_])*(a_+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Sec[d+e*x]+c*Sec[d+e*x]^2)^n/(b+2*c*Sec[d+e*x])^(2*n)*Int[(A+B*Sec[d+e*x])*(b+2*c*Sec[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*csc[d_.+e_.*x_])*(a_+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  (a+b*Csc[d+e*x]+c*Csc[d+e*x]^2)^n/(b+2*c*Csc[d+e*x])^(2*n)*Int[(A+B*Csc[d+e*x])*(b+2*c*Csc[d+e*x])^(2*n),x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && EqQ[b^2-4*a*c] && Not[IntegerQ[n]]
-
-
-Int[(A_+B_.*sec[d_.+e_.*x_])/(a_.+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Sec[d+e*x]),x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Sec[d+e*x]),x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*csc[d_.+e_.*x_])/(a_.+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2),x_Symbol] :=
-  Module[{q=Rt[b^2-4*a*c,2]},
-  (B+(b*B-2*A*c)/q)*Int[1/(b+q+2*c*Csc[d+e*x]),x] + 
-  (B-(b*B-2*A*c)/q)*Int[1/(b-q+2*c*Csc[d+e*x]),x]] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c]
-
-
-Int[(A_+B_.*sec[d_.+e_.*x_])*(a_.+b_.*sec[d_.+e_.*x_]+c_.*sec[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*sec[d+e*x])*(a+b*sec[d+e*x]+c*sec[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-Int[(A_+B_.*csc[d_.+e_.*x_])*(a_.+b_.*csc[d_.+e_.*x_]+c_.*csc[d_.+e_.*x_]^2)^n_,x_Symbol] :=
-  Int[ExpandTrig[(A+B*csc[d+e*x])*(a+b*csc[d+e*x]+c*csc[d+e*x]^2)^n,x],x] /;
-FreeQ[{a,b,c,d,e,A,B},x] && NeQ[b^2-4*a*c] && IntegerQ[n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.10 (c+d x)^m (a+b sec)^n*)
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+k_.*Pi+f_.*Complex[0,fz_]*x_],x_Symbol] :=
-  -2*(c+d*x)^m*ArcTanh[E^(-I*k*Pi)*E^(-I*e+f*fz*x)]/(f*fz*I) - 
-  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1-E^(-I*k*Pi)*E^(-I*e+f*fz*x)],x] + 
-  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1+E^(-I*k*Pi)*E^(-I*e+f*fz*x)],x] /;
-FreeQ[{c,d,e,f,fz},x] && IntegerQ[2*k] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+k_.*Pi+f_.*x_],x_Symbol] :=
-  -2*(c+d*x)^m*ArcTanh[E^(I*k*Pi)*E^(I*(e+f*x))]/f - 
-  d*m/f*Int[(c+d*x)^(m-1)*Log[1-E^(I*k*Pi)*E^(I*(e+f*x))],x] + 
-  d*m/f*Int[(c+d*x)^(m-1)*Log[1+E^(I*k*Pi)*E^(I*(e+f*x))],x] /;
-FreeQ[{c,d,e,f},x] && IntegerQ[2*k] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*Complex[0,fz_]*x_],x_Symbol] :=
-  -2*(c+d*x)^m*ArcTanh[E^(-I*e+f*fz*x)]/(f*fz*I) - 
-  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1-E^(-I*e+f*fz*x)],x] + 
-  d*m/(f*fz*I)*Int[(c+d*x)^(m-1)*Log[1+E^(-I*e+f*fz*x)],x] /;
-FreeQ[{c,d,e,f,fz},x] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_],x_Symbol] :=
-  -2*(c+d*x)^m*ArcTanh[E^(I*(e+f*x))]/f - 
-  d*m/f*Int[(c+d*x)^(m-1)*Log[1-E^(I*(e+f*x))],x] + 
-  d*m/f*Int[(c+d*x)^(m-1)*Log[1+E^(I*(e+f*x))],x] /;
-FreeQ[{c,d,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_]^2,x_Symbol] :=
-  -(c+d*x)^m*Cot[e+f*x]/f + 
-  d*m/f*Int[(c+d*x)^(m-1)*Cot[e+f*x],x] /;
-FreeQ[{c,d,e,f},x] && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*(c+d*x)*Cot[e+f*x]*(b*Csc[e+f*x])^(n-2)/(f*(n-1)) - 
-  b^2*d*(b*Csc[e+f*x])^(n-2)/(f^2*(n-1)*(n-2)) + 
-  b^2*(n-2)/(n-1)*Int[(c+d*x)*(b*Csc[e+f*x])^(n-2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n>1 && n!=2
-
-
-Int[(c_.+d_.*x_)^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  -b^2*(c+d*x)^m*Cot[e+f*x]*(b*Csc[e+f*x])^(n-2)/(f*(n-1)) - 
-  b^2*d*m*(c+d*x)^(m-1)*(b*Csc[e+f*x])^(n-2)/(f^2*(n-1)*(n-2)) + 
-  b^2*(n-2)/(n-1)*Int[(c+d*x)^m*(b*Csc[e+f*x])^(n-2),x] + 
-  b^2*d^2*m*(m-1)/(f^2*(n-1)*(n-2))*Int[(c+d*x)^(m-2)*(b*Csc[e+f*x])^(n-2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n>1 && n!=2 && m>1
-
-
-Int[(c_.+d_.*x_)*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*(b*Csc[e+f*x])^n/(f^2*n^2) + 
-  (c+d*x)*Cos[e+f*x]*(b*Csc[e+f*x])^(n+1)/(b*f*n) + 
-  (n+1)/(b^2*n)*Int[(c+d*x)*(b*Csc[e+f*x])^(n+2),x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[n] && n<-1
-
-
-Int[(c_.+d_.*x_)^m_*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  d*m*(c+d*x)^(m-1)*(b*Csc[e+f*x])^n/(f^2*n^2) + 
-  (c+d*x)^m*Cos[e+f*x]*(b*Csc[e+f*x])^(n+1)/(b*f*n) + 
-  (n+1)/(b^2*n)*Int[(c+d*x)^m*(b*Csc[e+f*x])^(n+2),x] - 
-  d^2*m*(m-1)/(f^2*n^2)*Int[(c+d*x)^(m-2)*(b*Csc[e+f*x])^n,x] /;
-FreeQ[{b,c,d,e,f},x] && RationalQ[m,n] && n<-1 && m>1
-
-
-Int[(c_.+d_.*x_)^m_.*(b_.*csc[e_.+f_.*x_])^n_,x_Symbol] :=
-  (b*Sin[e+f*x])^n*(b*Csc[e+f*x])^n*Int[(c+d*x)^m/(b*Sin[e+f*x])^n,x] /;
-FreeQ[{b,c,d,e,f,m,n},x] && Not[IntegerQ[n]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,(a+b*Csc[e+f*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[m,n]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(c+d*x)^m,Sin[e+f*x]^(-n)/(b+a*Sin[e+f*x])^(-n),x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NegativeIntegerQ[n] && PositiveIntegerQ[m]
-
-
-Int[(c_.+d_.*x_)^m_.*csc[e_.+f_.*x_]^n_.,x_Symbol] :=
-  If[MatchQ[f,f1_.*Complex[0,j_]],
-    If[MatchQ[e,e1_.+Pi/2],
-      Defer[Int][(c+d*x)^m*Sech[I*(e-Pi/2)+I*f*x]^n,x],
-    (-I)^n*Defer[Int][(c+d*x)^m*Csch[-I*e-I*f*x]^n,x]],
-  If[MatchQ[e,e1_.+Pi/2],
-    Defer[Int][(c+d*x)^m*Sec[e-Pi/2+f*x]^n,x],
-  Defer[Int][(c+d*x)^m*Csc[e+f*x]^n,x]]] /;
-FreeQ[{c,d,e,f,m,n},x] && IntegerQ[n]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*csc[e_.+f_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(c+d*x)^m*(a+b*Csc[e+f*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[u_^m_.*(a_.+b_.*Sec[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Sec[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*(a_.+b_.*Csc[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Csc[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3.11 (e x)^m (a+b sec(c+d x^n))^p*)
-
-
-Int[(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Sec[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Csc[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Sec[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Csc[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Sec[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sec[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Csc[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Csc[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Sec[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Sec[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Csc[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Csc[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sec[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Csc[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Sec[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Csc[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sec[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sec[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Csc[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Csc[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sec[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Sec[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Csc[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Csc[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sec[a_.+b_.*x_^n_.]^p_*Sin[a_.+b_.*x_^n_.],x_Symbol] :=
-  x^(m-n+1)*Sec[a+b*x^n]^(p-1)/(b*n*(p-1)) -
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Sec[a+b*x^n]^(p-1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
-
-
-Int[x_^m_.*Csc[a_.+b_.*x_^n_.]^p_*Cos[a_.+b_.*x_^n_.],x_Symbol] :=
-  -x^(m-n+1)*Csc[a+b*x^n]^(p-1)/(b*n*(p-1)) +
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Csc[a+b*x^n]^(p-1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
-
-
-
-`)
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_])^p_.,x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x])^p /;
+FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*3.4.1 (a+b sec)^m (A+B sec+C sec^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (A+B Sec[e+f x]+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (A+B Csc[e+Pi/2+f x]+C Csc[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(A+B*csc[e+Pi/2+f*x]+C*csc[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,e,f,A,B,C,m},x]
+
+
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (A+B Sec[e+f x]+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (A+C Csc[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(A_.+C_.*sec[e_.+f_.*x_]^2),x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(A+C*csc[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,e,f,A,C,m},x]
+
+
+(* ::Subsubsection::Closed:: *)
+(*3.4.2 (a+b sec)^m (d sec)^n (A+B sec+C sec^2)*)
+
+
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+B Sec[e+f x]+C Sec[e+f x]^2) == *)
+(*		(a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x]+C Csc[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x]+C*csc[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,d,e,f,A,B,C,m,n},x]
+
+
+(* ::Text:: *)
+(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+C Csc[e+Pi/2+f x]^2)*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+C_.*sec[e_.+f_.*x_]^2),x_] :=
+  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+C*csc[e+Pi/2+f*x]^2) /;
+FreeQ[{a,b,d,e,f,A,C,m,n},x]
+
+
+UnifyInertTrigFunction[u_,x_] := u
+
+
+(* ::Subsubsection::Closed:: *)
+(*3.7 (d trig)^m (a+b (c sec)^n)^p*)
+
+
+(* ::Text:: *)
+(*(a+b (c Csc[e+f x])^n)^p == (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_,x_] :=
+  (a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cos[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*sin[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sin[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cos[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Cot[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*tan[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Tan[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*cot[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Csc[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (-d*sec[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[n,2] && EqQ[p,1]] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Text:: *)
+(*(d Sec[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
+
+
+UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
+  (d*csc[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
+FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
+
+
+(* ::Subsection::Closed:: *)
+(*KnownTrigIntegrandQ[u,x]*)
+
+
+KnownSineIntegrandQ[u_,x_Symbol] :=
+  KnownTrigIntegrandQ[{sin,cos},u,x]
+
+
+KnownTangentIntegrandQ[u_,x_Symbol] :=
+  KnownTrigIntegrandQ[{tan},u,x]
+
+
+KnownCotangentIntegrandQ[u_,x_Symbol] :=
+  KnownTrigIntegrandQ[{cot},u,x]
+
+
+KnownSecantIntegrandQ[u_,x_Symbol] :=
+  KnownTrigIntegrandQ[{sec,csc},u,x]
+
+
+KnownTrigIntegrandQ[list_,u_,x_Symbol] :=
+  u===1 || 
+  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_. /; MemberQ[list,func] && FreeQ[{a,b,e,f,m},x]] || 
+  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+B_.*func_[e_.+f_.*x]) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,B,m},x]] || 
+  MatchQ[u,(A_.+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{e,f,A,C},x]] || 
+  MatchQ[u,(A_.+B_.*func_[e_.+f_.*x]+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{e,f,A,B,C},x]] || 
+  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,C,m},x]] || 
+  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+B_.*func_[e_.+f_.*x]+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,B,C,m},x]]
+
+
+(* ::Section::Closed:: *)
+(*Derivative divides function*)
+
+
+(* If the derivative of u wrt x is a constant wrt x, PiecewiseLinearQ[u,x] returns True;
+	else it returns False. *)
+PiecewiseLinearQ[u_,v_,x_Symbol] :=
+  PiecewiseLinearQ[u,x] && PiecewiseLinearQ[v,x]
+
+PiecewiseLinearQ[u_,x_Symbol] :=
+  LinearQ[u,x] (* && Not[MonomialQ[u,x]] *) || 
+  MatchQ[u,Log[c_.*F_^(v_)] /; FreeQ[{F,c},x] && LinearQ[v,x]] || 
+  MatchQ[u,F_[G_[v_]] /; LinearQ[v,x] && MemberQ[{
+	{ArcTanh,Tanh},{ArcTanh,Coth},{ArcCoth,Coth},{ArcCoth,Tanh},
+	{ArcTan,Tan},{ArcTan,Cot},{ArcCot,Cot},{ArcCot,Tan}
+   },{F,G}]]
+
+
+(* If u divided by y is free of x, Divides[y,u,x] returns the quotient; else it returns False. *)
+Divides[y_,u_,x_Symbol] :=
+  With[{v=Simplify[u/y]},
+  If[FreeQ[v,x],
+    v,
+  False]]
+
+
+(* If y not equal to x, y is easy to differentiate wrt x, and u divided by the derivative of y 
+  is free of x, DerivativeDivides[y,u,x] returns the quotient; else it returns False. *)
+DerivativeDivides[y_,u_,x_Symbol] :=
+  If[MatchQ[y,a_.*x /; FreeQ[a,x]],
+    False,
+  If[If[PolynomialQ[y,x], PolynomialQ[u,x] && Exponent[u,x]==Exponent[y,x]-1, EasyDQ[y,x]],
+    Module[{v=Block[{ShowSteps=False}, D[y,x]]},
+    If[EqQ[v,0],
+      False,
+    v=Simplify[u/v];
+    If[FreeQ[v,x],
+      v,
+    False]]],
+  False]]
+
+
+(* If u is easy to differentiate wrt x, EasyDQ[u,x] returns True; else it returns False. *)
+EasyDQ[u_.*x_^m_.,x_Symbol] :=
+  EasyDQ[u,x] /;
+FreeQ[m,x]
+
+EasyDQ[u_,x_Symbol] :=
+  If[AtomQ[u] || FreeQ[u,x] || Length[u]==0,
+    True,
+  If[CalculusQ[u],
+    False,
+  If[Length[u]==1,
+    EasyDQ[u[[1]],x],
+  If[BinomialQ[u,x] || ProductOfLinearPowersQ[u,x],
+    True,
+  If[RationalFunctionQ[u,x] && RationalFunctionExponents[u,x]==={1,1},
+    True,
+  If[ProductQ[u],
+    If[FreeQ[First[u],x],
+      EasyDQ[Rest[u],x],
+    If[FreeQ[Rest[u],x],
+      EasyDQ[First[u],x],
+    False]],
+  If[SumQ[u],
+    EasyDQ[First[u],x] && EasyDQ[Rest[u],x],
+  If[Length[u]==2,
+    If[FreeQ[u[[1]],x],
+      EasyDQ[u[[2]],x],
+    If[FreeQ[u[[2]],x],
+      EasyDQ[u[[1]],x],
+    False]],
+  False]]]]]]]]
+
+
+(* ProductOfLinearPowersQ[u,x] returns True iff u is a product of factors of the form v^n where v is linear in x. *)
+ProductOfLinearPowersQ[u_,x_Symbol] :=
+  FreeQ[u,x] ||
+  MatchQ[u, v_^n_. /; LinearQ[v,x] && FreeQ[n,x]] || 
+  ProductQ[u] && ProductOfLinearPowersQ[First[u],x] && ProductOfLinearPowersQ[Rest[u],x]
+
+
+(* ::Section::Closed:: *)
+(*Simplest nth root function*)
+
+
+(* ::Subsection::Closed:: *)
+(*Rt[u,n]*)
+
+
+(* Rt[u,n] returns the simplest nth root of u. *)
+Rt[u_,n_Integer] :=
+  RtAux[TogetherSimplify[u],n]
+
+
+(* ::Subsection::Closed:: *)
+(*NthRoot[u,n]*)
+
+
+NthRoot[u_,n_] := u^(1/n)
+
+
+(* ::Subsection::Closed:: *)
+(*TrigSquare[u]*)
+
+
+(* If u is an expression of the form a-a*Sin[z]^2 or a-a*Cos[z]^2, TrigSquare[u] returns Cos[z]^2 or Sin[z]^2 respectively, else it returns False. *)
+TrigSquare[u_] :=
+  If[SumQ[u],
+    With[{lst=SplitSum[Function[SplitProduct[TrigSquareQ,#]],u]},
+    If[Not[AtomQ[lst]] && EqQ[lst[[1,2]]+lst[[2]],0],
+      If[Head[lst[[1,1]][[1]]]===Sin,
+        lst[[2]]*Cos[lst[[1,1]][[1,1]]]^2,
+      lst[[2]]*Sin[lst[[1,1]][[1,1]]]^2],
+    False]],
+  False]
+
+
+(* ::Section::Closed:: *)
+(*Simplest nth root helper functions*)
+
+
+(* ::Subsection::Closed:: *)
+(*RtAux[u,n]*)
+
+
+RtAux[u_,n_] :=
+  If[PowerQ[u],
+    u[[1]]^(u[[2]]/n),
+  If[ProductQ[u],
+    Module[{lst},
+    lst=SplitProduct[PositiveQ,u];
+    If[ListQ[lst],
+      RtAux[lst[[1]],n]*RtAux[lst[[2]],n],
+    lst=SplitProduct[NegativeQ,u];
+    If[ListQ[lst],
+      If[EqQ[lst[[1]],-1],
+        With[{v=lst[[2]]},
+        If[PowerQ[v] && NegativeQ[v[[2]]],
+          1/RtAux[-v[[1]]^(-v[[2]]),n],
+        If[ProductQ[v],
+          If[ListQ[SplitProduct[SumBaseQ,v]],
+            lst=SplitProduct[AllNegTermQ,v];
+            If[ListQ[lst],
+              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
+            lst=SplitProduct[NegSumBaseQ,v];
+            If[ListQ[lst],
+              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
+            lst=SplitProduct[SomeNegTermQ,v];
+            If[ListQ[lst],
+              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
+            lst=SplitProduct[SumBaseQ,v];
+            RtAux[-lst[[1]],n]*RtAux[lst[[2]],n]]]],
+          lst=SplitProduct[AtomBaseQ,v];
+          If[ListQ[lst],
+            RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
+          RtAux[-First[v],n]*RtAux[Rest[v],n]]],
+        If[OddQ[n],
+          -RtAux[v,n],
+        NthRoot[u,n]]]]],
+      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n]],
+    lst=SplitProduct[AllNegTermQ,u];
+    If[ListQ[lst] && ListQ[SplitProduct[SumBaseQ,lst[[2]]]],
+      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n],
+    lst=SplitProduct[NegSumBaseQ,u];
+    If[ListQ[lst] && ListQ[SplitProduct[NegSumBaseQ,lst[[2]]]],
+      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n],
+    Map[Function[RtAux[#,n]],u]]]]]],
+  With[{v=TrigSquare[u]},
+  If[Not[AtomQ[v]],
+    RtAux[v,n],
+  If[OddQ[n] && NegativeQ[u],
+    -RtAux[-u,n],
+  If[ComplexNumberQ[u],
+    With[{a=Re[u],b=Im[u]},
+    If[Not[IntegerQ[a] && IntegerQ[b]] && IntegerQ[a/(a^2+b^2)] && IntegerQ[b/(a^2+b^2)],
+(* Basis: a+b*I==1/(a/(a^2+b^2)-b/(a^2+b^2)*I) *)
+      1/RtAux[a/(a^2+b^2)-b/(a^2+b^2)*I,n],
+    NthRoot[u,n]]],
+  If[OddQ[n] && NegQ[u] && PosQ[-u],
+    -RtAux[-u,n],
+  NthRoot[u,n]]]]]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*Factor base predicates*)
+
+
+(* If u is an atom or an atom raised to an odd degree, AtomBaseQ[u] returns True; else it returns False. *)
+AtomBaseQ[u_] :=
+  AtomQ[u] || PowerQ[u] && OddQ[u[[2]]] && AtomBaseQ[u[[1]]]
+
+
+(* If u is an sum or a sum raised to an odd degree, SumBaseQ[u] returns True; else it returns False. *)
+SumBaseQ[u_] :=
+  SumQ[u] || PowerQ[u] && OddQ[u[[2]]] && SumBaseQ[u[[1]]]
+
+
+(* If u is a sum or a sum raised to an odd degree whose lead term has a negative form, NegSumBaseQ[u] returns True; else it returns False. *)
+NegSumBaseQ[u_] :=
+  SumQ[u] && NegQ[First[u]] || PowerQ[u] && OddQ[u[[2]]] && NegSumBaseQ[u[[1]]]
+
+
+(* If all terms of u have a negative form, AllNegTermQ[u] returns True; else it returns False. *)
+AllNegTermQ[u_] :=
+  If[PowerQ[u] && OddQ[u[[2]]],
+    AllNegTermQ[u[[1]]],
+  If[SumQ[u],
+    NegQ[First[u]] && AllNegTermQ[Rest[u]],
+  NegQ[u]]]
+
+
+(* If some term of u has a negative form, SomeNegTermQ[u] returns True; else it returns False. *)
+SomeNegTermQ[u_] :=
+  If[PowerQ[u] && OddQ[u[[2]]],
+    SomeNegTermQ[u[[1]]],
+  If[SumQ[u],
+    NegQ[First[u]] || SomeNegTermQ[Rest[u]],
+  NegQ[u]]]
+
+
+(* ::Subsection::Closed:: *)
+(*TrigSquareQ[u]*)
+
+
+(* If u is an expression of the form Sin[z]^2 or Cos[z]^2, TrigSquareQ[u] returns True, else it returns False. *)
+TrigSquareQ[u_] :=
+  PowerQ[u] && EqQ[u[[2]],2] && MemberQ[{Sin,Cos},Head[u[[1]]]]
+
+
+(* ::Subsection::Closed:: *)
+(*SplitProduct[func,u]*)
+
+
+(* If func[v] is True for a factor v of u, SplitProduct[func,u] returns {v, u/v} where v is the first such factor; else it returns False. *)
+SplitProduct[func_,u_] :=
+  If[ProductQ[u],
+    If[func[First[u]],
+      {First[u], Rest[u]},
+    With[{lst=SplitProduct[func,Rest[u]]},
+    If[AtomQ[lst],
+      False,
+    {lst[[1]],First[u]*lst[[2]]}]]],
+  If[func[u],
+    {u, 1},
+  False]]
+
+
+(* ::Subsection::Closed:: *)
+(*SplitSum[func,u]*)
+
+
+(* If func[v] is nonatomic for a term v of u, SplitSum[func,u] returns {func[v], u-v} where v is the first such term; else it returns False. *)
+SplitSum[func_,u_] :=
+  If[SumQ[u],
+    If[Not[AtomQ[func[First[u]]]],
+      {func[First[u]], Rest[u]},
+    With[{lst=SplitSum[func,Rest[u]]},
+    If[AtomQ[lst],
+      False,
+    {lst[[1]],First[u]+lst[[2]]}]]],
+  If[Not[AtomQ[func[u]]],
+    {func[u], 0},
+  False]]
+
+
+(* ::Section::Closed:: *)
+(*IntSum*)
+
+
+(* If u is free of x or of the form c*(a+b*x)^m, IntSum[u,x] returns the antiderivative of u wrt x; 
+	else it returns d*Int[v,x] where d*v=u and d is free of x. *)
+IntSum[u_,x_Symbol] :=
+  Simp[FreeTerms[u,x]*x,x] + IntTerm[NonfreeTerms[u,x],x]
+
+
+(* If u is of the form c*(a+b*x)^m, IntTerm[u,x] returns the antiderivative of u wrt x; 
+	else it returns d*Int[v,x] where d*v=u and d is free of x. *)
+IntTerm[c_./v_,x_Symbol] :=
+  Simp[c*Log[RemoveContent[v,x]]/Coefficient[v,x,1],x] /;
+FreeQ[c,x] && LinearQ[v,x]
+
+IntTerm[c_.*v_^m_.,x_Symbol] :=
+  Simp[c*v^(m+1)/(Coefficient[v,x,1]*(m+1)),x] /;
+FreeQ[{c,m},x] && NeQ[m,-1] && LinearQ[v,x]
+
+IntTerm[u_,x_Symbol] :=
+  Map[Function[IntTerm[#,x]],u] /;
+SumQ[u]
+
+IntTerm[u_,x_Symbol] :=
+  Dist[FreeFactors[u,x], Int[NonfreeFactors[u,x],x], x]
+
+
+(* ::Section::Closed:: *)
+(*Fix integration rules functions*)
+
 
-func resourcesRubi43SecantMBytes() ([]byte, error) {
-	return _resourcesRubi43SecantM, nil
-}
+(* ::Subsection::Closed:: *)
+(*RuleName[name]*)
 
-func resourcesRubi43SecantM() (*asset, error) {
-	bytes, err := resourcesRubi43SecantMBytes()
-	if err != nil {
-		return nil, err
-	}
 
-	info := bindataFileInfo{name: "resources/rubi/4.3 Secant.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+$RuleNameList={};
 
-var _resourcesRubi44MiscellaneousTrigFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Miscellaneous Trig Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*4.1 Sine normalization rules*)
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*sin[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^(m+n)/(d*Cos[a+b*x])^m,x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*sin[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^(m+n)/(d*Sin[a+b*x])^m,x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*sec[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Sec[a+b*x])^m*(d*Cos[a+b*x])^m*Int[ActivateTrig[u]*(d*Cos[a+b*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*sec[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Csc[a+b*x])^m*(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(c*Cos[a+b*x])^m/(c*Sin[a+b*x])^m*Int[ActivateTrig[u]*(c*Sin[a+b*x])^m/(c*Cos[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(c*Sin[a+b*x])^m/(c*Cos[a+b*x])^m*Int[ActivateTrig[u]*(c*Cos[a+b*x])^m/(c*Sin[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*sec[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Sec[a+b*x])^m*(c*Cos[a+b*x])^m*Int[ActivateTrig[u]/(c*Cos[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*csc[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Csc[a+b*x])^m*(c*Sin[a+b*x])^m*Int[ActivateTrig[u]/(c*Sin[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*sin[a_.+b_.*x_])^n_.*(A_+B_.*csc[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-1)*(B+A*Sin[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cos[a_.+b_.*x_])^n_.*(A_+B_.*sec[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-1)*(B+A*Cos[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*csc[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Sin[a+b*x])/Sin[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*sec[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Cos[a+b*x])/Cos[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*sin[a_.+b_.*x_])^n_.*(A_.+B_.*csc[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-2)*(C+B*Sin[a+b*x]+A*Sin[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*cos[a_.+b_.*x_])^n_.*(A_.+B_.*sec[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-2)*(C+B*Cos[a+b*x]+A*Cos[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*sin[a_.+b_.*x_])^n_.*(A_+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Sin[a+b*x])^(n-2)*(C+A*Sin[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*cos[a_.+b_.*x_])^n_.*(A_+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Cos[a+b*x])^(n-2)*(C+A*Cos[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*csc[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Sin[a+b*x]+A*Sin[a+b*x]^2)/Sin[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*sec[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Cos[a+b*x]+A*Cos[a+b*x]^2)/Cos[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*csc[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Sin[a+b*x]^2)/Sin[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*sec[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Cos[a+b*x]^2)/Cos[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownSineIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*sin[a_.+b_.*x_]+C_.*csc[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Sin[a+b*x]+B*Sin[a+b*x]^2)/Sin[a+b*x],x] /;
-FreeQ[{a,b,A,B,C},x]
-
-
-Int[u_*(A_.+B_.*cos[a_.+b_.*x_]+C_.*sec[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Cos[a+b*x]+B*Cos[a+b*x]^2)/Cos[a+b*x],x] /;
-FreeQ[{a,b,A,B,C},x]
-
-
-Int[u_*(A_.*sin[a_.+b_.*x_]^n_.+B_.*sin[a_.+b_.*x_]^n1_+C_.*sin[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Sin[a+b*x]^n*(A+B*Sin[a+b*x]+C*Sin[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-Int[u_*(A_.*cos[a_.+b_.*x_]^n_.+B_.*cos[a_.+b_.*x_]^n1_+C_.*cos[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Cos[a+b*x]^n*(A+B*Cos[a+b*x]+C*Cos[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.2 Tangent normalization rules*)
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*tan[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(d*Tan[a+b*x])^m*Int[ActivateTrig[u]*(d*Tan[a+b*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*cos[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(d*Cos[a+b*x])^m/(d*Sin[a+b*x])^m*Int[ActivateTrig[u]*(d*Sin[a+b*x])^m/(d*Cos[a+b*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(c*Tan[a+b*x])^m*Int[ActivateTrig[u]/(c*Tan[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(c*Tan[a+b*x])^m*Int[ActivateTrig[u]/(c*Cot[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^n_.*(A_+B_.*cot[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-1)*(B+A*Tan[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^n_.*(A_+B_.*tan[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-1)*(B+A*Cot[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*cot[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Tan[a+b*x])/Tan[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*tan[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Cot[a+b*x])/Cot[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*tan[a_.+b_.*x_])^n_.*(A_.+B_.*cot[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-2)*(C+B*Tan[a+b*x]+A*Tan[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*cot[a_.+b_.*x_])^n_.*(A_.+B_.*tan[a_.+b_.*x_]+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-2)*(C+B*Cot[a+b*x]+A*Cot[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*tan[a_.+b_.*x_])^n_.*(A_+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Tan[a+b*x])^(n-2)*(C+A*Tan[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*cot[a_.+b_.*x_])^n_.*(A_+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Cot[a+b*x])^(n-2)*(C+A*Cot[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*cot[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Tan[a+b*x]+A*Tan[a+b*x]^2)/Tan[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*tan[a_.+b_.*x_]+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Cot[a+b*x]+A*Cot[a+b*x]^2)/Cot[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*cot[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Tan[a+b*x]^2)/Tan[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownTangentIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*tan[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Cot[a+b*x]^2)/Cot[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownCotangentIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*tan[a_.+b_.*x_]+C_.*cot[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Tan[a+b*x]+B*Tan[a+b*x]^2)/Tan[a+b*x],x] /;
-FreeQ[{a,b,A,B,C},x]
-
-
-Int[u_*(A_.*tan[a_.+b_.*x_]^n_.+B_.*tan[a_.+b_.*x_]^n1_+C_.*tan[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Tan[a+b*x]^n*(A+B*Tan[a+b*x]+C*Tan[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-Int[u_*(A_.*cot[a_.+b_.*x_]^n_.+B_.*cot[a_.+b_.*x_]^n1_+C_.*cot[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Cot[a+b*x]^n*(A+B*Cot[a+b*x]+C*Cot[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.3 Secant normalization rules*)
-(**)
-
-
-Int[u_*(c_.*sin[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Sin[a+b*x])^m*(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cos[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cos[a+b*x])^m*(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^(m+n)/(d*Csc[a+b*x])^m,x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^m*Int[ActivateTrig[u]*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*sec[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^m/(d*Sec[a+b*x])^(m-n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.*(d_.*csc[a_.+b_.*x_])^n_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(d*Sec[a+b*x])^m/(d*Csc[a+b*x])^m*Int[ActivateTrig[u]*(d*Csc[a+b*x])^(m+n)/(d*Sec[a+b*x])^m,x] /;
-FreeQ[{a,b,c,d,m,n},x] && KnownSecantIntegrandQ[u,x] && Not[IntegerQ[m]]
-
-
-Int[u_*(c_.*sin[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Csc[a+b*x])^m*(c*Sin[a+b*x])^m*Int[ActivateTrig[u]/(c*Csc[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cos[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Cos[a+b*x])^m*(c*Sec[a+b*x])^m*Int[ActivateTrig[u]/(c*Sec[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*tan[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Tan[a+b*x])^m*(c*Csc[a+b*x])^m/(c*Sec[a+b*x])^m*Int[ActivateTrig[u]*(c*Sec[a+b*x])^m/(c*Csc[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*cot[a_.+b_.*x_])^m_.,x_Symbol] :=
-  (c*Cot[a+b*x])^m*(c*Sec[a+b*x])^m/(c*Csc[a+b*x])^m*Int[ActivateTrig[u]*(c*Csc[a+b*x])^m/(c*Sec[a+b*x])^m,x] /;
-FreeQ[{a,b,c,m},x] && Not[IntegerQ[m]] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*sec[a_.+b_.*x_])^n_.*(A_+B_.*cos[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-1)*(B+A*Sec[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(c_.*csc[a_.+b_.*x_])^n_.*(A_+B_.*sin[a_.+b_.*x_]),x_Symbol] :=
-  c*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-1)*(B+A*Csc[a+b*x]),x] /;
-FreeQ[{a,b,c,A,B,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*cos[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Sec[a+b*x])/Sec[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_+B_.*sin[a_.+b_.*x_]),x_Symbol] :=
-  Int[ActivateTrig[u]*(B+A*Csc[a+b*x])/Csc[a+b*x],x] /;
-FreeQ[{a,b,A,B},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*sec[a_.+b_.*x_])^n_.*(A_.+B_.*cos[a_.+b_.*x_]+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-2)*(C+B*Sec[a+b*x]+A*Sec[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*csc[a_.+b_.*x_])^n_.*(A_.+B_.*sin[a_.+b_.*x_]+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-2)*(C+B*Csc[a+b*x]+A*Csc[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,B,C,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*sec[a_.+b_.*x_])^n_.*(A_+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Sec[a+b*x])^(n-2)*(C+A*Sec[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_.*(c_.*csc[a_.+b_.*x_])^n_.*(A_+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
-  c^2*Int[ActivateTrig[u]*(c*Csc[a+b*x])^(n-2)*(C+A*Csc[a+b*x]^2),x] /;
-FreeQ[{a,b,c,A,C,n},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*cos[a_.+b_.*x_]+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Sec[a+b*x]+A*Sec[a+b*x]^2)/Sec[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_.+B_.*sin[a_.+b_.*x_]+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+B*Csc[a+b*x]+A*Csc[a+b*x]^2)/Csc[a+b*x]^2,x] /;
-FreeQ[{a,b,A,B,C},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*cos[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Sec[a+b*x]^2)/Sec[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_+C_.*sin[a_.+b_.*x_]^2),x_Symbol] :=
-  Int[ActivateTrig[u]*(C+A*Csc[a+b*x]^2)/Csc[a+b*x]^2,x] /;
-FreeQ[{a,b,A,C},x] && KnownSecantIntegrandQ[u,x]
-
-
-Int[u_*(A_.*sec[a_.+b_.*x_]^n_.+B_.*sec[a_.+b_.*x_]^n1_+C_.*sec[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Sec[a+b*x]^n*(A+B*Sec[a+b*x]+C*Sec[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-Int[u_*(A_.*csc[a_.+b_.*x_]^n_.+B_.*csc[a_.+b_.*x_]^n1_+C_.*csc[a_.+b_.*x_]^n2_),x_Symbol] :=
-  Int[ActivateTrig[u]*Csc[a+b*x]^n*(A+B*Csc[a+b*x]+C*Csc[a+b*x]^2),x] /;
-FreeQ[{a,b,A,B,C,n},x] && EqQ[n1-n-1] && EqQ[n2-n-2]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.1 (c trig)^m (d trig)^n*)
-
-
-Int[sin[a_.+b_.*x_]*sin[c_.+d_.*x_],x_Symbol] :=
-  Sin[a-c+(b-d)*x]/(2*(b-d)) - Sin[a+c+(b+d)*x]/(2*(b+d)) /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
-
-
-Int[cos[a_.+b_.*x_]*cos[c_.+d_.*x_],x_Symbol] :=
-  Sin[a-c+(b-d)*x]/(2*(b-d)) + Sin[a+c+(b+d)*x]/(2*(b+d)) /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
-
-
-Int[sin[a_.+b_.*x_]*cos[c_.+d_.*x_],x_Symbol] :=
-  -Cos[a-c+(b-d)*x]/(2*(b-d)) - Cos[a+c+(b+d)*x]/(2*(b+d)) /;
-FreeQ[{a,b,c,d},x] && NeQ[b^2-d^2]
-
-
-Int[cos[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  1/2*Int[(g*Sin[c+d*x])^p,x] + 
-  1/2*Int[Cos[c+d*x]*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
-
-
-Int[sin[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  1/2*Int[(g*Sin[c+d*x])^p,x] - 
-  1/2*Int[Cos[c+d*x]*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
-  2^p/e^p*Int[(e*Cos[a+b*x])^(m+p)*Sin[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
-
-
-Int[(f_.*sin[a_.+b_.*x_])^n_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
-  2^p/f^p*Int[Cos[a+b*x]^p*(f*Sin[a+b*x])^(n+p),x] /;
-FreeQ[{a,b,c,d,f,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p-1]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p-1]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(b*g*m) /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(b*g*m) /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+2*p+2]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  e^4*(m+p-1)/(4*g^2*(p+1))*Int[(e*Cos[a+b*x])^(m-4)*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>2 && p<-1 && 
-  (m>3 || p==-3/2) && IntegersQ[2*m,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  e^4*(m+p-1)/(4*g^2*(p+1))*Int[(e*Sin[a+b*x])^(m-4)*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>2 && p<-1 && 
-  (m>3 || p==-3/2) && IntegersQ[2*m,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  e^2*(m+2*p+2)/(4*g^2*(p+1))*Int[(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
-  NeQ[m+2*p+2] && (p<-2 || m==2) && IntegersQ[2*m,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  e^2*(m+2*p+2)/(4*g^2*(p+1))*Int[(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
-  NeQ[m+2*p+2] && (p<-2 || m==2) && IntegersQ[2*m,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e^2*(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+2*p)) + 
-  e^2*(m+p-1)/(m+2*p)*Int[(e*Cos[a+b*x])^(m-2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+2*p] &&
-  IntegersQ[2*m,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e^2*(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+2*p)) + 
-  e^2*(m+p-1)/(m+2*p)*Int[(e*Sin[a+b*x])^(m-2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+2*p] &&
-  IntegersQ[2*m,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+p+1)) + 
-  (m+2*p+2)/(e^2*(m+p+1))*Int[(e*Cos[a+b*x])^(m+2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
-  NeQ[m+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Sin[a+b*x])^m*(g*Sin[c+d*x])^(p+1)/(2*b*g*(m+p+1)) + 
-  (m+2*p+2)/(e^2*(m+p+1))*Int[(e*Sin[a+b*x])^(m+2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
-  NeQ[m+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*p]
-
-
-Int[cos[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  2*Sin[a+b*x]*(g*Sin[c+d*x])^p/(d*(2*p+1)) + 2*p*g/(2*p+1)*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p>0 && IntegerQ[2*p]
-
-
-Int[sin[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -2*Cos[a+b*x]*(g*Sin[c+d*x])^p/(d*(2*p+1)) + 2*p*g/(2*p+1)*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p>0 && IntegerQ[2*p]
-
-
-Int[cos[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  Cos[a+b*x]*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  (2*p+3)/(2*g*(p+1))*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p+1),x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[sin[a_.+b_.*x_]*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -Sin[a+b*x]*(g*Sin[c+d*x])^(p+1)/(2*b*g*(p+1)) + 
-  (2*p+3)/(2*g*(p+1))*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p+1),x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[p] && p<-1 && IntegerQ[2*p]
-
-
-Int[cos[a_.+b_.*x_]/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
-  -ArcSin[Cos[a+b*x]-Sin[a+b*x]]/d + Log[Cos[a+b*x]+Sin[a+b*x]+Sqrt[Sin[c+d*x]]]/d /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c-a*d] && EqQ[d/b-2]
-
-
-Int[sin[a_.+b_.*x_]/Sqrt[sin[c_.+d_.*x_]],x_Symbol] :=
-  -ArcSin[Cos[a+b*x]-Sin[a+b*x]]/d - Log[Cos[a+b*x]+Sin[a+b*x]+Sqrt[Sin[c+d*x]]]/d /;
-FreeQ[{a,b,c,d},x] && EqQ[b*c-a*d] && EqQ[d/b-2]
-
-
-Int[(g_.*sin[c_.+d_.*x_])^p_/cos[a_.+b_.*x_],x_Symbol] :=
-  2*g*Int[Sin[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && IntegerQ[2*p]
-
-
-Int[(g_.*sin[c_.+d_.*x_])^p_/sin[a_.+b_.*x_],x_Symbol] :=
-  2*g*Int[Cos[a+b*x]*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && IntegerQ[2*p]
-
-
-(* Int[(e_.*cos[a_.+b_.*x_])^m_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^(m+1)*Sin[a+b*x]*(g*Sin[c+d*x])^p/(b*e*(m+p+1)*(Sin[a+b*x]^2)^((p+1)/2))*
-    Hypergeometric2F1[-(p-1)/2,(m+p+1)/2,(m+p+3)/2,Cos[a+b*x]^2] /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[m+p]] *)
-
-
-(* Int[(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -Cos[a+b*x]*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(p+1)*(Sin[a+b*x]^2)^((n+p+1)/2))*
-    Hypergeometric2F1[-(n+p-1)/2,(p+1)/2,(p+3)/2,Cos[a+b*x]^2] /;
-FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[n+p]] *)
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (g*Sin[c+d*x])^p/((e*Cos[a+b*x])^p*Sin[a+b*x]^p)*Int[(e*Cos[a+b*x])^(m+p)*Sin[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,e,g,m,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
-
-
-Int[(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (g*Sin[c+d*x])^p/(Cos[a+b*x]^p*(f*Sin[a+b*x])^p)*Int[Cos[a+b*x]^p*(f*Sin[a+b*x])^(n+p),x] /;
-FreeQ[{a,b,c,d,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
-
-
-Int[cos[a_.+b_.*x_]^2*sin[a_.+b_.*x_]^2*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  1/4*Int[(g*Sin[c+d*x])^p,x] - 
-  1/4*Int[Cos[c+d*x]^2*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && PositiveIntegerQ[p/2]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*sin[c_.+d_.*x_]^p_.,x_Symbol] :=
-  2^p/(e^p*f^p)*Int[(e*Cos[a+b*x])^(m+p)*(f*Sin[a+b*x])^(n+p),x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && IntegerQ[p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p+1]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+p+1]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && EqQ[m+n+2*p+2] && NeQ[m+p+1]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e^2*(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
-  e^4*(m+p-1)/(4*g^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-4)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>3 && p<-1 && 
-  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e^2*(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
-  e^4*(m+p-1)/(4*g^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-4)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>3 && p<-1 && 
-  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Cos[a+b*x])^m*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
-  e^2*(m+n+2*p+2)/(4*g^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p] && (p<-2 || m==2 || m==3)
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Sin[a+b*x])^m*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+1)/(2*b*g*(n+p+1)) + 
-  e^2*(m+n+2*p+2)/(4*g^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^(p+2),x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,p] && m>1 && p<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p] && (p<-2 || m==2 || m==3)
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) + 
-  e^2*(m+p-1)/(f^2*(n+p+1))*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^(n+2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n] && m>1 && n<-1 && 
-  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(n+p+1)) + 
-  e^2*(m+p-1)/(f^2*(n+p+1))*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^(n+2)*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n] && m>1 && n<-1 && 
-  NeQ[n+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  e*(e*Cos[a+b*x])^(m-1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(m+n+2*p)) + 
-  e^2*(m+p-1)/(m+n+2*p)*Int[(e*Cos[a+b*x])^(m-2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+n+2*p] && 
-  IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -e*(e*Sin[a+b*x])^(m-1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*f*(m+n+2*p)) + 
-  e^2*(m+p-1)/(m+n+2*p)*Int[(e*Sin[a+b*x])^(m-2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m>1 && NeQ[m+n+2*p] && 
-  IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -f*(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^p/(b*e*(m+n+2*p)) + 
-  2*f*g*(n+p-1)/(e*(m+n+2*p))*Int[(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && 
-  NeQ[m+n+2*p] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  f*(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^p/(b*e*(m+n+2*p)) + 
-  2*f*g*(n+p-1)/(e*(m+n+2*p))*Int[(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p-1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p>0 && 
-  NeQ[m+n+2*p] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
-  f*(m+n+2*p+2)/(2*e*g*(m+p+1))*Int[(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
-  f*(m+n+2*p+2)/(2*e*g*(m+p+1))*Int[(e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n-1)*(g*Sin[c+d*x])^(p+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m,n,p] && m<-1 && n>0 && p<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
-  (m+n+2*p+2)/(e^2*(m+p+1))*Int[(e*Cos[a+b*x])^(m+2)*(f*Sin[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-Int[(e_.*sin[a_.+b_.*x_])^m_*(f_.*cos[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (e*Sin[a+b*x])^(m+1)*(f*Cos[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)) + 
-  (m+n+2*p+2)/(e^2*(m+p+1))*Int[(e*Sin[a+b*x])^(m+2)*(f*Cos[a+b*x])^n*(g*Sin[c+d*x])^p,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && RationalQ[m] && m<-1 && 
-  NeQ[m+n+2*p+2] && NeQ[m+p+1] && IntegersQ[2*m,2*n,2*p]
-
-
-(* Int[(e_.*cos[a_.+b_.*x_])^m_*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  -(e*Cos[a+b*x])^(m+1)*(f*Sin[a+b*x])^(n+1)*(g*Sin[c+d*x])^p/(b*e*f*(m+p+1)*(Sin[a+b*x]^2)^((n+p+1)/2))*
-    Hypergeometric2F1[-(n+p-1)/2,(m+p+1)/2,(m+p+3)/2,Cos[a+b*x]^2] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]] && Not[IntegerQ[m+p]] && Not[IntegerQ[n+p]] *)
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*(f_.*sin[a_.+b_.*x_])^n_.*(g_.*sin[c_.+d_.*x_])^p_,x_Symbol] :=
-  (g*Sin[c+d*x])^p/((e*Cos[a+b*x])^p*(f*Sin[a+b*x])^p)*Int[(e*Cos[a+b*x])^(m+p)*(f*Sin[a+b*x])^(n+p),x] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x] && EqQ[b*c-a*d] && EqQ[d/b-2] && Not[IntegerQ[p]]
-
-
-Int[(e_.*cos[a_.+b_.*x_])^m_.*sin[c_.+d_.*x_],x_Symbol] :=
-  -(m+2)*(e*Cos[a+b*x])^(m+1)*Cos[(m+1)*(a+b*x)]/(d*e*(m+1)) /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b*c-a*d] && EqQ[d/b-Abs[m+2]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.3 Inert trig functions*)
-
-
-Int[(a_.*F_[c_.+d_.*x_]^p_)^n_,x_Symbol] :=
-  With[{v=ActivateTrig[F[c+d*x]]},
-  a^IntPart[n]*(v/NonfreeFactors[v,x])^(p*IntPart[n])*(a*v^p)^FracPart[n]/NonfreeFactors[v,x]^(p*FracPart[n])*
-    Int[NonfreeFactors[v,x]^(n*p),x]] /;
-FreeQ[{a,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && IntegerQ[p]
-
-
-Int[(a_.*(b_.*F_[c_.+d_.*x_])^p_)^n_.,x_Symbol] :=
-  With[{v=ActivateTrig[F[c+d*x]]},
-  a^IntPart[n]*(a*(b*v)^p)^FracPart[n]/(b*v)^(p*FracPart[n])*Int[(b*v)^(n*p),x]] /;
-FreeQ[{a,b,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && Not[IntegerQ[p]]
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[1,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && (F===Cos || F===cos)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[1,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && (F===Sin || F===sin)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  1/(b*c)*Subst[Int[SubstFor[1/x,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && (F===Cot || F===cot)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -1/(b*c)*Subst[Int[SubstFor[1/x,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && (F===Tan || F===tan)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
-  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[1,Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
- FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && NonsumQ[u] && (F===Sec || F===sec)
-
-
-Int[u_/cos[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
-  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[1,Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
- FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && NonsumQ[u]
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
-  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[1,Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
- FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && NonsumQ[u] && (F===Csc || F===csc)
-
-
-Int[u_/sin[c_.*(a_.+b_.*x_)]^2,x_Symbol] :=
-  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[1,Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
- FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True]] /;
-FreeQ[{a,b,c},x] && NonsumQ[u]
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_.,x_Symbol] :=
-  With[{d=FreeFactors[Tan[c*(a+b*x)],x]},
-  1/(b*c*d^(n-1))*Subst[Int[SubstFor[1/(x^n*(1+d^2*x^2)),Tan[c*(a+b*x)]/d,u,x],x],x,Tan[c*(a+b*x)]/d] /;
- FunctionOfQ[Tan[c*(a+b*x)]/d,u,x,True] && TryPureTanSubst[ActivateTrig[u]*Cot[c*(a+b*x)]^n,x]] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && (F===Cot || F===cot)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_.,x_Symbol] :=
-  With[{d=FreeFactors[Cot[c*(a+b*x)],x]},
-  -1/(b*c*d^(n-1))*Subst[Int[SubstFor[1/(x^n*(1+d^2*x^2)),Cot[c*(a+b*x)]/d,u,x],x],x,Cot[c*(a+b*x)]/d] /;
- FunctionOfQ[Cot[c*(a+b*x)]/d,u,x,True] && TryPureTanSubst[ActivateTrig[u]*Tan[c*(a+b*x)]^n,x]] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && (F===Tan || F===tan)
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Cot[a+b*x]],x]","-1/b*Subst[Int[F[x]/(1+x^2),x],x,Cot[a+b*x]]",Hold[
-  With[{d=FreeFactors[Cot[v],x]},
-  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Cot[v]/d,u,x],x],x,Cot[v]/d],x]]]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cot[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Cot[v],x]},
-  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Cot[v]/d,u,x],x],x,Cot[v]/d],x]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cot[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]]]
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Tan[a+b*x]],x]","1/b*Subst[Int[F[x]/(1+x^2),x],x,Tan[a+b*x]]",Hold[
-  With[{d=FreeFactors[Tan[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]]]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Tan[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x,True] && TryPureTanSubst[ActivateTrig[u],x]]]
-
-
-Int[F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[ActivateTrig[F[a+b*x]^p*G[c+d*x]^q],x],x] /;
-FreeQ[{a,b,c,d},x] && (F===sin || F===cos) && (G===sin || G===cos) && PositiveIntegerQ[p,q]
-
-
-Int[F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.*H_[e_.+f_.*x_]^r_.,x_Symbol] :=
-  Int[ExpandTrigReduce[ActivateTrig[F[a+b*x]^p*G[c+d*x]^q*H[e+f*x]^r],x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && (F===sin || F===cos) && (G===sin || G===cos) && (H===sin || H===cos) && PositiveIntegerQ[p,q,r]
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[1,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && (F===Cos || F===cos)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[1,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && (F===Sin || F===sin)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  1/(b*c)*Subst[Int[SubstFor[1/x,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && (F===Cot || F===cot)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)],x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -1/(b*c)*Subst[Int[SubstFor[1/x,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && (F===Tan || F===tan)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2),Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Cos || F===cos)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((-n-1)/2),Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Sec || F===sec)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2),Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Sin || F===sin)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -d/(b*c)*Subst[Int[SubstFor[(1-d^2*x^2)^((-n-1)/2),Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Csc || F===csc)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Sin[c*(a+b*x)],x]},
-  1/(b*c*d^(n-1))*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2)/x^n,Sin[c*(a+b*x)]/d,u,x],x],x,Sin[c*(a+b*x)]/d] /;
- FunctionOfQ[Sin[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Cot || F===cot)
-
-
-Int[u_*F_[c_.*(a_.+b_.*x_)]^n_,x_Symbol] :=
-  With[{d=FreeFactors[Cos[c*(a+b*x)],x]},
-  -1/(b*c*d^(n-1))*Subst[Int[SubstFor[(1-d^2*x^2)^((n-1)/2)/x^n,Cos[c*(a+b*x)]/d,u,x],x],x,Cos[c*(a+b*x)]/d] /;
- FunctionOfQ[Cos[c*(a+b*x)]/d,u,x]] /;
-FreeQ[{a,b,c},x] && OddQ[n] && NonsumQ[u] && (F===Tan || F===tan)
-
-
-Int[u_*(v_+d_.*F_[c_.*(a_.+b_.*x_)]^n_.),x_Symbol] :=
-  With[{e=FreeFactors[Sin[c*(a+b*x)],x]},
-  Int[ActivateTrig[u*v],x] + d*Int[ActivateTrig[u]*Cos[c*(a+b*x)]^n,x] /;
- FunctionOfQ[Sin[c*(a+b*x)]/e,u,x]] /;
-FreeQ[{a,b,c,d},x] && Not[FreeQ[v,x]] && OddQ[n] && NonsumQ[u] && (F===Cos || F===cos)
-
-
-Int[u_*(v_+d_.*F_[c_.*(a_.+b_.*x_)]^n_.),x_Symbol] :=
-  With[{e=FreeFactors[Cos[c*(a+b*x)],x]},
-  Int[ActivateTrig[u*v],x] + d*Int[ActivateTrig[u]*Sin[c*(a+b*x)]^n,x] /;
- FunctionOfQ[Cos[c*(a+b*x)]/e,u,x]] /;
-FreeQ[{a,b,c,d},x] && Not[FreeQ[v,x]] && OddQ[n] && NonsumQ[u] && (F===Sin || F===sin)
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Sin[a+b*x]]*Cos[a+b*x],x]","Subst[Int[F[x],x],x,Sin[a+b*x]]/b",Hold[
-  With[{d=FreeFactors[Sin[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Sin[v]/d,u/Cos[v],x],x],x,Sin[v]/d],x]]]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Sin[v],x],u/Cos[v],x]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Sin[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Sin[v]/d,u/Cos[v],x],x],x,Sin[v]/d],x]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Sin[v],x],u/Cos[v],x]]]
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Cos[a+b*x]]*Sin[a+b*x],x]","-Subst[Int[F[x],x],x,Cos[a+b*x]]/b",Hold[
-  With[{d=FreeFactors[Cos[v],x]},
-  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Cos[v]/d,u/Sin[v],x],x],x,Cos[v]/d],x]]]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cos[v],x],u/Sin[v],x]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Cos[v],x]},
-  Dist[-d/Coefficient[v,x,1],Subst[Int[SubstFor[1,Cos[v]/d,u/Sin[v],x],x],x,Cos[v]/d],x]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Cos[v],x],u/Sin[v],x]]]
-
-
-Int[u_.*(a_.+b_.*cos[d_.+e_.*x_]^2+c_.*sin[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
-  (a+c)^p*Int[ActivateTrig[u],x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[b-c]
-
-
-Int[u_.*(a_.+b_.*tan[d_.+e_.*x_]^2+c_.*sec[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
-  (a+c)^p*Int[ActivateTrig[u],x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[b+c]
-
-
-Int[u_.*(a_.+b_.*cot[d_.+e_.*x_]^2+c_.*csc[d_.+e_.*x_]^2)^p_.,x_Symbol] :=
-  (a+c)^p*Int[ActivateTrig[u],x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[b+c]
-
-
-Int[u_/y_,x_Symbol] :=
-  With[{q=DerivativeDivides[ActivateTrig[y],ActivateTrig[u],x]},
-    q*Log[RemoveContent[ActivateTrig[y],x]] /;
- Not[FalseQ[q]]] /;
-Not[InertTrigFreeQ[u]]
-
-
-Int[u_/(y_*w_),x_Symbol] :=
-  With[{q=DerivativeDivides[ActivateTrig[y*w],ActivateTrig[u],x]},
-    q*Log[RemoveContent[ActivateTrig[y*w],x]] /;
- Not[FalseQ[q]]] /;
-Not[InertTrigFreeQ[u]]
-
-
-Int[u_*y_^m_.,x_Symbol] :=
-  With[{q=DerivativeDivides[ActivateTrig[y],ActivateTrig[u],x]},
-   q*ActivateTrig[y^(m+1)]/(m+1) /;
- Not[FalseQ[q]]] /;
-FreeQ[m,x] && NeQ[m+1] && Not[InertTrigFreeQ[u]]
-
-
-Int[u_*y_^m_.*z_^n_.,x_Symbol] :=
-  With[{q=DerivativeDivides[ActivateTrig[y*z],ActivateTrig[u*z^(n-m)],x]},
-   q*ActivateTrig[y^(m+1)*z^(m+1)]/(m+1) /;
- Not[FalseQ[q]]] /;
-FreeQ[{m,n},x] && NeQ[m+1] && Not[InertTrigFreeQ[u]]
-
-
-Int[u_.*(a_.*F_[c_.+d_.*x_]^p_)^n_,x_Symbol] :=
-  With[{v=ActivateTrig[F[c+d*x]]},
-  a^IntPart[n]*(v/NonfreeFactors[v,x])^(p*IntPart[n])*(a*v^p)^FracPart[n]/NonfreeFactors[v,x]^(p*FracPart[n])*
-    Int[ActivateTrig[u]*NonfreeFactors[v,x]^(n*p),x]] /;
-FreeQ[{a,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && IntegerQ[p]
-
-
-Int[u_.*(a_.*(b_.*F_[c_.+d_.*x_])^p_)^n_.,x_Symbol] :=
-  With[{v=ActivateTrig[F[c+d*x]]},
-  a^IntPart[n]*(a*(b*v)^p)^FracPart[n]/(b*v)^(p*FracPart[n])*Int[ActivateTrig[u]*(b*v)^(n*p),x]] /;
-FreeQ[{a,b,c,d,n,p},x] && InertTrigQ[F] && Not[IntegerQ[n]] && Not[IntegerQ[p]]
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Tan[a+b*x]],x]","1/b*Subst[Int[F[x]/(1+x^2),x],x,Tan[a+b*x]]",Hold[
-  With[{d=FreeFactors[Tan[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]]]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x]] /;
-SimplifyFlag && InverseFunctionFreeQ[u,x],
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Tan[v],x]},
-  Dist[d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v]/d,u,x],x],x,Tan[v]/d],x]] /;
- Not[FalseQ[v]] && FunctionOfQ[NonfreeFactors[Tan[v],x],u,x]] /;
-InverseFunctionFreeQ[u,x]]
-
-
-Int[u_.*(a_.*tan[c_.+d_.*x_]^n_.+b_.*sec[c_.+d_.*x_]^n_.)^p_,x_Symbol] :=
-  Int[ActivateTrig[u]*Sec[c+d*x]^(n*p)*(b+a*Sin[c+d*x]^n)^p,x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p]
-
-
-Int[u_.*(a_.*cot[c_.+d_.*x_]^n_.+b_.*csc[c_.+d_.*x_]^n_.)^p_,x_Symbol] :=
-  Int[ActivateTrig[u]*Csc[c+d*x]^(n*p)*(b+a*Cos[c+d*x]^n)^p,x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p]
-
-
-Int[u_*(a_*F_[c_.+d_.*x_]^p_.+b_.*F_[c_.+d_.*x_]^q_.)^n_.,x_Symbol] :=
-  Int[ActivateTrig[u*F[c+d*x]^(n*p)*(a+b*F[c+d*x]^(q-p))^n],x] /;
-FreeQ[{a,b,c,d,p,q},x] && InertTrigQ[F] && IntegerQ[n] && PosQ[q-p]
-
-
-Int[u_*(a_*F_[d_.+e_.*x_]^p_.+b_.*F_[d_.+e_.*x_]^q_.+c_.*F_[d_.+e_.*x_]^r_.)^n_.,x_Symbol] :=
-  Int[ActivateTrig[u*F[d+e*x]^(n*p)*(a+b*F[d+e*x]^(q-p)+c*F[d+e*x]^(r-p))^n],x] /;
-FreeQ[{a,b,c,d,e,p,q,r},x] && InertTrigQ[F] && IntegerQ[n] && PosQ[q-p] && PosQ[r-p]
-
-
-Int[u_*(a_+b_.*F_[d_.+e_.*x_]^p_.+c_.*F_[d_.+e_.*x_]^q_.)^n_.,x_Symbol] :=
-  Int[ActivateTrig[u*F[d+e*x]^(n*p)*(b+a*F[d+e*x]^(-p)+c*F[d+e*x]^(q-p))^n],x] /;
-FreeQ[{a,b,c,d,e,p,q},x] && InertTrigQ[F] && IntegerQ[n] && NegQ[p]
-
-
-Int[u_.*(a_.*cos[c_.+d_.*x_]+b_.*sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[ActivateTrig[u]*(a*E^(-a/b*(c+d*x)))^n,x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[a^2+b^2]
-
-
-Int[u_,x_Symbol] :=
-  Int[TrigSimplify[u],x] /;
-TrigSimplifyQ[u]
-
-
-Int[u_.*(a_*v_)^p_,x_Symbol] :=
-  With[{uu=ActivateTrig[u],vv=ActivateTrig[v]},
-  a^IntPart[p]*(a*vv)^FracPart[p]/(vv^FracPart[p])*Int[uu*vv^p,x]] /;
-FreeQ[{a,p},x] && Not[IntegerQ[p]] && Not[InertTrigFreeQ[v]]
-
-
-Int[u_.*(v_^m_)^p_,x_Symbol] :=
-  With[{uu=ActivateTrig[u],vv=ActivateTrig[v]},
-  (vv^m)^FracPart[p]/(vv^(m*FracPart[p]))*Int[uu*vv^(m*p),x]] /;
-FreeQ[{m,p},x] && Not[IntegerQ[p]] && Not[InertTrigFreeQ[v]]
-
-
-Int[u_.*(v_^m_.*w_^n_.)^p_,x_Symbol] :=
-  With[{uu=ActivateTrig[u],vv=ActivateTrig[v],ww=ActivateTrig[w]},
-  (vv^m*ww^n)^FracPart[p]/(vv^(m*FracPart[p])*ww^(n*FracPart[p]))*Int[uu*vv^(m*p)*ww^(n*p),x]] /;
-FreeQ[{m,n,p},x] && Not[IntegerQ[p]] && (Not[InertTrigFreeQ[v]] || Not[InertTrigFreeQ[w]])
-
-
-Int[u_,x_Symbol] :=
-  With[{v=ExpandTrig[u,x]},
-  Int[v,x] /;
- SumQ[v]] /;
-Not[InertTrigFreeQ[u]]
-
-
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{w=Block[{ShowSteps=False,$StepCounter=Null}, 
-			Int[SubstFor[1/(1+FreeFactors[Tan[FunctionOfTrig[u,x]/2],x]^2*x^2),Tan[FunctionOfTrig[u,x]/2]/FreeFactors[Tan[FunctionOfTrig[u,x]/2],x],u,x],x]]},  
-  ShowStep["","Int[F[Sin[a+b*x],Cos[a+b*x]],x]","2/b*Subst[Int[1/(1+x^2)*F[2*x/(1+x^2),(1-x^2)/(1+x^2)],x],x,Tan[(a+b*x)/2]]",Hold[
-  Module[{v=FunctionOfTrig[u,x],d},
-  d=FreeFactors[Tan[v/2],x];
-  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]]]] /;
- FreeQ[w,Int]] /;
-SimplifyFlag && InverseFunctionFreeQ[u,x] && Not[FalseQ[FunctionOfTrig[u,x]]],
-
-Int[u_,x_Symbol] :=
-  With[{w=Block[{ShowSteps=False,$StepCounter=Null}, 
-			Int[SubstFor[1/(1+FreeFactors[Tan[FunctionOfTrig[u,x]/2],x]^2*x^2),Tan[FunctionOfTrig[u,x]/2]/FreeFactors[Tan[FunctionOfTrig[u,x]/2],x],u,x],x]]},  
-  Module[{v=FunctionOfTrig[u,x],d},
-  d=FreeFactors[Tan[v/2],x];
-  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]] /;
- FreeQ[w,Int]] /;
-InverseFunctionFreeQ[u,x] && Not[FalseQ[FunctionOfTrig[u,x]]]]
-
-
-(* If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  ShowStep["","Int[F[Sin[a+b*x],Cos[a+b*x]],x]","2/b*Subst[Int[1/(1+x^2)*F[2*x/(1+x^2),(1-x^2)/(1+x^2)],x],x,Tan[(a+b*x)/2]]",Hold[
-  With[{d=FreeFactors[Tan[v/2],x]},
-  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]]]] /;
- Not[FalseQ[v]]] /;
-SimplifyFlag && InverseFunctionFreeQ[u,x],
-
-Int[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[u,x]},
-  With[{d=FreeFactors[Tan[v/2],x]},
-  Dist[2*d/Coefficient[v,x,1],Subst[Int[SubstFor[1/(1+d^2*x^2),Tan[v/2]/d,u,x],x],x,Tan[v/2]/d],x]] /;
- Not[FalseQ[v]]] /;
-InverseFunctionFreeQ[u,x]] *)
-
-
-Int[u_,x_Symbol] :=
-  With[{v=ActivateTrig[u]},
-   Defer[Int][v,x]] /;
-Not[InertTrigFreeQ[u]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.5 (c+d x)^m trig(a+b x)^n trig(a+b x)^p*)
-
-
-Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Cos[a_.+b_.*x_],x_Symbol] :=
-  (c+d*x)^m*Sin[a+b*x]^(n+1)/(b*(n+1)) - 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Sin[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]*Cos[a_.+b_.*x_]^n_.,x_Symbol] :=
-  -(c+d*x)^m*Cos[a+b*x]^(n+1)/(b*(n+1)) + 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Cos[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Cos[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(c+d*x)^m,Sin[a+b*x]^n*Cos[a+b*x]^p,x],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Sin[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
-  -Int[(c+d*x)^m*Sin[a+b*x]^n*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sin[a+b*x]^(n-2)*Tan[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Cos[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
-  -Int[(c+d*x)^m*Cos[a+b*x]^n*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Cos[a+b*x]^(n-2)*Cot[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
-  (c+d*x)^m*Sec[a+b*x]^n/(b*n) - 
-  d*m/(b*n)*Int[(c+d*x)^(m-1)*Sec[a+b*x]^n,x] /;
-FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
-  -(c+d*x)^m*Csc[a+b*x]^n/(b*n) + 
-  d*m/(b*n)*Int[(c+d*x)^(m-1)*Csc[a+b*x]^n,x] /;
-FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^2*Tan[a_.+b_.*x_]^n_.,x_Symbol] :=
-  (c+d*x)^m*Tan[a+b*x]^(n+1)/(b*(n+1)) - 
-  d*m/(b*(n +1))*Int[(c+d*x)^(m-1)*Tan[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^2*Cot[a_.+b_.*x_]^n_.,x_Symbol] :=
-  -(c+d*x)^m*Cot[a+b*x]^(n+1)/(b*(n+1)) + 
-  d*m/(b*(n +1))*Int[(c+d*x)^(m-1)*Cot[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]*Tan[a_.+b_.*x_]^p_,x_Symbol] :=
-  -Int[(c+d*x)^m*Sec[a+b*x]*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sec[a+b*x]^3*Tan[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_,x_Symbol] :=
-  -Int[(c+d*x)^m*Sec[a+b*x]^n*Tan[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Sec[a+b*x]^(n+2)*Tan[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]*Cot[a_.+b_.*x_]^p_,x_Symbol] :=
-  -Int[(c+d*x)^m*Csc[a+b*x]*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csc[a+b*x]^3*Cot[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_,x_Symbol] :=
-  -Int[(c+d*x)^m*Csc[a+b*x]^n*Cot[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csc[a+b*x]^(n+2)*Cot[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Sec[a_.+b_.*x_]^n_.*Tan[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Module[{u=IntHide[Sec[a+b*x]^n*Tan[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Cot[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Module[{u=IntHide[Csc[a+b*x]^n*Cot[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Sec[a_.+b_.*x_]^n_., x_Symbol] :=
-  2^n*Int[(c+d*x)^m*Csc[2*a+2*b*x]^n,x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[m] && IntegerQ[n]
-
-
-Int[(c_.+d_.*x_)^m_.*Csc[a_.+b_.*x_]^n_.*Sec[a_.+b_.*x_]^p_., x_Symbol] :=
-  Module[{u=IntHide[Csc[a+b*x]^n*Sec[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && RationalQ[m] && m>0 && n!=p
-
-
-Int[u_^m_.*F_[v_]^n_.*G_[w_]^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*F[ExpandToSum[v,x]]^n*G[ExpandToSum[v,x]]^p,x] /;
-FreeQ[{m,n,p},x] && TrigQ[F] && TrigQ[G] && EqQ[v-w] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]*(a_+b_.*Sin[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Sin[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sin[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]*(a_+b_.*Cos[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Cos[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cos[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sec[c_.+d_.*x_]^2*(a_+b_.*Tan[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Tan[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Tan[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Csc[c_.+d_.*x_]^2*(a_+b_.*Cot[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Cot[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cot[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sec[c_.+d_.*x_]*Tan[c_.+d_.*x_]*(a_+b_.*Sec[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Sec[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sec[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Csc[c_.+d_.*x_]*Cot[c_.+d_.*x_]*(a_+b_.*Csc[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Csc[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Csc[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*x_]^p_.*Sin[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Sin[a+b*x]^p*Sin[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[a_.+b_.*x_]^p_.*Cos[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Cos[a+b*x]^p*Cos[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*x_]^p_.*Cos[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Sin[a+b*x]^p*Cos[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p,q]
-
-
-Int[(e_.+f_.*x_)^m_.*F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigExpand[(e+f*x)^m*G[c+d*x]^q,F,c+d*x,p,b/d,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && MemberQ[{Sin,Cos},F] && MemberQ[{Sec,Csc},G] && 
-  PositiveIntegerQ[p,q] && EqQ[b*c-a*d] && PositiveIntegerQ[b/d-1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.6 F^(c (a+b x)) trig(d+e x)^n*)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_],x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]/(e^2+b^2*c^2*Log[F]^2) - 
-  e*F^(c*(a+b*x))*Cos[d+e*x]/(e^2+b^2*c^2*Log[F]^2) /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2+b^2*c^2*Log[F]^2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_],x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]/(e^2+b^2*c^2*Log[F]^2) + 
-  e*F^(c*(a+b*x))*Sin[d+e*x]/(e^2+b^2*c^2*Log[F]^2) /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2+b^2*c^2*Log[F]^2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^n/(e^2*n^2+b^2*c^2*Log[F]^2) - 
-  e*n*F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n-1)/(e^2*n^2+b^2*c^2*Log[F]^2) + 
-  (n*(n-1)*e^2)/(e^2*n^2+b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Sin[d+e*x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^m_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^m/(e^2*m^2+b^2*c^2*Log[F]^2) + 
-  e*m*F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(m-1)/(e^2*m^2+b^2*c^2*Log[F]^2) + 
-  (m*(m-1)*e^2)/(e^2*m^2+b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Cos[d+e*x]^(m-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*m^2+b^2*c^2*Log[F]^2] && RationalQ[m] && m>1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
-  F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n+1)/(e*(n+1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
-  F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(n+1)/(e*(n+1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sin[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
-  F^(c*(a+b*x))*Cos[d+e*x]*Sin[d+e*x]^(n+1)/(e*(n+1)) + 
-  (e^2*(n+2)^2+b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Sin[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Cos[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
-  F^(c*(a+b*x))*Sin[d+e*x]*Cos[d+e*x]^(n+1)/(e*(n+1)) + 
-  (e^2*(n+2)^2+b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Cos[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_,x_Symbol] :=
-  E^(I*n*(d+e*x))*Sin[d+e*x]^n/(-1+E^(2*I*(d+e*x)))^n*Int[F^(c*(a+b*x))*(-1+E^(2*I*(d+e*x)))^n/E^(I*n*(d+e*x)),x] /;
-FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_,x_Symbol] :=
-  E^(I*n*(d+e*x))*Cos[d+e*x]^n/(1+E^(2*I*(d+e*x)))^n*Int[F^(c*(a+b*x))*(1+E^(2*I*(d+e*x)))^n/E^(I*n*(d+e*x)),x] /;
-FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Tan[d_.+e_.*x_]^n_.,x_Symbol] :=
-  I^n*Int[ExpandIntegrand[F^(c*(a+b*x))*(1-E^(2*I*(d+e*x)))^n/(1+E^(2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cot[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (-I)^n*Int[ExpandIntegrand[F^(c*(a+b*x))*(1+E^(2*I*(d+e*x)))^n/(1-E^(2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*(Sec[d+e x]^n/(e^2*n^2+b^2*c^2*Log[F]^2)) - 
-  e*n*F^(c*(a+b*x))*Sec[d+e x]^(n+1)*(Sin[d+e x]/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
-  e^2*n*((n+1)/(e^2*n^2+b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Sec[d+e x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*(Csc[d+e x]^n/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
-  e*n*F^(c*(a+b*x))*Csc[d+e x]^(n+1)*(Cos[d+e x]/(e^2*n^2+b^2*c^2*Log[F]^2)) + 
-  e^2*n*((n+1)/(e^2*n^2+b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Csc[d+e x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sec[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
-  F^(c*(a+b*x))*Sec[d+e x]^(n-1)*Sin[d+e x]/(e*(n-1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && NeQ[n-1] && NeQ[n-2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Csc[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
-  F^(c*(a+b*x))*Csc[d+e x]^(n-1)*Cos[d+e x]/(e*(n-1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && NeQ[n-1] && NeQ[n-2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sec[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) + 
-  F^(c*(a+b*x))*Sec[d+e x]^(n-1)*Sin[d+e x]/(e*(n-1)) + 
-  (e^2*(n-2)^2+b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Sec[d+e x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && RationalQ[n] && n>1 && n!=2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Csc[d+e x]^(n-2)/(e^2*(n-1)*(n-2)) - 
-  F^(c*(a+b*x))*Csc[d+e x]^(n-1)*Cos[d+e x]/(e*(n-1)) + 
-  (e^2*(n-2)^2+b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Csc[d+e x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[b^2*c^2*Log[F]^2+e^2*(n-2)^2] && RationalQ[n] && n>1 && n!=2
-
-
-(* Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
-  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(I*n*(d+e*x))/(1+E^(2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
-
-
-(* Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (2*I)^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-I*n*(d+e*x))/(1-E^(-2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+k_.*Pi+e_.*x_]^n_.,x_Symbol] :=
-  2^n*E^(I*k*n*Pi)*E^(I*n*(d+e*x))*F^(c*(a+b*x))/(I*e*n+b*c*Log[F])*
-    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),-E^(2*I*k*Pi)*E^(2*I*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[4*k] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
-  2^n*E^(I*n*(d+e*x))*F^(c*(a+b*x))/(I*e*n+b*c*Log[F])*
-    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),-E^(2*I*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+k_.*Pi+e_.*x_]^n_.,x_Symbol] :=
-  (-2*I)^n*E^(I*k*n*Pi)*E^(I*n*(d+e*x))*(F^(c*(a+b*x))/(I*e*n+b*c*Log[F]))*
-    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),E^(2*I*k*Pi)*E^(2*I*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[4*k] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (-2*I)^n*E^(I*n*(d+e*x))*(F^(c*(a+b*x))/(I*e*n+b*c*Log[F]))*
-    Hypergeometric2F1[n,n/2-I*b*c*Log[F]/(2*e),1+n/2-I*b*c*Log[F]/(2*e),E^(2*I*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sec[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (1+E^(2*I*(d+e*x)))^n*Sec[d+e*x]^n/E^(I*n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(I*n*(d+e*x))/(1+E^(2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csc[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (1-E^(-2*I*(d+e*x)))^n*Csc[d+e*x]^n/E^(-I*n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-I*n*(d+e*x))/(1-E^(-2*I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*f^n*Int[F^(c*(a+b*x))*Cos[d/2+e*x/2-f*Pi/(4*g)]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2-g^2] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*f^n*Int[F^(c*(a+b*x))*Cos[d/2+e*x/2]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*f^n*Int[F^(c*(a+b*x))*Sin[d/2+e*x/2]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^m_.*(f_+g_.*Sin[d_.+e_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[F^(c*(a+b*x))*Tan[f*Pi/(4*g)-d/2-e*x/2]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2-g^2] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
-  f^n*Int[F^(c*(a+b*x))*Tan[d/2+e*x/2]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*(f_+g_.*Cos[d_.+e_.*x_])^n_.,x_Symbol] :=
-  f^n*Int[F^(c*(a+b*x))*Cot[d/2+e*x/2]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Cos[d_.+e_.*x_])/(f_+g_.*Sin[d_.+e_.*x_]),x_Symbol] :=
-  2*i*Int[F^(c*(a+b*x))*(Cos[d+e*x]/(f+g*Sin[d+e*x])),x] + 
-  Int[F^(c*(a+b*x))*((h-i*Cos[d+e*x])/(f+g*Sin[d+e*x])),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2-i^2] && EqQ[g*h-f*i]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Sin[d_.+e_.*x_])/(f_+g_.*Cos[d_.+e_.*x_]),x_Symbol] :=
-  2*i*Int[F^(c*(a+b*x))*(Sin[d+e*x]/(f+g*Cos[d+e*x])),x] + 
-  Int[F^(c*(a+b*x))*((h-i*Sin[d+e*x])/(f+g*Cos[d+e*x])),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2-i^2] && EqQ[g*h+f*i]
-
-
-Int[F_^(c_.*u_)*G_[v_]^n_.,x_Symbol] :=
-  Int[F^(c*ExpandToSum[u,x])*G[ExpandToSum[v,x]]^n,x] /;
-FreeQ[{F,c,n},x] && TrigQ[G] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Module[{u=IntHide[F^(c*(a+b*x))*Sin[d+e*x]^n,x]},
-  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
-
-
-Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Module[{u=IntHide[F^(c*(a+b*x))*Cos[d+e*x]^n,x]},
-  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
-
-
-Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_],x_Symbol] :=
-  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Sin[d+e*x] - 
-  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cos[d+e*x],x] - 
-  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sin[d+e*x],x] /;
-FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
-
-
-Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_],x_Symbol] :=
-  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Cos[d+e*x] + 
-  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sin[d+e*x],x] - 
-  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cos[d+e*x],x] /;
-FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
-
-
-(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^n_.,x_Symbol] :=
-  I^n/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-I*(d+e*x))-E^(I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
-
-
-(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cos[d_.+e_.*x_]^n_.,x_Symbol] :=
-  1/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-I*(d+e*x))+E^(I*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*Cos[f_.+g_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[F^(c*(a+b*x)),Sin[d+e*x]^m*Cos[f+g*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n]
-
-
-Int[x_^p_.*F_^(c_.*(a_.+b_.*x_))*Sin[d_.+e_.*x_]^m_.*Cos[f_.+g_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^p*F^(c*(a+b*x)),Sin[d+e*x]^m*Cos[f+g*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n,p]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*G_[d_.+e_.*x_]^m_.*H_[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^(c*(a+b*x)),G[d+e*x]^m*H[d+e*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && PositiveIntegerQ[m,n] && TrigQ[G] && TrigQ[H]
-
-
-Int[F_^u_*Sin[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Sin[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
-
-
-Int[F_^u_*Cos[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Cos[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
-
-
-Int[F_^u_*Sin[v_]^m_.*Cos[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Sin[v]^m*Cos[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[m,n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.7 x^m trig(a+b log(c x^n))^p*)
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(p+2)*Sin[a+b*Log[c*x^n]]^(p+2)/(p+1) + 
-  x*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2+1] && NeQ[p+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(p+2)*Cos[a+b*Log[c*x^n]]^(p+2)/(p+1) - 
-  x*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2+1] && NeQ[p+1]
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(E^(a*b*n*p)/(2*b*n*p)*(c*x^n)^(-1/(n*p))-E^(-a*b*n*p)/(2*b*n*p)*(c*x^n)^(1/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(E^(a*b*n*p)/2*(c*x^n)^(-1/(n*p))-E^(-a*b*n*p)/2*(c*x^n)^(1/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+1]
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  x*Sin[a+b*Log[c*x^n]]/(b^2*n^2+1) -
-  b*n*x*Cos[a+b*Log[c*x^n]]/(b^2*n^2+1) /;
-FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  x*Cos[a+b*Log[c*x^n]]/(1+b^2*n^2) +
-  b*n*x*Sin[a+b*Log[c*x^n]]/(b^2*n^2+1) /;
-FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2+1]
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Sin[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) -
-  b*n*p*x*Cos[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+1) +
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+1)*Int[Sin[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Cos[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
-  b*n*p*x*Cos[a+b*Log[c*x^n]]^(p-1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2*p^2+1) +
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+1)*Int[Cos[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
-  x*Sin[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (b^2*n^2*(p+2)^2+1)/(b^2*n^2*(p+1)*(p+2))*Int[Sin[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
-  x*Cos[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (b^2*n^2*(p+2)^2+1)/(b^2*n^2*(p+1)*(p+2))*Int[Cos[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+1]
-
-
-Int[Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(I/(E^(I*a)*(c*x^n)^(I*b))-I*E^(I*a)*(c*x^n)^(I*b))^p/((1-I*b*n*p)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
-    Hypergeometric2F1[-p,(1-I*b*n*p)/(2*I*b*n),1+(1-I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(1/(E^(I*a)*(c*x^n)^(I*b))+E^(I*a)*(c*x^n)^(I*b))^p/((1-I*b*n*p)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
-    Hypergeometric2F1[-p,(1-I*b*n*p)/(2*I*b*n),1+(1-I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p+2)*x^(m+1)*Sin[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) + 
-  x^(m+1)*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2+(m+1)^2] && NeQ[p+1] && NeQ[m+1]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p+2)*x^(m+1)*Cos[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) - 
-  x^(m+1)*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2+(m+1)^2] && NeQ[p+1] && NeQ[m+1]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  1/2^p*Int[ExpandIntegrand[x^m*((m+1)/(b*n*p)*E^(a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) - 
-    (m+1)/(b*n*p)*E^(-a*b*n*p/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  1/2^p*Int[ExpandIntegrand[x^m*(E^(a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) - 
-    E^(-a*b*n*p/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) -
-  b*n*x^(m+1)*Cos[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2+(m+1)^2]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) +
-  b*n*x^(m+1)*Sin[a+b*Log[c*x^n]]/(b^2*n^2+(m+1)^2) /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2+(m+1)^2]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) -
-  b*n*p*x^(m+1)*Cos[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+(m+1)^2) +
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Sin[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
-  b*n*p*x^(m+1)*Sin[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2+(m+1)^2) +
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Cos[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*Cot[a+b*Log[c*x^n]]*Sin[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
-  (m+1)*x^(m+1)*Sin[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (b^2*n^2*(p+2)^2+(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Sin[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+(m+1)^2]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x^(m+1)*Tan[a+b*Log[c*x^n]]*Cos[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
-  (m+1)*x^(m+1)*Cos[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (b^2*n^2*(p+2)^2+(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Cos[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2+(m+1)^2]
-
-
-Int[x_^m_.*Sin[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*(I*E^(-I*a)*(c*x^n)^(-I*b)-I*E^(I*a)*(c*x^n)^(I*b))^p/((m+1-I*b*n*p)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
-    Hypergeometric2F1[-p,(m+1-I*b*n*p)/(2*I*b*n),1+(m+1-I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Cos[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*(E^(-I*a)*(c*x^n)^(-I*b)+E^(I*a)*(c*x^n)^(I*b))^p/((m+1-I*b*n*p)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p)*
-    Hypergeometric2F1[-p,(m+1-I*b*n*p)/(2*I*b*n),1+(m+1-I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*E^(a*b*n)*Int[(c*x^n)^(1/n)/(E^(2*a*b*n)+(c*x^n)^(2/n)),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2+1]
-
-
-Int[Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*b*n*E^(a*b*n)*Int[(c*x^n)^(1/n)/(E^(2*a*b*n)-(c*x^n)^(2/n)),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2+1]
-
-
-Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x*Sec[a+b*Log[c*x^n]]^(p-2)/(p-1) + 
-  x*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2+1] && NeQ[p-1]
-
-
-Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x*Csc[a+b*Log[c*x^n]]^(p-2)/(p-1) - 
-  x*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2+1] && NeQ[p-1]
-
-
-Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  x*Sec[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2+1)/(b^2*n^2*(p-1)*(p-2))*Int[Sec[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+1]
-
-
-Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  x*Csc[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2+1)/(b^2*n^2*(p-1)*(p-2))*Int[Csc[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+1]
-
-
-Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -b*n*p*x*Sin[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+1) +
-  x*Sec[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+1)*Int[Sec[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  b*n*p*x*Cos[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+1) +
-  x*Csc[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+1) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+1)*Int[Csc[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  x*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(1+I*b*n*p)*
-    (E^(I*a)*(c*x^n)^(I*b)/(1+E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
-    Hypergeometric2F1[p,(1+I*b*n*p)/(2*I*b*n),1+(1+I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
-
-
-Int[Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  x*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(1+I*b*n*p)*
-    (-I*E^(I*a)*(c*x^n)^(I*b)/(1-E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
-    Hypergeometric2F1[p,(1+I*b*n*p)/(2*I*b*n),1+(1+I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2+1]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*E^(a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(2*a*b*n/(m+1))+(c*x^n)^(2*(m+1)/n)),x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2+(m+1)^2]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*b*n/(m+1)*E^(a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(2*a*b*n/(m+1))-(c*x^n)^(2*(m+1)/n)),x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2+(m+1)^2]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x^(m+1)*Sec[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) + 
-  x^(m+1)*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x^(m+1)*Csc[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) - 
-  x^(m+1)*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*Tan[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  (m+1)*x^(m+1)*Sec[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2+(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Sec[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+(m+1)^2]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x^(m+1)*Cot[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  (m+1)*x^(m+1)*Csc[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2+(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Csc[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2+(m+1)^2]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -b*n*p*x^(m+1)*Sin[a+b*Log[c*x^n]]*Sec[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+(m+1)^2) +
-  (m+1)*x^(m+1)*Sec[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Sec[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  b*n*p*x^(m+1)*Cos[a+b*Log[c*x^n]]*Csc[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2+(m+1)^2) +
-  (m+1)*x^(m+1)*Csc[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2+(m+1)^2) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2+(m+1)^2)*Int[x^m*Csc[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  x^(m+1)*(2+2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(m+1+I*b*n*p)*
-    (E^(I*a)*(c*x^n)^(I*b)/(1+E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
-    Hypergeometric2F1[p,(m+1+I*b*n*p)/(2*I*b*n),1+(m+1+I*b*n*p)/(2*I*b*n),-E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  x^(m+1)*(2-2*E^(2*I*a)*(c*x^n)^(2*I*b))^p/(m+1+I*b*n*p)*
-    (-I*E^(I*a)*(c*x^n)^(I*b)/(1-E^(2*I*a)*(c*x^n)^(2*I*b)))^p*
-    Hypergeometric2F1[p,(m+1+I*b*n*p)/(2*I*b*n),1+(m+1+I*b*n*p)/(2*I*b*n),E^(2*I*a)*(c*x^n)^(2*I*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2+(m+1)^2]
-
-
-Int[Sin[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  -Cos[a*x*Log[b*x]^p]/a -
-  p*Int[Sin[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b},x] && RationalQ[p] && p>0
-
-
-Int[Cos[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sin[a*x*Log[b*x]^p]/a -
-  p*Int[Cos[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b},x] && RationalQ[p] && p>0
-
-
-Int[Sin[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  -Cos[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) -
-  p/n*Int[Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
-  (n-1)/(a*n)*Int[Cos[a*x^n*Log[b*x]^p]/x^n,x] /;
-FreeQ[{a,b},x] && RationalQ[n,p] && p>0
-
-
-Int[Cos[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sin[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) -
-  p/n*Int[Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] +
-  (n-1)/(a*n)*Int[Sin[a*x^n*Log[b*x]^p]/x^n,x] /;
-FreeQ[{a,b},x] && RationalQ[n,p] && p>0
-
-
-Int[x_^m_.*Sin[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  -Cos[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
-
-
-Int[x_^m_.*Cos[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sin[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
-
-
-Int[x_^m_.*Sin[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  -x^(m-n+1)*Cos[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Sin[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] +
-  (m-n+1)/(a*n)*Int[x^(m-n)*Cos[a*x^n*Log[b*x]^p],x] /;
-FreeQ[{a,b,m,n},x] && RationalQ[p] && p>0 && NeQ[m-n+1]
-
-
-Int[x_^m_*Cos[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  x^(m-n+1)*Sin[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Cos[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
-  (m-n+1)/(a*n)*Int[x^(m-n)*Sin[a*x^n*Log[b*x]^p],x] /;
-FreeQ[{a,b,m,n},x] && RationalQ[p] && p>0 && NeQ[m-n+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*4.4.8 Active trig functions*)
-
-
-Int[Sin[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Sin[a*x]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[Cos[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Cos[a*x]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[Sin[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Sin[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
-
-
-Int[Cos[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Cos[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
-
-
-Int[Sin[u_]^n_.,x_Symbol] :=
-  Module[{lst=QuotientOfLinearsParts[u,x]},
-  Int[Sin[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
-PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
-
-
-Int[Cos[u_]^n_.,x_Symbol] :=
-  Module[{lst=QuotientOfLinearsParts[u,x]},
-  Int[Cos[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
-PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
-
-
-Int[u_.*Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
-  Int[u*Sin[v]^(p+q),x] /;
-EqQ[v-w]
-
-
-Int[u_.*Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
-  Int[u*Cos[v]^(p+q),x] /;
-EqQ[v-w]
-
-
-Int[Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Sin[v]^p*Sin[w]^q,x],x] /;
-(PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x]) && PositiveIntegerQ[p,q]
-
-
-Int[Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Cos[v]^p*Cos[w]^q,x],x] /;
-(PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x]) && PositiveIntegerQ[p,q]
-
-
-Int[x_^m_.*Sin[v_]^p_.*Sin[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Sin[v]^p*Sin[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[x_^m_.*Cos[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Cos[v]^p*Cos[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[u_.*Sin[v_]^p_.*Cos[w_]^p_.,x_Symbol] :=
-  1/2^p*Int[u*Sin[2*v]^p,x] /;
-EqQ[v-w] && IntegerQ[p]
-
-
-Int[Sin[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Sin[v]^p*Cos[w]^q,x],x] /;
-PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[x_^m_.*Sin[v_]^p_.*Cos[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Sin[v]^p*Cos[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[Sin[v_]*Tan[w_]^n_.,x_Symbol] :=
-  -Int[Cos[v]*Tan[w]^(n-1),x] + Cos[v-w]*Int[Sec[w]*Tan[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cos[v_]*Cot[w_]^n_.,x_Symbol] :=
-  -Int[Sin[v]*Cot[w]^(n-1),x] + Cos[v-w]*Int[Csc[w]*Cot[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sin[v_]*Cot[w_]^n_.,x_Symbol] :=
-  Int[Cos[v]*Cot[w]^(n-1),x] + Sin[v-w]*Int[Csc[w]*Cot[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cos[v_]*Tan[w_]^n_.,x_Symbol] :=
-  Int[Sin[v]*Tan[w]^(n-1),x] - Sin[v-w]*Int[Sec[w]*Tan[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sin[v_]*Sec[w_]^n_.,x_Symbol] :=
-  Cos[v-w]*Int[Tan[w]*Sec[w]^(n-1),x] + Sin[v-w]*Int[Sec[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cos[v_]*Csc[w_]^n_.,x_Symbol] :=
-  Cos[v-w]*Int[Cot[w]*Csc[w]^(n-1),x] - Sin[v-w]*Int[Csc[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sin[v_]*Csc[w_]^n_.,x_Symbol] :=
-  Sin[v-w]*Int[Cot[w]*Csc[w]^(n-1),x] + Cos[v-w]*Int[Csc[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cos[v_]*Sec[w_]^n_.,x_Symbol] :=
-  -Sin[v-w]*Int[Tan[w]*Sec[w]^(n-1),x] + Cos[v-w]*Int[Sec[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_+b_.*Sin[c_.+d_.*x_]*Cos[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[(e+f*x)^m*(a+b*Sin[2*c+2*d*x]/2)^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[x_^m_.*(a_+b_.*Sin[c_.+d_.*x_]^2)^n_,x_Symbol] :=
-  1/2^n*Int[x^m*(2*a+b-b*Cos[2*c+2*d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
-
-
-Int[x_^m_.*(a_+b_.*Cos[c_.+d_.*x_]^2)^n_,x_Symbol] :=
-  1/2^n*Int[x^m*(2*a+b+b*Cos[2*c+2*d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
-  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Sin[a+b*x^n]^p,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
-  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Cos[a+b*x^n]^p,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
-
-
-Int[(f_.+g_.*x_)^m_./(a_.+b_.*Cos[d_.+e_.*x_]^2+c_.*Sin[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(f_.+g_.*x_)^m_.*Sec[d_.+e_.*x_]^2/(b_+c_.*Tan[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
-FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*Sec[d_.+e_.*x_]^2/(b_.+a_.*Sec[d_.+e_.*x_]^2+c_.*Tan[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(f_.+g_.*x_)^m_.*Csc[d_.+e_.*x_]^2/(c_+b_.*Cot[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
-FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*Csc[d_.+e_.*x_]^2/(c_.+b_.*Cot[d_.+e_.*x_]^2+a_.*Csc[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b+c+(b-c)*Cos[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
-  -I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
-  Int[(e+f*x)^m*E^(I*(c+d*x))/(a-Rt[a^2-b^2,2]-I*b*E^(I*(c+d*x))),x] + 
-  Int[(e+f*x)^m*E^(I*(c+d*x))/(a+Rt[a^2-b^2,2]-I*b*E^(I*(c+d*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && PosQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
-  I*(e+f*x)^(m+1)/(b*f*(m+1)) - 
-  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(a-Rt[a^2-b^2,2]+b*E^(I*(c+d*x))),x] - 
-  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(a+Rt[a^2-b^2,2]+b*E^(I*(c+d*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && PosQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
-  -I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
-  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a-Rt[-a^2+b^2,2]+b*E^(I*(c+d*x))),x] + 
-  I*Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a+Rt[-a^2+b^2,2]+b*E^(I*(c+d*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NegQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
-  I*(e+f*x)^(m+1)/(b*f*(m+1)) + 
-  Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a-Rt[-a^2+b^2,2]+I*b*E^(I*(c+d*x))),x] + 
-  Int[(e+f*x)^m*E^(I*(c+d*x))/(I*a+Rt[-a^2+b^2,2]+I*b*E^(I*(c+d*x))),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NegQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]^n_/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
-  1/a*Int[(e+f*x)^m*Cos[c+d*x]^(n-2),x] - 
-  1/b*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)*Sin[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]^n_/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
-  1/a*Int[(e+f*x)^m*Sin[c+d*x]^(n-2),x] - 
-  1/b*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)*Cos[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Cos[c_.+d_.*x_]^n_/(a_+b_.*Sin[c_.+d_.*x_]),x_Symbol] :=
-  a/b^2*Int[(e+f*x)^m*Cos[c+d*x]^(n-2),x] - 
-  1/b*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)*Sin[c+d*x],x] - 
-  (a^2-b^2)/b^2*Int[(e+f*x)^m*Cos[c+d*x]^(n-2)/(a+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sin[c_.+d_.*x_]^n_/(a_+b_.*Cos[c_.+d_.*x_]),x_Symbol] :=
-  a/b^2*Int[(e+f*x)^m*Sin[c+d*x]^(n-2),x] - 
-  1/b*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)*Cos[c+d*x],x] - 
-  (a^2-b^2)/b^2*Int[(e+f*x)^m*Sin[c+d*x]^(n-2)/(a+b*Cos[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)*(A_+B_.*Sin[c_.+d_.*x_])/(a_+b_.*Sin[c_.+d_.*x_])^2,x_Symbol] :=
-  -B*(e+f*x)*Cos[c+d*x]/(a*d*(a+b*Sin[c+d*x])) +
-  B*f/(a*d)*Int[Cos[c+d*x]/(a+b*Sin[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
-
-
-Int[(e_.+f_.*x_)*(A_+B_.*Cos[c_.+d_.*x_])/(a_+b_.*Cos[c_.+d_.*x_])^2,x_Symbol] :=
-  B*(e+f*x)*Sin[c+d*x]/(a*d*(a+b*Cos[c+d*x])) -
-  B*f/(a*d)*Int[Sin[c+d*x]/(a+b*Cos[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
-
-
-Int[(g_.+h_.*x_)^p_.*(a_+b_.*Sin[e_.+f_.*x_])^m_.*(c_+d_.*Sin[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*c^m*Int[(g+h*x)^p*Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[m] && IGeQ[n-m,0]
-
-
-Int[(g_.+h_.*x_)^p_.*(a_+b_.*Cos[e_.+f_.*x_])^m_.*(c_+d_.*Cos[e_.+f_.*x_])^n_.,x_Symbol] :=
-  a^m*c^m*Int[(g+h*x)^p*Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[m] && IGeQ[n-m,0]
-
-
-Int[(g_.+h_.*x_)^p_.*(a_+b_.*Sin[e_.+f_.*x_])^m_*(c_+d_.*Sin[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Sin[e+f*x])^FracPart[m]*(c+d*Sin[e+f*x])^FracPart[m]/Cos[e+f*x]^(2*FracPart[m])*
-    Int[(g+h*x)^p*Cos[e+f*x]^(2*m)*(c+d*Sin[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[2*m] && IGeQ[n-m,0]
-
-
-Int[(g_.+h_.*x_)^p_.*(a_+b_.*Cos[e_.+f_.*x_])^m_*(c_+d_.*Cos[e_.+f_.*x_])^n_,x_Symbol] :=
-  a^IntPart[m]*c^IntPart[m]*(a+b*Cos[e+f*x])^FracPart[m]*(c+d*Cos[e+f*x])^FracPart[m]/Sin[e+f*x]^(2*FracPart[m])*
-    Int[(g+h*x)^p*Sin[e+f*x]^(2*m)*(c+d*Cos[e+f*x])^(n-m),x] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && EqQ[b*c+a*d,0] && EqQ[a^2-b^2,0] && IntegerQ[p] && IntegerQ[2*m] && IGeQ[n-m,0]
-
-
-Int[Sec[v_]^m_.*(a_+b_.*Tan[v_])^n_., x_Symbol] :=
-  Int[(a*Cos[v]+b*Sin[v])^n,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
-
-
-Int[Csc[v_]^m_.*(a_+b_.*Cot[v_])^n_., x_Symbol] :=
-  Int[(b*Cos[v]+a*Sin[v])^n,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
-
-
-Int[u_.*Sin[a_.+b_.*x_]^m_.*Sin[c_.+d_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[u,Sin[a+b*x]^m*Sin[c+d*x]^n,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
-
-
-Int[u_.*Cos[a_.+b_.*x_]^m_.*Cos[c_.+d_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[u,Cos[a+b*x]^m*Cos[c+d*x]^n,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
-
-
-Int[Sec[a_.+b_.*x_]*Sec[c_+d_.*x_],x_Symbol] :=
-  -Csc[(b*c-a*d)/d]*Int[Tan[a+b*x],x] + Csc[(b*c-a*d)/b]*Int[Tan[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Csc[a_.+b_.*x_]*Csc[c_+d_.*x_],x_Symbol] :=
-  Csc[(b*c-a*d)/b]*Int[Cot[a+b*x],x] - Csc[(b*c-a*d)/d]*Int[Cot[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Tan[a_.+b_.*x_]*Tan[c_+d_.*x_],x_Symbol] :=
-  -b*x/d + b/d*Cos[(b*c-a*d)/d]*Int[Sec[a+b*x]*Sec[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Cot[a_.+b_.*x_]*Cot[c_+d_.*x_],x_Symbol] :=
-  -b*x/d + Cos[(b*c-a*d)/d]*Int[Csc[a+b*x]*Csc[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[u_.*(a_.*Cos[v_]+b_.*Sin[v_])^n_.,x_Symbol] :=
-  Int[u*(a*E^(-a/b*v))^n,x] /;
-FreeQ[{a,b,n},x] && EqQ[a^2+b^2]
-
-
-
-`)
 
-func resourcesRubi44MiscellaneousTrigFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi44MiscellaneousTrigFunctionsM, nil
-}
+RuleName[name_] :=
+ (AppendTo[$RuleNameList,name]; Null)
 
-func resourcesRubi44MiscellaneousTrigFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi44MiscellaneousTrigFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
 
-	info := bindataFileInfo{name: "resources/rubi/4.4 Miscellaneous trig functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+(* ::Subsection::Closed:: *)
+(*FixIntRules[rulelist]*)
 
-var _resourcesRubi5InverseTrigFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Inverse Trig Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.1 (a+b arcsin(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcSin[c*x])^n - 
-  b*c*n*Int[x*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcCos[c*x])^n + 
-  b*c*n*Int[x*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
-  c/(b*(n+1))*Int[x*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
-  c/(b*(n+1))*Int[x*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  1/(b*c)*Subst[Int[x^n*Cos[a/b-x/b],x],x,a+b*ArcSin[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  1/(b*c)*Subst[Int[x^n*Sin[a/b-x/b],x],x,a+b*ArcCos[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.2 (d x)^m (a+b arcsin(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./x_,x_Symbol] :=
-  Subst[Int[(a+b*x)^n/Tan[x],x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./x_,x_Symbol] :=
-  -Subst[Int[(a+b*x)^n/Cot[x],x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*ArcSin[c*x])^n/(d*(m+1)) - 
-  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*ArcCos[c*x])^n/(d*(m+1)) + 
-  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcSin[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcCos[c*x])^n/(m+1) + 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Sin[x]^(m-1)*(m-(m+1)*Sin[x]^2),x],x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -x^m*Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
-  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Cos[x]^(m-1)*(m-(m+1)*Cos[x]^2),x],x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[1-c^2*x^2]*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] + 
-  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcSin[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
-
-
-Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -x^m*Sqrt[1-c^2*x^2]*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
-  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] - 
-  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcCos[c*x])^(n+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
-
-
-Int[x_^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m*Cos[x],x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m*Sin[x],x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,m,n},x]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,m,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.3 (d+e x^2)^p (a+b arcsin(c x))^n*)
-
-
-(* Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n,x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] *)
-
-
-(* Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n,x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] *)
-
-
-Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])),x_Symbol] :=
-  Log[a+b*ArcSin[c*x]]/(b*c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])),x_Symbol] :=
-  -Log[a+b*ArcCos[c*x]]/(b*c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && Not[PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^p/(2*p+1)*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^p/(2*p+1)*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  x*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/2 - 
-  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[x*(a+b*ArcSin[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  x*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/2 + 
-  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[x*(a+b*ArcCos[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/(2*Sqrt[1-c^2*x^2])*Int[(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcSin[c*x])^n/(d*Sqrt[d+e*x^2]) - 
-  b*c*n/Sqrt[d]*Int[x*(a+b*ArcSin[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcCos[c*x])^n/(d*Sqrt[d+e*x^2]) + 
-  b*c*n/Sqrt[d]*Int[x*(a+b*ArcCos[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcSin[c*x])^n/(d*Sqrt[d+e*x^2]) - 
-  b*c*n*Sqrt[1-c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcSin[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcCos[c*x])^n/(d*Sqrt[d+e*x^2]) + 
-  b*c*n*Sqrt[1-c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcCos[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*c*n*d^p/(2*(p+1))*Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*c*n*d^p/(2*(p+1))*Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[x*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/(c*d)*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -1/(c*d)*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  d^p*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
-  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -d^p*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) + 
-  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1-c^2*x^2)^FracPart[p])*
-     Int[x*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c*Subst[Int[(a+b*x)^n*Cos[x]^(2*p+1),x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -d^p/c*Subst[Int[(a+b*x)^n*Sin[x]^(2*p+1),x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n,(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n,(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(d*f+e*g*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(d*f+e*g*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.4 (f x)^m (d+e x^2)^p (a+b arcsin(c x))^n*)
-
-
-Int[x_*(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -1/e*Subst[Int[(a+b*x)^n*Tan[x],x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Subst[Int[(a+b*x)^n*Cot[x],x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) + 
-  b*n*d^p/(2*c*(p+1))*Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
-  b*n*d^p/(2*c*(p+1))*Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) + 
-  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
-  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  1/d*Subst[Int[(a+b*x)^n/(Cos[x]*Sin[x]),x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  -1/d*Subst[Int[(a+b*x)^n/(Cos[x]*Sin[x]),x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])/x_,x_Symbol] :=
-  (d+e*x^2)^p*(a+b*ArcSin[c*x])/(2*p) - 
-  b*c*d^p/(2*p)*Int[(1-c^2*x^2)^(p-1/2),x] + 
-  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])/x,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])/x_,x_Symbol] :=
-  (d+e*x^2)^p*(a+b*ArcCos[c*x])/(2*p) + 
-  b*c*d^p/(2*p)*Int[(1-c^2*x^2)^(p-1/2),x] + 
-  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])/x,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])/(f*(m+1)) - 
-  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2),x] - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])/(f*(m+1)) + 
-  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2),x] - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},  
-  Dist[d^p*(a+b*ArcSin[c*x]),u,x] - b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
-  p!=-1/2 && PositiveQ[d]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},  
-  Dist[d^p*(a+b*ArcCos[c*x]),u,x] + b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
-  p!=-1/2 && PositiveQ[d]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},
-  (a+b*ArcSin[c*x])*Int[x^m*(d+e*x^2)^p,x] - 
-  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1-c^2*x^2)^p,x]},
-  (a+b*ArcCos[c*x])*Int[x^m*(d+e*x^2)^p,x] + 
-  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1-c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1),x] + 
-  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(f*(m+1)) + 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1),x] + 
-  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(f*(m+2)) - 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/((m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^m*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(f*(m+2)) + 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/((m+2)*Sqrt[1-c^2*x^2])*Int[(f*x)^m*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (RationalQ[m] || EqQ[n-1])
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(d*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(d*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[m] || IntegerQ[p] || n==1)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[m] || IntegerQ[p] || n==1)
-
-
-(* Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(e*m) + 
-  b*f*n/(c*m*Sqrt[d])*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSin[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
-
-
-(* Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(e*m) - 
-  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcCos[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n/(e*m) + 
-  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSin[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n/(e*m) - 
-  b*f*n*Sqrt[1-c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcCos[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
-
-
-Int[x_^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Sin[x]^m,x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Cos[x]^m,x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f*x)^(m+1)*(a+b*ArcSin[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/(Sqrt[d]*f*(m+1)) - 
-  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f*x)^(m+1)*(a+b*ArcCos[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/(Sqrt[d]*f*(m+1)) + 
-  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSin[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcCos[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(e*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] + 
-  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
-  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(e*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] - 
-  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
-  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])^n/(e*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] + 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])^n/(e*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] - 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f*x)^m*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && PositiveQ[d]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -(f*x)^m*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
-  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && PositiveQ[d]
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] + 
-  c*(m+2*p+1)*d^p/(b*f*(n+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] - 
-  c*(m+2*p+1)*d^p/(b*f*(n+1))*Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSin[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] + 
-  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -(f*x)^m*Sqrt[1-c^2*x^2]*(d+e*x^2)^p*(a+b*ArcCos[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] - 
-  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1-c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1-c^2*x^2)^(p-1/2)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m*Cos[x]^(2*p+1),x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m*Sin[x]^(2*p+1),x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
-  IntegerQ[m] && -3<m<0
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
-  IntegerQ[m] && -3<m<0
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSin[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCos[c*x])/(2*e*(p+1)) + b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
-
-
-Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2-g^2] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.5 u (a+b arcsin(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSin[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  Subst[Int[(a+b*x)^n*Cos[x]/(c*d+e*Sin[x]),x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCos[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  -Subst[Int[(a+b*x)^n*Sin[x]/(c*d+e*Cos[x]),x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*ArcSin[c*x])^n/(e*(m+1)) - 
-  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*ArcCos[c*x])^n/(e*(m+1)) + 
-  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]*(c*d+e*Sin[x])^m,x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]*(c*d+e*Cos[x])^m,x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
-
-
-Int[Px_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[ExpandExpression[Px,x],x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[ExpandExpression[Px,x],x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
-
-
-(* Int[Px_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=IntHide[Px,x]},  
-  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
-
-
-(* Int[Px_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=IntHide[Px,x]},  
-  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
-
-
-Int[Px_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[Px*(d+e*x)^m,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[Px*(d+e*x)^m,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
-
-
-Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
-  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
-
-
-Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
-  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
-
-
-Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
-  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
-  Dist[(a+b*ArcSin[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSin[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
-
-
-Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
-  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
-  Dist[(a+b*ArcCos[c*x])^n,u,x] + b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCos[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
-
-
-Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
-  (m<-2*p-1 || m>3)
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
-  (m<-2*p-1 || m>3)
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
-  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
-  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
-
-
-Int[(f_+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d+e*x^2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -(f+g*x)^m*(d+e*x^2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
-  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcSin[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcCos[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  1/(b*c*Sqrt[d]*(n+1))*
-    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  -(f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
-  1/(b*c*Sqrt[d]*(n+1))*
-    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f+g*x)^m*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcSin[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -(f+g*x)^m*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcCos[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Sin[x])^m,x],x,ArcSin[c*x]] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Cos[x])^m,x],x,ArcCos[c*x]] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSin[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCos[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*d+e] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcSin[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Log[h*(f+g*x)^m]*(a+b*ArcSin[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcSin[c*x])^(n+1)/(f+g*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcCos[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -Log[h*(f+g*x)^m]*(a+b*ArcCos[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) + 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcCos[c*x])^(n+1)/(f+g*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[c^2*d+e] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1-c^2*x^2)^p*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1-c^2*x^2)^p*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
-  Dist[a+b*ArcSin[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
-  Dist[a+b*ArcCos[c*x],u,x] + b*c*Int[Dist[1/Sqrt[1-c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^m*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(f+g*x)^m*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
-
-
-Int[u_*(a_.+b_.*ArcSin[c_.*x_]),x_Symbol] :=
-  With[{v=IntHide[u,x]},  
-  Dist[a+b*ArcSin[c*x],v,x] - b*c*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
- InverseFunctionFreeQ[v,x]] /;
-FreeQ[{a,b,c},x]
-
-
-Int[u_*(a_.+b_.*ArcCos[c_.*x_]),x_Symbol] :=
-  With[{v=IntHide[u,x]},  
-  Dist[a+b*ArcCos[c*x],v,x] + b*c*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
- InverseFunctionFreeQ[v,x]] /;
-FreeQ[{a,b,c},x]
-
-
-Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcSin[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcCos[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcSin[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
-
-
-Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcCos[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[c^2*d+e] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
-
-
-Int[RFx_*ArcSin[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[ArcSin[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*ArcCos[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[ArcCos[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[RFx*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[RFx*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*ArcSin[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcSin[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*ArcCos[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcCos[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcSin[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcCos[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[u_.*(a_.+b_.*ArcSin[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][u*(a+b*ArcSin[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[u_.*(a_.+b_.*ArcCos[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][u*(a+b*ArcCos[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.1.6 Miscellaneous inverse sine*)
-(**)
-
-
-Int[(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcSin[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,n},x]
-
-
-Int[(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcCos[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,n},x]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSin[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcSin[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCos[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCos[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[Sqrt[a_.+b_.*ArcSin[c_+d_.*x_^2]],x_Symbol] :=
-  x*Sqrt[a+b*ArcSin[c+d*x^2]] - 
-  Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelC[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Sqrt[c/b]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) + 
-  Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelS[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Sqrt[c/b]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
-
-
-Int[Sqrt[a_.+b_.*ArcCos[1+d_.*x_^2]],x_Symbol] :=
-  -2*Sqrt[a+b*ArcCos[1+d*x^2]]*Sin[ArcCos[1+d*x^2]/2]^2/(d*x) - 
-  2*Sqrt[Pi]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(Sqrt[1/b]*d*x) + 
-  2*Sqrt[Pi]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(Sqrt[1/b]*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[Sqrt[a_.+b_.*ArcCos[-1+d_.*x_^2]],x_Symbol] :=
-  2*Sqrt[a+b*ArcCos[-1+d*x^2]]*Cos[(1/2)*ArcCos[-1+d*x^2]]^2/(d*x) - 
-  2*Sqrt[Pi]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(Sqrt[1/b]*d*x) - 
-  2*Sqrt[Pi]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(Sqrt[1/b]*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[(a_.+b_.*ArcSin[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcSin[c+d*x^2])^n + 
-  2*b*n*Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcSin[c+d*x^2])^(n-1)/(d*x) - 
-  4*b^2*n*(n-1)*Int[(a+b*ArcSin[c+d*x^2])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
-
-
-Int[(a_.+b_.*ArcCos[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcCos[c+d*x^2])^n - 
-  2*b*n*Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcCos[c+d*x^2])^(n-1)/(d*x) - 
-  4*b^2*n*(n-1)*Int[(a+b*ArcCos[c+d*x^2])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
-
-
-Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2]),x_Symbol] :=
-  -x*(c*Cos[a/(2*b)]-Sin[a/(2*b)])*CosIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
-    (2*b*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) - 
-  x*(c*Cos[a/(2*b)]+Sin[a/(2*b)])*SinIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
-    (2*b*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
-
-
-Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2]),x_Symbol] :=
-  x*Cos[a/(2*b)]*CosIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[-d*x^2]) + 
-  x*Sin[a/(2*b)]*SinIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[-d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2]),x_Symbol] :=
-  x*Sin[a/(2*b)]*CosIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) - 
-  x*Cos[a/(2*b)]*SinIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/Sqrt[a_.+b_.*ArcSin[c_+d_.*x_^2]],x_Symbol] :=
-  -Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelC[1/(Sqrt[b*c]*Sqrt[Pi])*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Sqrt[b*c]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) - 
-  Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelS[(1/(Sqrt[b*c]*Sqrt[Pi]))*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Sqrt[b*c]*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
-
-
-Int[1/Sqrt[a_.+b_.*ArcCos[1+d_.*x_^2]],x_Symbol] :=
-  -2*Sqrt[Pi/b]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) - 
-   2*Sqrt[Pi/b]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/Sqrt[a_.+b_.*ArcCos[-1+d_.*x_^2]],x_Symbol] :=
-  2*Sqrt[Pi/b]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) - 
-  2*Sqrt[Pi/b]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2])^(3/2),x_Symbol] :=
-  -Sqrt[-2*c*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcSin[c+d*x^2]]) - 
-  (c/b)^(3/2)*Sqrt[Pi]*x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*FresnelC[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Cos[(1/2)*ArcSin[c+d*x^2]]-c*Sin[ArcSin[c+d*x^2]/2]) + 
-  (c/b)^(3/2)*Sqrt[Pi]*x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*FresnelS[Sqrt[c/(Pi*b)]*Sqrt[a+b*ArcSin[c+d*x^2]]]/
-    (Cos[(1/2)*ArcSin[c+d*x^2]]-c*Sin[ArcSin[c+d*x^2]/2]) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
-
-
-Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2])^(3/2),x_Symbol] :=
-  Sqrt[-2*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcCos[1+d*x^2]]) - 
-  2*(1/b)^(3/2)*Sqrt[Pi]*Sin[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) + 
-  2*(1/b)^(3/2)*Sqrt[Pi]*Cos[a/(2*b)]*Sin[ArcCos[1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2])^(3/2),x_Symbol] :=
-  Sqrt[2*d*x^2-d^2*x^4]/(b*d*x*Sqrt[a+b*ArcCos[-1+d*x^2]]) - 
-  2*(1/b)^(3/2)*Sqrt[Pi]*Cos[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelC[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) - 
-  2*(1/b)^(3/2)*Sqrt[Pi]*Sin[a/(2*b)]*Cos[ArcCos[-1+d*x^2]/2]*FresnelS[Sqrt[1/(Pi*b)]*Sqrt[a+b*ArcCos[-1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcSin[c_+d_.*x_^2])^2,x_Symbol] :=
-  -Sqrt[-2*c*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcSin[c+d*x^2])) - 
-  x*(Cos[a/(2*b)]+c*Sin[a/(2*b)])*CosIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
-    (4*b^2*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) + 
-  x*(Cos[a/(2*b)]-c*Sin[a/(2*b)])*SinIntegral[(c/(2*b))*(a+b*ArcSin[c+d*x^2])]/
-    (4*b^2*(Cos[ArcSin[c+d*x^2]/2]-c*Sin[ArcSin[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1]
-
-
-Int[1/(a_.+b_.*ArcCos[1+d_.*x_^2])^2,x_Symbol] :=
-  Sqrt[-2*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcCos[1+d*x^2])) + 
-  x*Sin[a/(2*b)]*CosIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[(-d)*x^2]) - 
-  x*Cos[a/(2*b)]*SinIntegral[(a+b*ArcCos[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[(-d)*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCos[-1+d_.*x_^2])^2,x_Symbol] :=
-  Sqrt[2*d*x^2-d^2*x^4]/(2*b*d*x*(a+b*ArcCos[-1+d*x^2])) - 
-  x*Cos[a/(2*b)]*CosIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) - 
-  x*Sin[a/(2*b)]*SinIntegral[(a+b*ArcCos[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[(a_.+b_.*ArcSin[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcSin[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
-  Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcSin[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) - 
-  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcSin[c+d*x^2])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[(a_.+b_.*ArcCos[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcCos[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) - 
-  Sqrt[-2*c*d*x^2-d^2*x^4]*(a+b*ArcCos[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) - 
-  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcCos[c+d*x^2])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[ArcSin[a_.*x_^p_]^n_./x_,x_Symbol] :=
-  1/p*Subst[Int[x^n*Cot[x],x],x,ArcSin[a*x^p]] /;
-FreeQ[{a,p},x] && PositiveIntegerQ[n]
-
-
-Int[ArcCos[a_.*x_^p_]^n_./x_,x_Symbol] :=
-  -1/p*Subst[Int[x^n*Tan[x],x],x,ArcCos[a*x^p]] /;
-FreeQ[{a,p},x] && PositiveIntegerQ[n]
-
-
-Int[u_.*ArcSin[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCsc[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCos[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcSec[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[ArcSin[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
-  Sqrt[-b*x^2]/(b*x)*Subst[Int[ArcSin[x]^n/Sqrt[1-x^2],x],x,Sqrt[1+b*x^2]] /;
-FreeQ[{b,n},x]
-
-
-Int[ArcCos[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
-  Sqrt[-b*x^2]/(b*x)*Subst[Int[ArcCos[x]^n/Sqrt[1-x^2],x],x,Sqrt[1+b*x^2]] /;
-FreeQ[{b,n},x]
-
-
-Int[u_.*f_^(c_.*ArcSin[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[ReplaceAll[u,x->-a/b+Sin[x]/b]*f^(c*x^n)*Cos[x],x],x,ArcSin[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[u_.*f_^(c_.*ArcCos[a_.+b_.*x_]^n_.),x_Symbol] :=
-  -1/b*Subst[Int[ReplaceAll[u,x->-a/b+Cos[x]/b]*f^(c*x^n)*Sin[x],x],x,ArcCos[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[ArcSin[a_.*x_^2+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
-  x*ArcSin[a*x^2+b*Sqrt[c+d*x^2]] - 
-  x*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]/Sqrt[(-x^2)*(b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2])]*
-    Int[x*(b*d+2*a*Sqrt[c+d*x^2])/(Sqrt[c+d*x^2]*Sqrt[b^2*d +a^2*x^2+2*a*b*Sqrt[c+d*x^2]]),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2*c,1]
-
-
-Int[ArcCos[a_.*x_^2+b_.*Sqrt[c_+d_.*x_^2]],x_Symbol] :=
-  x*ArcCos[a*x^2+b*Sqrt[c+d*x^2]] + 
-  x*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]/Sqrt[(-x^2)*(b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2])]*
-    Int[x*(b*d+2*a*Sqrt[c+d*x^2])/(Sqrt[c+d*x^2]*Sqrt[b^2*d+a^2*x^2+2*a*b*Sqrt[c+d*x^2]]),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2*c,1]
-
-
-Int[ArcSin[u_],x_Symbol] :=
-  x*ArcSin[u] -
-  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1-u^2],x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[ArcCos[u_],x_Symbol] :=
-  x*ArcCos[u] +
-  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1-u^2],x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSin[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcSin[u])/(d*(m+1)) -
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1-u^2],x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCos[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCos[u])/(d*(m+1)) +
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1-u^2],x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[v_*(a_.+b_.*ArcSin[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcSin[u]),w,x] -
-  b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1-u^2],x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-Int[v_*(a_.+b_.*ArcCos[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCos[u]),w,x] +
-  b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1-u^2],x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.2.1 u (a+b arctan(c x))^n*)
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcTan[c*x])^n -
-  b*c*n*Int[x*(a+b*ArcTan[c*x])^(n-1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcCot[c*x])^n +
-  b*c*n*Int[x*(a+b*ArcCot[c*x])^(n-1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  -(a+b*ArcTan[c*x])^n*Log[2*d/(d+e*x)]/e +
-  b*c*n/e*Int[(a+b*ArcTan[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  -(a+b*ArcCot[c*x])^n*Log[2*d/(d+e*x)]/e -
-  b*c*n/e*Int[(a+b*ArcCot[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
-
-
-Int[ArcTan[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
-  -ArcTan[c*d/e]*Log[d+e*x]/e + I*PolyLog[2,Simp[I*c*(d+e*x)/(I*c*d-e),x]]/(2*e) - I*PolyLog[2,Simp[I*c*(d+e*x)/(I*c*d+e),x]]/(2*e) /;
-FreeQ[{c,d,e},x] && PositiveQ[I*c*d/e+1] && NegativeQ[I*c*d/e-1]
-
-
-(* Int[ArcCot[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
-  ? /;
-FreeQ[{c,d,e},x] && PositiveQ[I*c*d/e+1] && NegativeQ[I*c*d/e-1] *)
-
-
-Int[ArcTan[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
-  I/2*Int[Log[1-I*c*x]/(d+e*x),x] - I/2*Int[Log[1+I*c*x]/(d+e*x),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[ArcCot[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
-  I/2*Int[Log[1-I/(c*x)]/(d+e*x),x] - I/2*Int[Log[1+I/(c*x)]/(d+e*x),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[(a_+b_.*ArcTan[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
-  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcTan[c*x]/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(a_+b_.*ArcCot[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
-  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcCot[c*x]/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  (d+e*x)^(p+1)*(a+b*ArcTan[c*x])/(e*(p+1)) - 
-  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  (d+e*x)^(p+1)*(a+b*ArcCot[c*x])/(e*(p+1)) + 
-  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_/x_,x_Symbol] :=
-  2*(a+b*ArcTan[c*x])^n*ArcTanh[1-2*I/(I-c*x)] -
-  2*b*c*n*Int[(a+b*ArcTan[c*x])^(n-1)*ArcTanh[1-2*I/(I-c*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_/x_,x_Symbol] :=
-  2*(a+b*ArcCot[c*x])^n*ArcCoth[1-2*I/(I-c*x)] +
-  2*b*c*n*Int[(a+b*ArcCot[c*x])^(n-1)*ArcCoth[1-2*I/(I-c*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcTan[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTan[c*x])^(n-1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcCot[c*x])^n/(m+1) + 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCot[c*x])^(n-1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
-
-
-Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcTan[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
-
-
-Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcCot[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/e*Int[x^(m-1)*(a+b*ArcTan[c*x])^n,x] -
-  d/e*Int[x^(m-1)*(a+b*ArcTan[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/e*Int[x^(m-1)*(a+b*ArcCot[c*x])^n,x] -
-  d/e*Int[x^(m-1)*(a+b*ArcCot[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
-  (a+b*ArcTan[c*x])^n*Log[2*e*x/(d+e*x)]/d - 
-  b*c*n/d*Int[(a+b*ArcTan[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
-  (a+b*ArcCot[c*x])^n*Log[2*e*x/(d+e*x)]/d +
-  b*c*n/d*Int[(a+b*ArcCot[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n]
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
-  e/d*Int[x^(m+1)*(a+b*ArcTan[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
-  e/d*Int[x^(m+1)*(a+b*ArcCot[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2+e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcTan[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
-
-
-Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcCot[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
-
-
-Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcTan[c*x])/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcCot[c*x])/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  -b*n*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] + 
-  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p>0 && n>1
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  b*n*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] + 
-  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p>0 && n>1
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcTan[c_.*x_])),x_Symbol] :=
-  Log[RemoveContent[a+b*ArcTan[c*x],x]]/(b*c*d) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCot[c_.*x_])),x_Symbol] :=
-  -Log[RemoveContent[a+b*ArcCot[c*x],x]]/(b*c*d) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -2*I*(a+b*ArcTan[c*x])*ArcTan[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) + 
-  I*b*PolyLog[2,-I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) - 
-  I*b*PolyLog[2,I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -2*I*(a+b*ArcCot[c*x])*ArcTan[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) - 
-  I*b*PolyLog[2,-I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) + 
-  I*b*PolyLog[2,I*Sqrt[1+I*c*x]/Sqrt[1-I*c*x]]/(c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcTan[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -x*Sqrt[1+1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTan[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCot[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcTan[c*x])^n/(2*d*(d+e*x^2)) + 
-  (a+b*ArcTan[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
-  b*c*n/2*Int[x*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcCot[c*x])^n/(2*d*(d+e*x^2)) - 
-  (a+b*ArcCot[c*x])^(n+1)/(2*b*c*d^2*(n+1)) + 
-  b*c*n/2*Int[x*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  b/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcTan[c*x])/(d*Sqrt[d+e*x^2]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcCot[c*x])/(d*Sqrt[d+e*x^2]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-3/2
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  b*n*(a+b*ArcTan[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcTan[c*x])^n/(d*Sqrt[d+e*x^2]) -
-  b^2*n*(n-1)*Int[(a+b*ArcTan[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>1
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b*n*(a+b*ArcCot[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcCot[c*x])^n/(d*Sqrt[d+e*x^2]) -
-  b^2*n*(n-1)*Int[(a+b*ArcCot[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  b*n*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n-1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
-  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n-1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
-  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  -(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && p<-1 && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c*Subst[Int[(a+b*x)^n/Cos[x]^(2*(p+1)),x],x,ArcTan[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  d^(p+1/2)*Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(1+c^2*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  -d^p/c*Subst[Int[(a+b*x)^n/Sin[x]^(2*(p+1)),x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  -d^(p+1/2)*x*Sqrt[(1+c^2*x^2)/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n/Sin[x]^(2*(p+1)),x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p]]
-
-
-Int[ArcTan[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
-  I/2*Int[Log[1-I*c*x]/(d+e*x^2),x] - I/2*Int[Log[1+I*c*x]/(d+e*x^2),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[ArcCot[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
-  I/2*Int[Log[1-I/(c*x)]/(d+e*x^2),x] - I/2*Int[Log[1+I/(c*x)]/(d+e*x^2),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[(a_+b_.*ArcTan[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
-  a*Int[1/(d+e*x^2),x] + b*Int[ArcTan[c*x]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(a_+b_.*ArcCot[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
-  a*Int[1/(d+e*x^2),x] + b*Int[ArcCot[c*x]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -I*(a+b*ArcTan[c*x])^(n+1)/(b*e*(n+1)) - 
-  1/(c*d)*Int[(a+b*ArcTan[c*x])^n/(I-c*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  I*(a+b*ArcCot[c*x])^(n+1)/(b*e*(n+1)) - 
-  1/(c*d)*Int[(a+b*ArcCot[c*x])^n/(I-c*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  x*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  1/(b*c*d*(n+1))*Int[(a+b*ArcTan[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
-
-
-Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  -x*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  1/(b*c*d*(n+1))*Int[(a+b*ArcCot[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  -I*(a+b*ArcTan[c*x])^(n+1)/(b*d*(n+1)) +
-  I/d*Int[(a+b*ArcTan[c*x])^n/(x*(I+c*x)),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  I*(a+b*ArcCot[c*x])^(n+1)/(b*d*(n+1)) +
-  I/d*Int[(a+b*ArcCot[c*x])^n/(x*(I+c*x)),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTan[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCot[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  x^m*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcTan[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  -x^m*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcCot[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcTan[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcTan[c*x]),x^m/(d+e*x^2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCot[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCot[c*x]),x^m/(d+e*x^2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(2*e*(p+1)) - 
-  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(2*e*(p+1)) +
-  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(a_.+b_.*ArcTan[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) -
-  (1-c^2*x^2)*(a+b*ArcTan[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) -
-  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcTan[c*x])^(n+2)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[x_*(a_.+b_.*ArcCot[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
-  -x*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) -
-  (1-c^2*x^2)*(a+b*ArcCot[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) -
-  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcCot[c*x])^(n+2)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) + 
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*c^2*d*(p+1)) - 
-  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-5/2
-
-
-Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) + 
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*c^2*d*(p+1)) - 
-  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[p] && p<-1 && p!=-5/2
-
-
-Int[x_^2*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  (a+b*ArcTan[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) - 
-  x*(a+b*ArcTan[c*x])^n/(2*c^2*d*(d+e*x^2)) + 
-  b*n/(2*c)*Int[x*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[x_^2*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  -(a+b*ArcCot[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) - 
-  x*(a+b*ArcCot[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
-  b*n/(2*c)*Int[x*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) - 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(c^2*d*m) + 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) - 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(c^2*d*m) + 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n-1)/(c*d*m^2) - 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(c^2*d*m) - 
-  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-2),x] + 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n-1)/(c*d*m^2) - 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(c^2*d*m) - 
-  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-2),x] + 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_,x_Symbol] :=
-  -x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n/(d*(m+1)) + 
-  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[e-c^2*d] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
-
-
-Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])/(m+2) - 
-  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
-  d/(m+2)*Int[x^m*(a+b*ArcTan[c*x])/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && NeQ[m+2]
-
-
-Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])/(m+2) + 
-  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
-  d/(m+2)*Int[x^m*(a+b*ArcCot[c*x])/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && NeQ[m+2]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] + 
-  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] + 
-  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[e-c^2*d] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(c^2*d*m) - 
-  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcTan[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
-  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcTan[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(c^2*d*m) + 
-  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcCot[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
-  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcCot[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -2/Sqrt[d]*(a+b*ArcTan[c*x])*ArcTanh[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] + 
-  I*b/Sqrt[d]*PolyLog[2,-Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] - 
-  I*b/Sqrt[d]*PolyLog[2,Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -2/Sqrt[d]*(a+b*ArcCot[c*x])*ArcTanh[Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] - 
-  I*b/Sqrt[d]*PolyLog[2,-Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] + 
-  I*b/Sqrt[d]*PolyLog[2,Sqrt[1+I*c*x]/Sqrt[1-I*c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  1/Sqrt[d]*Subst[Int[(a+b*x)^n*Csc[x],x],x,ArcTan[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -c*x*Sqrt[1+1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Sec[x],x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTan[c*x])^n/(x*Sqrt[1+c^2*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCot[c*x])^n/(x*Sqrt[1+c^2*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(d*x) + 
-  b*c*n*Int[(a+b*ArcTan[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(d*x) - 
-  b*c*n*Int[(a+b*ArcCot[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(a_.+b_.*ArcTan[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTan[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTan[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
-  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcTan[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
-
-
-Int[x_^m_*(a_.+b_.*ArcCot[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCot[c*x])^n/(d*(m+1)) + 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCot[c*x])^(n-1)/Sqrt[d+e*x^2],x] - 
-  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcCot[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] - 
-  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTan[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  -x^m*(d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] + 
-  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCot[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sin[x]^m/Cos[x]^(m+2*(p+1)),x],x,ArcTan[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  d^(p+1/2)*Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[x^m*(1+c^2*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  -d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cos[x]^m/Sin[x]^(m+2*(p+1)),x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && IntegerQ[p]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  -d^(p+1/2)*x*Sqrt[(1+c^2*x^2)/(c^2*x^2)]/(c^m*Sqrt[d+e*x^2])*Subst[Int[(a+b*x)^n*Cos[x]^m/Sin[x]^(m+2*(p+1)),x],x,ArcCot[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p]]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTan[c*x])/(2*e*(p+1)) - 
-  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCot[c*x])/(2*e*(p+1)) + 
-  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[SimplifyIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcTan[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCot[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcTan[c*x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcCot[c*x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcTan[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCot[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[ArcTanh[u_]*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[1-u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
-
-
-Int[ArcCoth[u_]*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
-
-
-Int[ArcTanh[u_]*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[1-u]*(a+b*ArcTan[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
-
-
-Int[ArcCoth[u_]*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCot[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  I*(a+b*ArcTan[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
-  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I+c*x))^2]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  I*(a+b*ArcCot[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
-  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I+c*x))^2]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -I*(a+b*ArcTan[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
-  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I-c*x))^2]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -I*(a+b*ArcCot[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
-  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2*I/(I-c*x))^2]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -I*(a+b*ArcTan[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
-  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -I*(a+b*ArcCot[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
-  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I+c*x))^2]
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  I*(a+b*ArcTan[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
-  b*n*I/2*Int[(a+b*ArcTan[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  I*(a+b*ArcCot[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
-  b*n*I/2*Int[(a+b*ArcCot[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[u^2-(1-2*I/(I-c*x))^2]
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCot[c_.*x_])*(a_.+b_.*ArcTan[c_.*x_])),x_Symbol] :=
-  (-Log[a+b*ArcCot[c*x]]+Log[a+b*ArcTan[c*x]])/(b*c*d*(2*a+b*ArcCot[c*x]+b*ArcTan[c*x])) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d]
-
-
-Int[(a_.+b_.*ArcCot[c_.*x_])^m_.*(a_.+b_.*ArcTan[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcCot[c*x])^(m+1)*(a+b*ArcTan[c*x])^n/(b*c*d*(m+1)) +
-  n/(m+1)*Int[(a+b*ArcCot[c*x])^(m+1)*(a+b*ArcTan[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n] && 0<n<=m
-
-
-Int[(a_.+b_.*ArcTan[c_.*x_])^m_.*(a_.+b_.*ArcCot[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTan[c*x])^(m+1)*(a+b*ArcCot[c*x])^n/(b*c*d*(m+1)) +
-  n/(m+1)*Int[(a+b*ArcTan[c*x])^(m+1)*(a+b*ArcCot[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegersQ[m,n] && 0<n<m
-
-
-Int[ArcTan[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  I/2*Int[Log[1-I*a*x]/(c+d*x^n),x] -
-  I/2*Int[Log[1+I*a*x]/(c+d*x^n),x] /;
-FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[d-a^2*c]]
-
-
-Int[ArcCot[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  I/2*Int[Log[1-I/(a*x)]/(c+d*x^n),x] -
-  I/2*Int[Log[1+I/(a*x)]/(c+d*x^n),x] /;
-FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[d-a^2*c]]
-
-
-Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  x*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x]) - 
-  2*e*g*Int[x^2*(a+b*ArcTan[c*x])/(f+g*x^2),x] - 
-  b*c*Int[x*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x]
-
-
-Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  x*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x]) - 
-  2*e*g*Int[x^2*(a+b*ArcCot[c*x])/(f+g*x^2),x] + 
-  b*c*Int[x*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x])/(m+1) - 
-  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcTan[c*x])/(f+g*x^2),x] - 
-  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x])/(m+1) - 
-  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcCot[c*x])/(f+g*x^2),x] + 
-  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
-  Dist[a+b*ArcTan[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
-  Dist[a+b*ArcCot[c*x],u,x] + b*c*Int[ExpandIntegrand[u/(1+c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(a+b*ArcTan[c*x]),x]},  
-  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(a+b*ArcCot[c*x]),x]},  
-  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
-
-
-Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcTan[c_.*x_])^2,x_Symbol] :=
-  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x])^2/(2*g) - 
-  e*x^2*(a+b*ArcTan[c*x])^2/2 - 
-  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcTan[c*x]),x] + 
-  b*c*e*Int[x^2*(a+b*ArcTan[c*x])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[g-c^2*f]
-
-
-Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcCot[c_.*x_])^2,x_Symbol] :=
-  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x])^2/(2*g) - 
-  e*x^2*(a+b*ArcCot[c*x])^2/2 + 
-  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcCot[c*x]),x] - 
-  b*c*e*Int[x^2*(a+b*ArcCot[c*x])/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[g-c^2*f]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.2.2 Exponentials of inverse tangent*)
-
-
-Int[E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[((1-I*a*x)^((I*n+1)/2)/((1+I*a*x)^((I*n-1)/2)*Sqrt[1+a^2*x^2])),x] /;
-FreeQ[a,x] && OddQ[I*n]
-
-
-Int[x_^m_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[x^m*((1-I*a*x)^((I*n+1)/2)/((1+I*a*x)^((I*n-1)/2)*Sqrt[1+a^2*x^2])),x] /;
-FreeQ[{a,m},x] && OddQ[I*n]
-
-
-Int[E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
-FreeQ[{a,n},x] && Not[OddQ[I*n]]
-
-
-Int[x_^m_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[x^m*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
-FreeQ[{a,m,n},x] && Not[OddQ[I*n]]
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1+d*x/c)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[u*(c+d*x)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  d^p*Int[u/x^p*(1+c*x/d)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[c^2+a^2*d^2] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  (-1)^(n/2)*c^p*Int[u*(1+d/(c*x))^p*(1-1/(I*a*x))^(I*n/2)/(1+1/(I*a*x))^(I*n/2),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && PositiveQ[c]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  Int[u*(c+d/x)^p*(1-I*a*x)^(I*n/2)/(1+I*a*x)^(I*n/2),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && Not[PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  x^p*(c+d/x)^p/(1+c*x/d)^p*Int[u/x^p*(1+c*x/d)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[p]]
-
-
-Int[E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  (n+a*x)*E^(n*ArcTan[a*x])/(a*c*(n^2+1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n]]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  (n-2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*c*(n^2+4*(p+1)^2)) + 
-  2*(p+1)*(2*p+3)/(c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && NeQ[n^2+4*(p+1)^2] && IntegerQ[2*p]
-
-
-Int[E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
-  E^(n*ArcTan[a*x])/(a*c*n) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[(1+a^2*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && IntegerQ[p] && IntegerQ[(I*n+1)/2] && Not[IntegerQ[p-I*n/2]]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^(I*n/2)*Int[(c+d*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[I*n/2]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  1/c^(I*n/2)*Int[(c+d*x^2)^(p+I*n/2)/(1+I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[I*n/2]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[x_*E^(n_.*ArcTan[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  -(1-a*n*x)*E^(n*ArcTan[a*x])/(d*(n^2+1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n]]
-
-
-Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  (c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(2*d*(p+1)) - a*c*n/(2*d*(p+1))*Int[(c+d*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && IntegerQ[2*p]
-
-
-(* Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  (2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a^2*c*(n^2+4*(p+1)^2)) - 
-  n*(2*p+3)/(a*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && NeQ[n^2+4*(p+1)^2] && Not[IntegerQ[I*n]] *)
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  -(1-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*d*n*(n^2+1)) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && EqQ[n^2-2*(p+1)] && Not[IntegerQ[I*n]]
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  -(n-2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x])/(a*d*(n^2+4*(p+1)^2)) + 
-  (n^2-2*(p+1))/(d*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && Not[IntegerQ[I*n]] && NeQ[n^2+4*(p+1)^2] && 
-  IntegerQ[2*p]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[x^m*(1+a^2*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[(I*n+1)/2] && Not[IntegerQ[p-I*n/2]]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[x^m*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^(I*n/2)*Int[x^m*(c+d*x^2)^(p-I*n/2)*(1-I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[I*n/2]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  1/c^(I*n/2)*Int[x^m*(c+d*x^2)^(p+I*n/2)/(1+I*a*x)^(I*n),x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[I*n/2]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[x^m*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[u_*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[u_*(c_+d_.*x_^2)^p_.*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/((1-I*a*x)^FracPart[p]*(1+I*a*x)^FracPart[p])*
-    Int[u*(1-I*a*x)^(p+I*n/2)*(1+I*a*x)^(p-I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[I*n/2]
-
-
-Int[u_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1+a^2*x^2)^FracPart[p]*Int[u*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[I*n/2]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  d^p*Int[u/x^(2*p)*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[c-a^2*d] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1-I/(a*x))^p*(1+I/(a*x))^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && PositiveQ[c]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTan[a_.*x_]),x_Symbol] :=
-  x^(2*p)*(c+d/x^2)^p/((1-I*a*x)^p*(1+I*a*x)^p)*Int[u/x^(2*p)*(1-I*a*x)^p*(1+I*a*x)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && IntegerQ[I*n/2] && Not[PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcTan[a_.*x_]),x_Symbol] :=
-  x^(2*p)*(c+d/x^2)^p/(1+a^2*x^2)^p*Int[u/x^(2*p)*(1+a^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[p]] && Not[IntegerQ[I*n/2]]
-
-
-Int[E^(n_.*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  Int[(1-I*a*c-I*b*c*x)^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[x_^m_*E^(n_*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  4/(I^m*n*b^(m+1)*c^(m+1))*
-    Subst[Int[x^(2/(I*n))*(1-I*a*c-(1+I*a*c)*x^(2/(I*n)))^m/(1+x^(2/(I*n)))^(m+2),x],x,
-      (1-I*c*(a+b*x))^(I*n/2)/(1+I*c*(a+b*x))^(I*n/2)] /;
-FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[I*n] && -1<I*n<1
-
-
-Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcTan[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  Int[(d+e*x)^m*(1-I*a*c-I*b*c*x)^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2),x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTan[a_+b_.*x_]),x_Symbol] :=
-  (c/(1+a^2))^p*Int[u*(1-I*a-I*b*x)^(p+I*n/2)*(1+I*a+I*b*x)^(p-I*n/2),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && (IntegerQ[p] || PositiveQ[c/(1+a^2)])
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTan[a_+b_.*x_]),x_Symbol] :=
-  (c+d*x+e*x^2)^p/(1+a^2+2*a*b*x+b^2*x^2)^p*Int[u*(1+a^2+2*a*b*x+b^2*x^2)^p*E^(n*ArcTan[a*x]),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && Not[IntegerQ[p] || PositiveQ[c/(1+a^2)]]
-
-
-Int[u_.*E^(n_.*ArcTan[c_./(a_.+b_.*x_)]),x_Symbol] :=
-  Int[u*E^(n*ArcCot[a/c+b*x/c]),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[u_.*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
-  (-1)^(I*n/2)*Int[u*E^(-n*ArcTan[a*x]),x] /;
-FreeQ[a,x] && IntegerQ[I*n/2]
-
-
-Int[E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^2*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
-FreeQ[a,x] && OddQ[I*n]
-
-
-Int[x_^m_.*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^(m+2)*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
-FreeQ[a,x] && OddQ[I*n] && IntegerQ[m]
-
-
-Int[E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1-I*x/a)^(I*n/2)/(x^2*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
-FreeQ[{a,n},x] && Not[IntegerQ[I*n]]
-
-
-Int[x_^m_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1-I*x/a)^(n/2)/(x^(m+2)*(1+I*x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,n},x] && Not[IntegerQ[I*n]] && IntegerQ[m]
-
-
-Int[x_^m_*E^(n_*ArcCot[a_.*x_]),x_Symbol] :=
-  -x^m*(1/x)^m*Subst[Int[(1-I*x/a)^((I*n+1)/2)/(x^(m+2)*(1+I*x/a)^((I*n-1)/2)*Sqrt[1+x^2/a^2]),x],x,1/x] /;
-FreeQ[{a,m},x] && OddQ[I*n] && Not[IntegerQ[m]]
-
-
-Int[x_^m_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1-I*x/a)^(n/2)/(x^(m+2)*(1+I*x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,m,n},x] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[m]]
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  d^p*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[I*n/2]] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (c+d*x)^p/(x^p*(1+c/(d*x))^p)*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2+d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p]]
-
-
-Int[(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^2*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^(m+2)*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[m]
-
-
-Int[(c_+d_./x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (c+d/x)^p/(1+d/(c*x))^p*Int[(1+d/(c*x))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[x_^m_*(c_+d_./x_)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*x^m*(1/x)^m*Subst[Int[(1+d*x/c)^p*(1-I*x/a)^(I*n/2)/(x^(m+2)*(1+I*x/a)^(I*n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegerQ[m]]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (c+d/x)^p/(1+d/(c*x))^p*Int[u*(1+d/(c*x))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2+a^2*d^2] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
-  -E^(n*ArcCot[a*x])/(a*c*n) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c]
-
-
-Int[E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  -(n-a*x)*E^(n*ArcCot[a*x])/(a*c*(n^2+1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[OddQ[I*n]]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -(n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a*c*(n^2+4*(p+1)^2)) + 
-  2*(p+1)*(2*p+3)/(c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<-1 && p!=-3/2 && NeQ[n^2+4*(p+1)^2] && 
-  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
-
-
-Int[x_*E^(n_.*ArcCot[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  -(1+a*n*x)*E^(n*ArcCot[a*x])/(a^2*c*(n^2+1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[OddQ[I*n]]
-
-
-Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (2*(p+1)-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^2*c*(n^2+4*(p+1)^2)) + 
-  n*(2*p+3)/(a*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<=-1 && p!=-3/2 && NeQ[n^2+4*(p+1)^2] && 
-  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^3*c*n^2*(n^2+1)) /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && EqQ[n^2-2*(p+1)] && NeQ[n^2+1]
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x])/(a^3*c*(n^2+4*(p+1)^2)) + 
-  (n^2-2*(p+1))/(a^2*c*(n^2+4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && RationalQ[p] && p<=-1 && NeQ[n^2-2*(p+1)] && NeQ[n^2+4*(p+1)^2] && 
-  Not[IntegerQ[p] && EvenQ[I*n]] && Not[Not[IntegerQ[p]] && OddQ[I*n]]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p/a^(m+1)*Subst[Int[E^(n*x)*Cot[x]^(m+2*(p+1))/Cos[x]^(2*(p+1)),x],x,ArcCot[a*x]] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && IntegerQ[m] && 3<=m<=-2(p+1) && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  d^p*Int[u*x^(2*p)*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n/2]] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (c+d*x^2)^p/(x^(2*p)*(1+1/(a^2*x^2))^p)*Int[u*x^(2*p)*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[d-a^2*c] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  c^p/(I*a)^(2*p)*Int[u/x^(2*p)*(-1+I*a*x)^(p-I*n/2)*(1+I*a*x)^(p+I*n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegersQ[2*p,p+I*n/2]
-
-
-Int[(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^2,x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]]
-
-
-Int[x_^m_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]] && 
-  IntegerQ[m]
-
-
-Int[x_^m_*(c_+d_./x_^2)^p_.*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  -c^p*x^m*(1/x)^m*Subst[Int[(1-I*x/a)^(p+I*n/2)*(1+I*x/a)^(p-I*n/2)/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+I*n/2]] && 
-  Not[IntegerQ[m]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcCot[a_.*x_]),x_Symbol] :=
-  (c+d/x^2)^p/(1+1/(a^2*x^2))^p*Int[u*(1+1/(a^2*x^2))^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c-a^2*d] && Not[IntegerQ[I*n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[u_.*E^(n_*ArcCot[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (-1)^(I*n/2)*Int[u*E^(-n*ArcTan[c*(a+b*x)]),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[I*n/2]
-
-
-Int[E^(n_.*ArcCot[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (I*c*(a+b*x))^(I*n/2)*(1+1/(I*c*(a+b*x)))^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2)*
-    Int[(1+I*a*c+I*b*c*x)^(I*n/2)/(-1+I*a*c+I*b*c*x)^(I*n/2),x] /;
-FreeQ[{a,b,c,n},x] && Not[IntegerQ[I*n/2]]
-
-
-Int[x_^m_*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  4/(I^m*n*b^(m+1)*c^(m+1))*
-    Subst[Int[x^(2/(I*n))*(1+I*a*c+(1-I*a*c)*x^(2/(I*n)))^m/(-1+x^(2/(I*n)))^(m+2),x],x,
-      (1+1/(I*c*(a+b*x)))^(I*n/2)/(1-1/(I*c*(a+b*x)))^(I*n/2)] /;
-FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[I*n] && -1<I*n<1
-
-
-Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (I*c*(a+b*x))^(I*n/2)*(1+1/(I*c*(a+b*x)))^(I*n/2)/(1+I*a*c+I*b*c*x)^(I*n/2)*
-    Int[(d+e*x)^m*(1+I*a*c+I*b*c*x)^(I*n/2)/(-1+I*a*c+I*b*c*x)^(I*n/2),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[I*n/2]]
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCot[a_+b_.*x_]),x_Symbol] :=
-  (c/(1+a^2))^p*((I*a+I*b*x)/(1+I*a+I*b*x))^(I*n/2)*((1+I*a+I*b*x)/(I*a+I*b*x))^(I*n/2)*
-    ((1-I*a-I*b*x)^(I*n/2)/(-1+I*a+I*b*x)^(I*n/2))*
-    Int[u*(1-I*a-I*b*x)^(p-I*n/2)*(1+I*a+I*b*x)^(p+I*n/2),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[I*n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && 
-  (IntegerQ[p] || PositiveQ[c/(1+a^2)])
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCot[a_+b_.*x_]),x_Symbol] :=
-  (c+d*x+e*x^2)^p/(1+a^2+2*a*b*x+b^2*x^2)^p*Int[u*(1+a^2+2*a*b*x+b^2*x^2)^p*E^(n*ArcCot[a*x]),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[I*n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c-e(1+a^2)] && 
-  Not[IntegerQ[p] || PositiveQ[c/(1+a^2)]]
-
-
-Int[u_.*E^(n_.*ArcCot[c_./(a_.+b_.*x_)]),x_Symbol] :=
-  Int[u*E^(n*ArcTan[a/c+b*x/c]),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.2.3 Miscellaneous inverse tangent*)
-(**)
-
-
-Int[(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcTan[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcCot[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcTan[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcTan[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcCot[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcCot[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcTan[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(e+f*x)^m*(a+b*ArcTan[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcCot[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(e+f*x)^m*(a+b*ArcCot[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTan[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcTan[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCot[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcCot[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[ArcTan[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  I/2*Int[Log[1-I*a-I*b*x]/(c+d*x^n),x] -
-  I/2*Int[Log[1+I*a+I*b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[n]
-
-
-Int[ArcCot[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  I/2*Int[Log[(-I+a+b*x)/(a+b*x)]/(c+d*x^n),x] -
-  I/2*Int[Log[(I+a+b*x)/(a+b*x)]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[n]
-
-
-Int[ArcTan[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
-  Defer[Int][ArcTan[a+b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
-
-
-Int[ArcCot[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
-  Defer[Int][ArcCot[a+b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
-
-
-Int[ArcTan[a_+b_.*x_^n_],x_Symbol] :=
-  x*ArcTan[a+b*x^n] -
-  b*n*Int[x^n/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCot[a_+b_.*x_^n_],x_Symbol] :=
-  x*ArcCot[a+b*x^n] +
-  b*n*Int[x^n/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcTan[a_.+b_.*x_^n_]/x_,x_Symbol] :=
-  I/2*Int[Log[1-I*a-I*b*x^n]/x,x] -
-  I/2*Int[Log[1+I*a+I*b*x^n]/x,x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCot[a_.+b_.*x_^n_]/x_,x_Symbol] :=
-  I/2*Int[Log[1-I/(a+b*x^n)]/x,x] -
-  I/2*Int[Log[1+I/(a+b*x^n)]/x,x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[x_^m_.*ArcTan[a_+b_.*x_^n_],x_Symbol] :=
-  x^(m+1)*ArcTan[a+b*x^n]/(m+1) -
-  b*n/(m+1)*Int[x^(m+n)/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
-
-
-Int[x_^m_.*ArcCot[a_+b_.*x_^n_],x_Symbol] :=
-  x^(m+1)*ArcCot[a+b*x^n]/(m+1) +
-  b*n/(m+1)*Int[x^(m+n)/(1+a^2+2*a*b*x^n+b^2*x^(2*n)),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
-
-
-Int[ArcTan[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  I/2*Int[Log[1-I*a-I*b*f^(c+d*x)],x] -
-  I/2*Int[Log[1+I*a+I*b*f^(c+d*x)],x] /;
-FreeQ[{a,b,c,d,f},x]
-
-
-Int[ArcCot[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  I/2*Int[Log[1-I/(a+b*f^(c+d*x))],x] -
-  I/2*Int[Log[1+I/(a+b*f^(c+d*x))],x] /;
-FreeQ[{a,b,c,d,f},x] 
-
-
-Int[x_^m_.*ArcTan[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  I/2*Int[x^m*Log[1-I*a-I*b*f^(c+d*x)],x] -
-  I/2*Int[x^m*Log[1+I*a+I*b*f^(c+d*x)],x] /;
-FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
-
-
-Int[x_^m_.*ArcCot[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  I/2*Int[x^m*Log[1-I/(a+b*f^(c+d*x))],x] -
-  I/2*Int[x^m*Log[1+I/(a+b*f^(c+d*x))],x] /;
-FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
-
-
-Int[u_.*ArcTan[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCot[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCot[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcTan[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[1/(Sqrt[a_.+b_.*x_^2]*ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
-  1/c*Log[ArcTan[c*x/Sqrt[a+b*x^2]]] /;
-FreeQ[{a,b,c},x] && EqQ[b+c^2]
-
-
-Int[1/(Sqrt[a_.+b_.*x_^2]*ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
-  -1/c*Log[ArcCot[c*x/Sqrt[a+b*x^2]]] /;
-FreeQ[{a,b,c},x] && EqQ[b+c^2]
-
-
-Int[ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
-  ArcTan[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
-FreeQ[{a,b,c,m},x] && EqQ[b+c^2] && NeQ[m+1]
-
-
-Int[ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
-  -ArcCot[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
-FreeQ[{a,b,c,m},x] && EqQ[b+c^2] && NeQ[m+1]
-
-
-Int[ArcTan[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcTan[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b+c^2] && EqQ[b*d-a*e]
-
-
-Int[ArcCot[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcCot[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b+c^2] && EqQ[b*d-a*e]
-
-
-Int[u_.*ArcTan[v_+s_.*Sqrt[w_]],x_Symbol] :=
-  Pi*s/4*Int[u,x] + 1/2*Int[u*ArcTan[v],x] /;
-EqQ[s^2-1] && EqQ[w-(v^2+1)]
-
-
-Int[u_.*ArcCot[v_+s_.*Sqrt[w_]],x_Symbol] :=
-  Pi*s/4*Int[u,x] - 1/2*Int[u*ArcTan[v],x] /;
-EqQ[s^2-1] && EqQ[w-(v^2+1)]
-
-
-If[ShowSteps,
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  ShowStep["","Int[f[x,ArcTan[a+b*x]]/(1+(a+b*x)^2),x]",
-		   "Subst[Int[f[-a/b+Tan[x]/b,x],x],x,ArcTan[a+b*x]]/b",Hold[
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sec[x]^(2*(n+1)),x],x], x, tmp]]] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcTan && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
-SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sec[x]^(2*(n+1)),x],x], x, tmp] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcTan && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
-QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
-
-
-If[ShowSteps,
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  ShowStep["","Int[f[x,ArcCot[a+b*x]]/(1+(a+b*x)^2),x]",
-		   "-Subst[Int[f[-a/b+Cot[x]/b,x],x],x,ArcCot[a+b*x]]/b",Hold[
-  -(-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Csc[x]^(2*(n+1)),x],x], x, tmp]]] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcCot && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
-SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  -(-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Csc[x]^(2*(n+1)),x],x], x, tmp] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcCot && EqQ[Discriminant[v,x]*tmp[[1]]^2+D[v,x]^2]] /;
-QuadraticQ[v,x] && IntegerQ[n] && n<0 && NegQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
-
-
-Int[ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Tan[a+b*x]] - 
-  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Tan[a+b*x]] + 
-  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Cot[a+b*x]] - 
-  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Cot[a+b*x]] + 
-  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Tan[a+b*x]] - 
-  b*(1+I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] + 
-  b*(1-I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Tan[a+b*x]] + 
-  b*(1+I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] - 
-  b*(1-I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Cot[a+b*x]] + 
-  b*(1+I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] - 
-  b*(1-I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Cot[a+b*x]] - 
-  b*(1+I*c-d)*Int[x*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] + 
-  b*(1-I*c+d)*Int[x*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Tan[a+b*x]]/(f*(m+1)) - 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Cot[a+b*x]]/(f*(m+1)) - 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Cot[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Tan[a+b*x]]/(f*(m+1)) - 
-  b*(1+I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] + 
-  b*(1-I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  b*(1+I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c-d+(1+I*c+d)*E^(2*I*a+2*I*b*x)),x] - 
-  b*(1-I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c+d+(1-I*c-d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Cot[a+b*x]]/(f*(m+1)) + 
-  b*(1+I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] - 
-  b*(1-I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Cot[a+b*x]]/(f*(m+1)) - 
-  b*(1+I*c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+I*c+d-(1+I*c-d)*E^(2*I*a+2*I*b*x)),x] + 
-  b*(1-I*c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-I*c-d-(1-I*c+d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2+1]
-
-
-Int[ArcTan[Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[Tanh[a+b*x]] - b*Int[x*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCot[Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[Tanh[a+b*x]] + b*Int[x*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcTan[Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[Coth[a+b*x]] + b*Int[x*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCot[Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[Coth[a+b*x]] - b*Int[x*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[Tanh[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[Tanh[a+b*x]]/(f*(m+1)) + b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[Coth[a+b*x]]/(f*(m+1)) + b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[Coth[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sech[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Tanh[a+b*x]] - 
-  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Tanh[a+b*x]] + 
-  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Coth[a+b*x]] - 
-  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Coth[a+b*x]] + 
-  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Tanh[a+b*x]] + 
-  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] - 
-  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Tanh[a+b*x]] - 
-  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] + 
-  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
-
-
-Int[ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTan[c+d*Coth[a+b*x]] - 
-  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] + 
-  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
-
-
-Int[ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCot[c+d*Coth[a+b*x]] + 
-  I*b*(I-c-d)*Int[x*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] - 
-  I*b*(I+c+d)*Int[x*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Tanh[a+b*x]]/(f*(m+1)) - 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Coth[a+b*x]]/(f*(m+1)) - 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] - 
-  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Tanh[a+b*x]]/(f*(m+1)) - 
-  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d+(I-c-d)*E^(2*a+2*b*x)),x] + 
-  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d+(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTan[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTan[c+d*Coth[a+b*x]]/(f*(m+1)) - 
-  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] + 
-  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCot[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCot[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  I*b*(I-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I-c+d-(I-c-d)*E^(2*a+2*b*x)),x] - 
-  I*b*(I+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(I+c-d-(I+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2+1]
-
-
-Int[ArcTan[u_],x_Symbol] :=
-  x*ArcTan[u] -
-  Int[SimplifyIntegrand[x*D[u,x]/(1+u^2),x],x] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[ArcCot[u_],x_Symbol] :=
-  x*ArcCot[u] +
-  Int[SimplifyIntegrand[x*D[u,x]/(1+u^2),x],x] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcTan[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcTan[u])/(d*(m+1)) -
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1+u^2),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCot[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCot[u])/(d*(m+1)) +
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1+u^2),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
-
-
-Int[v_*(a_.+b_.*ArcTan[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcTan[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1+u^2),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcTan[u]),x]]
-
-
-Int[v_*(a_.+b_.*ArcCot[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCot[u]),w,x] + b*Int[SimplifyIntegrand[w*D[u,x]/(1+u^2),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcCot[u]),x]]
-
-
-Int[ArcTan[v_]*Log[w_]/(a_.+b_.*x_),x_Symbol] :=
-  I/2*Int[Log[1-I*v]*Log[w]/(a+b*x),x] - I/2*Int[Log[1+I*v]*Log[w]/(a+b*x),x] /;
-FreeQ[{a,b},x] && LinearQ[v,x] && LinearQ[w,x] && EqQ[Simplify[D[v/(a+b*x),x]]] && EqQ[Simplify[D[w/(a+b*x),x]]]
-
-
-Int[ArcTan[v_]*Log[w_],x_Symbol] :=
-  x*ArcTan[v]*Log[w] - 
-  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/(1+v^2),x],x] - 
-  Int[SimplifyIntegrand[x*ArcTan[v]*D[w,x]/w,x],x] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-Int[ArcCot[v_]*Log[w_],x_Symbol] :=
-  x*ArcCot[v]*Log[w] + 
-  Int[SimplifyIntegrand[x*Log[w]*D[v,x]/(1+v^2),x],x] - 
-  Int[SimplifyIntegrand[x*ArcCot[v]*D[w,x]/w,x],x] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-Int[u_*ArcTan[v_]*Log[w_],x_Symbol] :=
-  With[{z=IntHide[u,x]},  
-  Dist[ArcTan[v]*Log[w],z,x] - 
-  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/(1+v^2),x],x] - 
-  Int[SimplifyIntegrand[z*ArcTan[v]*D[w,x]/w,x],x] /;
- InverseFunctionFreeQ[z,x]] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-Int[u_*ArcCot[v_]*Log[w_],x_Symbol] :=
-  With[{z=IntHide[u,x]},  
-  Dist[ArcCot[v]*Log[w],z,x] + 
-  Int[SimplifyIntegrand[z*Log[w]*D[v,x]/(1+v^2),x],x] - 
-  Int[SimplifyIntegrand[z*ArcCot[v]*D[w,x]/w,x],x] /;
- InverseFunctionFreeQ[z,x]] /;
-InverseFunctionFreeQ[v,x] && InverseFunctionFreeQ[w,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*5.3/1 Miscellaneous inverse secant*)
-
-
-Int[ArcSec[c_.*x_],x_Symbol] :=
-  x*ArcSec[c*x] - 1/c*Int[1/(x*Sqrt[1-1/(c^2*x^2)]),x] /;
-FreeQ[c,x]
-
-
-Int[ArcCsc[c_.*x_],x_Symbol] :=
-  x*ArcCsc[c*x] + 1/c*Int[1/(x*Sqrt[1-1/(c^2*x^2)]),x] /;
-FreeQ[c,x]
-
-
-Int[(a_.+b_.*ArcSec[c_.*x_])^n_,x_Symbol] :=
-  1/c*Subst[Int[(a+b*x)^n*Sec[x]*Tan[x],x],x,ArcSec[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcCsc[c_.*x_])^n_,x_Symbol] :=
-  -1/c*Subst[Int[(a+b*x)^n*Csc[x]*Cot[x],x],x,ArcCsc[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcSec[c_.*x_])/x_,x_Symbol] :=
-  -Subst[Int[(a+b*ArcCos[x/c])/x,x],x,1/x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[(a_.+b_.*ArcCsc[c_.*x_])/x_,x_Symbol] :=
-  -Subst[Int[(a+b*ArcSin[x/c])/x,x],x,1/x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(a+b*ArcSec[c*x])/(m+1) - 
-  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1-1/(c^2*x^2)],x] /;
-FreeQ[{a,b,c,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(a+b*ArcCsc[c*x])/(m+1) +
-  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1-1/(c^2*x^2)],x] /;
-FreeQ[{a,b,c,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_])^n_,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sec[x]^(m+1)*Tan[x],x],x,ArcSec[c*x]] /;
-FreeQ[{a,b,c,n},x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_])^n_,x_Symbol] :=
-  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Csc[x]^(m+1)*Cot[x],x],x,ArcCsc[c*x]] /;
-FreeQ[{a,b,c,n},x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*ArcSec[c*x])^n,x] /;
-FreeQ[{a,b,c,m,n},x]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*ArcCsc[c*x])^n,x] /;
-FreeQ[{a,b,c,m,n},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcSec[c*x]),u,x] - b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcCsc[c*x]),u,x] + b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcSec[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCsc[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSec[c*x])/(2*e*(p+1)) - 
-  b*c*x/(2*e*(p+1)*Sqrt[c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[c^2*x^2-1]),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCsc[c*x])/(2*e*(p+1)) + 
-  b*c*x/(2*e*(p+1)*Sqrt[c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[c^2*x^2-1]),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcSec[c*x]),u,x] - b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcCsc[c*x]),u,x] + b*c*x/Sqrt[c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[c^2*x^2-1]),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCos[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSin[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSec[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcSec[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsc[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCsc[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[ArcSec[a_+b_.*x_],x_Symbol] :=
-  (a+b*x)*ArcSec[a+b*x]/b - 
-  Int[1/((a+b*x)*Sqrt[1-1/(a+b*x)^2]),x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCsc[a_+b_.*x_],x_Symbol] :=
-  (a+b*x)*ArcCsc[a+b*x]/b + 
-  Int[1/((a+b*x)*Sqrt[1-1/(a+b*x)^2]),x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcSec[a_+b_.*x_]^n_,x_Symbol] :=
-  1/b*Subst[Int[x^n*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCsc[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b*Subst[Int[x^n*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcSec[a_+b_.*x_]/x_,x_Symbol] :=
-  ArcSec[a+b*x]*Log[1-(1-Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] + 
-  ArcSec[a+b*x]*Log[1-(1+Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] - 
-  ArcSec[a+b*x]*Log[1+E^(2*I*ArcSec[a+b*x])] - 
-  I*PolyLog[2,(1-Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] - 
-  I*PolyLog[2,(1+Sqrt[1-a^2])*E^(I*ArcSec[a+b*x])/a] + 
-  1/2*I*PolyLog[2,-E^(2*I*ArcSec[a+b*x])] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCsc[a_+b_.*x_]/x_,x_Symbol] :=
-  I*ArcCsc[a+b*x]^2 + 
-  ArcCsc[a+b*x]*Log[1-I*(1-Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
-  ArcCsc[a+b*x]*Log[1-I*(1+Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] - 
-  ArcCsc[a+b*x]*Log[1-E^(2*I*ArcCsc[a+b*x])] + 
-  I*PolyLog[2,I*(1-Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
-  I*PolyLog[2,I*(1+Sqrt[1-a^2])/(E^(I*ArcCsc[a+b*x])*a)] + 
-  1/2*I*PolyLog[2,E^(2*I*ArcCsc[a+b*x])] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*ArcSec[a_+b_.*x_],x_Symbol] :=
-  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcSec[a+b*x]/(b^(m+1)*(m+1)) - 
-  1/(b^(m+1)*(m+1))*Subst[Int[(((-a)*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1-x^2]),x],x,1/(a+b*x)] /;
-FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
-
-
-Int[x_^m_.*ArcCsc[a_+b_.*x_],x_Symbol] :=
-  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcCsc[a+b*x]/(b^(m+1)*(m+1)) + 
-  1/(b^(m+1)*(m+1))*Subst[Int[(((-a)*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1-x^2]),x],x,1/(a+b*x)] /;
-FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
-
-
-Int[x_^m_.*ArcSec[a_+b_.*x_]^n_,x_Symbol] :=
-  1/b^(m+1)*Subst[Int[x^n*(-a+Sec[x])^m*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
-FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*ArcCsc[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b^(m+1)*Subst[Int[x^n*(-a+Csc[x])^m*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
-FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
-
-
-Int[u_.*ArcSec[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCos[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCsc[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcSin[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*f_^(c_.*ArcSec[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[ReplaceAll[u,x->-a/b+Sec[x]/b]*f^(c*x^n)*Sec[x]*Tan[x],x],x,ArcSec[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[u_.*f_^(c_.*ArcCsc[a_.+b_.*x_]^n_.),x_Symbol] :=
-  -1/b*Subst[Int[ReplaceAll[u,x->-a/b+Csc[x]/b]*f^(c*x^n)*Csc[x]*Cot[x],x],x,ArcCsc[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[ArcSec[u_],x_Symbol] :=
-  x*ArcSec[u] -
-  u/Sqrt[u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[ArcCsc[u_],x_Symbol] :=
-  x*ArcCsc[u] +
-  u/Sqrt[u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSec[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcSec[u])/(d*(m+1)) -
-  b*u/(d*(m+1)*Sqrt[u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCsc[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCsc[u])/(d*(m+1)) +
-  b*u/(d*(m+1)*Sqrt[u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[v_*(a_.+b_.*ArcSec[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcSec[u]),w,x] - b*u/Sqrt[u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-Int[v_*(a_.+b_.*ArcCsc[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCsc[u]),w,x] + b*u/Sqrt[u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[u^2-1]),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-
-`)
 
-func resourcesRubi5InverseTrigFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi5InverseTrigFunctionsM, nil
-}
+ClearAll[FixIntRules,FixIntRule,FixRhsIntRule]
 
-func resourcesRubi5InverseTrigFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi5InverseTrigFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
 
-	info := bindataFileInfo{name: "resources/rubi/5 Inverse trig functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+FixIntRules[] :=
+  (DownValues[Int]=FixIntRules[DownValues[Int]]; Null)
 
-var _resourcesRubi6HyperbolicFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Hyperbolic Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*6.1.10 (c+d x)^m (a+b sinh)^n*)
-
-
-Int[u_^m_.*(a_.+b_.*Sinh[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Sinh[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*(a_.+b_.*Cosh[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Cosh[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.1.11 (e x)^m (a+b x^n)^p sinh*)
-
-
-Int[(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sinh[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cosh[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  x^(-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
-  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
-
-
-Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  x^(-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
-  (-n+1)/(b*n*(p+1))*Int[x^(-n)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && p<-1 && n>2
-
-
-Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sinh[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cosh[c+d*x],(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(n*p)*(b+a*x^(-n))^p*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(n*p)*(b+a*x^(-n))^p*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(a+b*x^n)^p*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(a+b*x^n)^p*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sinh[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cosh[c+d*x],(e*x)^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  e^m*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
-  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  e^m*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
-  d*e^m/(b*n*(p+1))*Int[(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && EqQ[m-n+1] && RationalQ[p] && p<-1 && (IntegerQ[n] || PositiveQ[e])
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  x^(m-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x]/(b*n*(p+1)) - 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  x^(m-n+1)*(a+b*x^n)^(p+1)*Cosh[c+d*x]/(b*n*(p+1)) - 
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*(a+b*x^n)^(p+1)*Cosh[c+d*x],x] - 
-  d/(b*n*(p+1))*Int[x^(m-n+1)*(a+b*x^n)^(p+1)*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && PositiveIntegerQ[n] && RationalQ[m] && p<-1 && (m-n+1>0 || n>2)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Sinh[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[ExpandIntegrand[Cosh[c+d*x],x^m*(a+b*x^n)^p,x],x] /;
-FreeQ[{a,b,c,d},x] && NegativeIntegerQ[p] && IntegerQ[m] && PositiveIntegerQ[n] && (n==2 || p==-1)
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(m+n*p)*(b+a*x^(-n))^p*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[x_^m_.*(a_+b_.*x_^n_)^p_*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Int[x^(m+n*p)*(b+a*x^(-n))^p*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d,m},x] && NegativeIntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Sinh[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*x^n)^p*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_.*x_)^m_.*(a_+b_.*x_^n_)^p_.*Cosh[c_.+d_.*x_],x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*x^n)^p*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.1.12 (e x)^m (a+b sinh(c+d x^n))^p*)
-
-
-Int[Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(c+d*x^n),x] - 1/2*Int[E^(-c-d*x^n),x] /;
-FreeQ[{c,d},x] && IntegerQ[n] && n>1
-
-
-Int[Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(c+d*x^n),x] + 1/2*Int[E^(-c-d*x^n),x] /;
-FreeQ[{c,d},x] && IntegerQ[n] && n>1
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Sinh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Cosh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && n>1 && p>1
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^2,x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n]
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*Sinh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k-1)*(a+b*Cosh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(c+d*x^n),x] - 1/2*Int[E^(-c-d*x^n),x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[E^(c+d*x^n),x] + 1/2*Int[E^(-c-d*x^n),x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Sinh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(a+b*Cosh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[p]
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sinh[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Cosh[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n},x] && IntegerQ[p] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_,x_Symbol] :=
-  Defer[Int][(a+b*Sinh[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
-
-
-Int[(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_,x_Symbol] :=
-  Defer[Int][(a+b*Cosh[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x]
-
-
-Int[(a_.+b_.*Sinh[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Sinh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Cosh[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Cosh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[Sinh[d_.*x_^n_]/x_,x_Symbol] :=
-  SinhIntegral[d*x^n]/n /;
-FreeQ[{d,n},x]
-
-
-Int[Cosh[d_.*x_^n_]/x_,x_Symbol] :=
-  CoshIntegral[d*x^n]/n /;
-FreeQ[{d,n},x]
-
-
-Int[Sinh[c_+d_.*x_^n_]/x_,x_Symbol] :=
-  Sinh[c]*Int[Cosh[d*x^n]/x,x] + Cosh[c]*Int[Sinh[d*x^n]/x,x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[Cosh[c_+d_.*x_^n_]/x_,x_Symbol] :=
-  Cosh[c]*Int[Cosh[d*x^n]/x,x] + Sinh[c]*Int[Sinh[d*x^n]/x,x] /;
-FreeQ[{c,d,n},x]
-
-
-Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sinh[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
-
-
-Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Cosh[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]] && (EqQ[p,1] || EqQ[m,n-1] || IntegerQ[p] && Simplify[(m+1)/n]>0)
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && IntegerQ[Simplify[(m+1)/n]]
-
-
-Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*Cosh[c+d*x^n]/(d*n) - 
-  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Cosh[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
-
-
-Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  e^(n-1)*(e*x)^(m-n+1)*Sinh[c+d*x^n]/(d*n) - 
-  e^n*(m-n+1)/(d*n)*Int[(e*x)^(m-n)*Sinh[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && 0<n<m+1
-
-
-Int[(e_.*x_)^m_*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  (e*x)^(m+1)*Sinh[c+d*x^n]/(e*(m+1)) - 
-  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Cosh[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[(e_.*x_)^m_*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  (e*x)^(m+1)*Cosh[c+d*x^n]/(e*(m+1)) - 
-  d*n/(e^n*(m+1))*Int[(e*x)^(m+n)*Sinh[c+d*x^n],x] /;
-FreeQ[{c,d,e},x] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(c+d*x^n),x] - 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
-FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(c+d*x^n),x] + 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
-FreeQ[{c,d,e,m},x] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -Sinh[a+b*x^n]^p/((n-1)*x^(n-1)) + 
-  b*n*p/(n-1)*Int[Sinh[a+b*x^n]^(p-1)*Cosh[a+b*x^n],x] /;
-FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -Cosh[a+b*x^n]^p/((n-1)*x^(n-1)) + 
-  b*n*p/(n-1)*Int[Cosh[a+b*x^n]^(p-1)*Sinh[a+b*x^n],x] /;
-FreeQ[{a,b},x] && IntegersQ[n,p] && EqQ[m+n] && p>1 && NeQ[n-1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -n*Sinh[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^n*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/(b*n*p) -
-  (p-1)/p*Int[x^m*Sinh[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -n*Cosh[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^n*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Cosh[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p>1
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -(m-n+1)*x^(m-2*n+1)*Sinh[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^(m-n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/(b*n*p) -
-  (p-1)/p*Int[x^m*Sinh[a+b*x^n]^(p-2),x] +
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Sinh[a+b*x^n]^p,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -(m-n+1)*x^(m-2*n+1)*Cosh[a+b*x^n]^p/(b^2*n^2*p^2) +
-  x^(m-n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/(b*n*p) +
-  (p-1)/p*Int[x^m*Cosh[a+b*x^n]^(p-2),x] +
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*p^2)*Int[x^(m-2*n)*Cosh[a+b*x^n]^p,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<m+1
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m+1)*Sinh[a+b*x^n]^p/(m+1) - 
-  b*n*p*x^(m+n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) + 
-  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sinh[a+b*x^n]^p,x] + 
-  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Sinh[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m+1)*Cosh[a+b*x^n]^p/(m+1) - 
-  b*n*p*x^(m+n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p-1)/((m+1)*(m+n+1)) + 
-  b^2*n^2*p^2/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cosh[a+b*x^n]^p,x] - 
-  b^2*n^2*p*(p-1)/((m+1)*(m+n+1))*Int[x^(m+2*n)*Cosh[a+b*x^n]^(p-2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p>1 && 0<2*n<1-m && NeQ[m+n+1]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Sinh[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k/e*Subst[Int[x^(k*(m+1)-1)*(a+b*Cosh[c+d*x^(k*n)/e^n])^p,x],x,(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sinh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cosh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && p>1
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^n*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) - 
-  n*Sinh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) - 
-  (p+2)/(p+1)*Int[x^m*Sinh[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^n*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) + 
-  n*Cosh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
-  (p+2)/(p+1)*Int[x^m*Cosh[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-2*n+1] && RationalQ[p] && p<-1 && p!=-2
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  x^(m-n+1)*Cosh[a+b*x^n]*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)*x^(m-2*n+1)*Sinh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) -
-  (p+2)/(p+1)*Int[x^m*Sinh[a+b*x^n]^(p+2),x] +
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Sinh[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_]^p_,x_Symbol] :=
-  -x^(m-n+1)*Sinh[a+b*x^n]*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) +
-  (m-n+1)*x^(m-2*n+1)*Cosh[a+b*x^n]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (p+2)/(p+1)*Int[x^m*Cosh[a+b*x^n]^(p+2),x] -
-  (m-n+1)*(m-2*n+1)/(b^2*n^2*(p+1)*(p+2))*Int[x^(m-2*n)*Cosh[a+b*x^n]^(p+2),x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && RationalQ[p] && p<-1 && p!=-2 && 0<2*n<m+1 
-
-
-Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[p] && NegativeIntegerQ[n] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/e*Subst[Int[(a+b*Sinh[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  With[{k=Denominator[m]},
-  -k/e*Subst[Int[(a+b*Cosh[c+d/(e^n*x^(k*n))])^p/x^(k*(m+1)+1),x],x,1/(e*x)^(1/k)]] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && NegativeIntegerQ[n] && FractionQ[m]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Sinh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[(e_.*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  -(e*x)^m*(x^(-1))^m*Subst[Int[(a+b*Cosh[c+d*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && NegativeIntegerQ[n] && Not[RationalQ[m]]
-
-
-Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Sinh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Module[{k=Denominator[n]},
-  k*Subst[Int[x^(k*(m+1)-1)*(a+b*Cosh[c+d*x^(k*n)])^p,x],x,x^(1/k)]] /;
-FreeQ[{a,b,c,d,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && FractionQ[n]
-
-
-Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*Sinh[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[(a+b*Cosh[c+d*x^Simplify[n/(m+1)]])^p,x],x,x^(m+1)] /;
-FreeQ[{a,b,c,d,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sinh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_*x_)^m_*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Cosh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && IntegerQ[p] && NeQ[m+1] && PositiveIntegerQ[Simplify[n/(m+1)]] && Not[IntegerQ[n]]
-
-
-Int[(e_.*x_)^m_.*Sinh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(c+d*x^n),x] - 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
-FreeQ[{c,d,e,m,n},x]
-
-
-Int[(e_.*x_)^m_.*Cosh[c_.+d_.*x_^n_],x_Symbol] :=
-  1/2*Int[(e*x)^m*E^(c+d*x^n),x] + 1/2*Int[(e*x)^m*E^(-c-d*x^n),x] /;
-FreeQ[{c,d,e,m,n},x]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Sinh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*x_^n_])^p_,x_Symbol] :=
-  Int[ExpandTrigReduce[(e*x)^m,(a+b*Cosh[c+d*x^n])^p,x],x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && PositiveIntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Sinh[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]^(m+1)*Subst[Int[(x-Coefficient[u,x,0])^m*(a+b*Cosh[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x] && IntegerQ[m]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Sinh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*Sinh[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
-
-
-Int[(e_.*x_)^m_.*(a_.+b_.*Cosh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(e*x)^m*(a+b*Cosh[c+d*u^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x] && LinearQ[u,x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sinh[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Sinh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Cosh[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Cosh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_.]^p_.*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
-  Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
-FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_.]^p_.*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
-  Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) /;
-FreeQ[{a,b,m,n,p},x] && EqQ[m-n+1] && NeQ[p+1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_^n_.]^p_.*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
-  x^(m-n+1)*Sinh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Sinh[a+b*x^n]^(p+1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_^n_.]^p_.*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
-  x^(m-n+1)*Cosh[a+b*x^n]^(p+1)/(b*n*(p+1)) -
-  (m-n+1)/(b*n*(p+1))*Int[x^(m-n)*Cosh[a+b*x^n]^(p+1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m,n] && 0<n<m+1 && NeQ[p+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.1.13 (d+e x)^m sinh(a+b x+c x^2)^n*)
-(**)
-
-
-Int[Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  1/2*Int[E^(a+b*x+c*x^2),x] - 1/2*Int[E^(-a-b*x-c*x^2),x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  1/2*Int[E^(a+b*x+c*x^2),x] + 1/2*Int[E^(-a-b*x-c*x^2),x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[Sinh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[Sinh[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[Cosh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[Cosh[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[Sinh[v_]^n_.,x_Symbol] :=
-  Int[Sinh[ExpandToSum[v,x]]^n,x] /;
-PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
-
-
-Int[Cosh[v_]^n_.,x_Symbol] :=
-  Int[Cosh[ExpandToSum[v,x]]^n,x] /;
-PositiveIntegerQ[n] && QuadraticQ[v,x] && Not[QuadraticMatchQ[v,x]]
-
-
-Int[(d_.+e_.*x_)*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Cosh[a+b*x+c*x^2]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Sinh[a+b*x+c*x^2]/(2*c) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Cosh[a+b*x+c*x^2]/(2*c) -
-  (b*e-2*c*d)/(2*c)*Int[Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Sinh[a+b*x+c*x^2]/(2*c) - 
-  (b*e-2*c*d)/(2*c)*Int[Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2]/(2*c) -
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2]/(2*c) - 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2]/(2*c) -
-  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2],x] -
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*(d+e*x)^(m-1)*Sinh[a+b*x+c*x^2]/(2*c) - 
-  (b*e-2*c*d)/(2*c)*Int[(d+e*x)^(m-1)*Cosh[a+b*x+c*x^2],x] - 
-  e^2*(m-1)/(2*c)*Int[(d+e*x)^(m-2)*Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m>1 && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Sinh[a+b*x+c*x^2]/(e*(m+1)) -
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Cosh[a+b*x+c*x^2]/(e*(m+1)) - 
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && EqQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Sinh[a+b*x+c*x^2]/(e*(m+1)) -
-  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Cosh[a+b*x+c*x^2],x] -
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  (d+e*x)^(m+1)*Cosh[a+b*x+c*x^2]/(e*(m+1)) - 
-  (b*e-2*c*d)/(e^2*(m+1))*Int[(d+e*x)^(m+1)*Sinh[a+b*x+c*x^2],x] -
-  2*c/(e^2*(m+1))*Int[(d+e*x)^(m+2)*Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m] && m<-1 && NeQ[b*e-2*c*d]
-
-
-Int[(d_.+e_.*x_)^m_.*Sinh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Sinh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x]
-
-
-Int[(d_.+e_.*x_)^m_.*Cosh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Cosh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x]
-
-
-Int[(d_.+e_.*x_)^m_.*Sinh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[(d+e*x)^m,Sinh[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[n] && n>1
-
-
-Int[(d_.+e_.*x_)^m_.*Cosh[a_.+b_.*x_+c_.*x_^2]^n_,x_Symbol] :=
-  Int[ExpandTrigReduce[(d+e*x)^m,Cosh[a+b*x+c*x^2]^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[n] && n>1
-
-
-Int[u_^m_.*Sinh[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Sinh[ExpandToSum[v,x]]^n,x] /;
-FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-Int[u_^m_.*Cosh[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Cosh[ExpandToSum[v,x]]^n,x] /;
-FreeQ[m,x] && PositiveIntegerQ[n] && LinearQ[u,x] && QuadraticQ[v,x] && Not[LinearMatchQ[u,x] && QuadraticMatchQ[v,x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.2.10 (c+d x)^m (a+b tanh)^n*)
-
-
-Int[u_^m_.*(a_.+b_.*Tanh[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Tanh[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*(a_.+b_.*Coth[v_])^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*(a+b*Coth[ExpandToSum[v,x]])^n,x] /;
-FreeQ[{a,b,m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.2.11 (e x)^m (a+b tanh(c+d x^n))^p*)
-
-
-Int[(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Tanh[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Coth[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Tanh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Coth[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Tanh[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Tanh[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Coth[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Coth[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Tanh[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Tanh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Coth[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Coth[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Tanh[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Coth[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*Tanh[c_.+d_.*x_^n_]^2,x_Symbol] :=
-  -x^(m-n+1)*Tanh[c+d*x^n]/(d*n) + Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Tanh[c+d*x^n],x] /;
-FreeQ[{c,d,m,n},x]
-
-
-Int[x_^m_.*Coth[c_.+d_.*x_^n_]^2,x_Symbol] :=
-  -x^(m-n+1)*Coth[c+d*x^n]/(d*n) + Int[x^m,x] + (m-n+1)/(d*n)*Int[x^(m-n)*Coth[c+d*x^n],x] /;
-FreeQ[{c,d,m,n},x]
-
-
-Int[x_^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Tanh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Coth[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Tanh[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Tanh[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Coth[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Coth[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Tanh[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Tanh[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Coth[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Coth[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sech[a_.+b_.*x_^n_.]^p_.*Tanh[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
-  -x^(m-n+1)*Sech[a+b*x^n]^p/(b*n*p) +
-  (m-n+1)/(b*n*p)*Int[x^(m-n)*Sech[a+b*x^n]^p,x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
-
-
-Int[x_^m_.*Csch[a_.+b_.*x_^n_.]^p_.*Coth[a_.+b_.*x_^n_.]^q_.,x_Symbol] :=
-  -x^(m-n+1)*Csch[a+b*x^n]^p/(b*n*p) +
-  (m-n+1)/(b*n*p)*Int[x^(m-n)*Csch[a+b*x^n]^p,x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && q===1
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.2.12 (d+e x)^m tanh(a+b x+c x^2)^n*)
-(**)
-
-
-Int[Tanh[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Tanh[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[Coth[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][Coth[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(d_.+e_.*x_)*Tanh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Log[Cosh[a+b*x+c*x^2]]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Tanh[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)*Coth[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  e*Log[Sinh[a+b*x+c*x^2]]/(2*c) + 
-  (2*c*d-b*e)/(2*c)*Int[Coth[a+b*x+c*x^2],x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-(* Int[x_^m_*Tanh[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  x^(m-1)*Log[Cosh[a+b*x+c*x^2]]/(2*c) -
-  b/(2*c)*Int[x^(m-1)*Tanh[a+b*x+c*x^2],x] -
-  (m-1)/(2*c)*Int[x^(m-2)*Log[Cosh[a+b*x+c*x^2]],x] /;
-FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
-
-
-(* Int[x_^m_*Coth[a_.+b_.*x_+c_.*x_^2],x_Symbol] :=
-  x^(m-1)*Log[Sinh[a+b*x+c*x^2]]/(2*c) -
-  b/(2*c)*Int[x^(m-1)*Coth[a+b*x+c*x^2],x] -
-  (m-1)/(2*c)*Int[x^(m-2)*Log[Sinh[a+b*x+c*x^2]],x] /;
-FreeQ[{a,b,c},x] && RationalQ[m] && m>1 *)
-
-
-Int[(d_.+e_.*x_)^m_.*Tanh[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Tanh[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[(d_.+e_.*x_)^m_.*Coth[a_.+b_.*x_+c_.*x_^2]^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x)^m*Coth[a+b*x+c*x^2]^n,x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.3.10 (c+d x)^m (a+b sech)^n*)
-
-
-Int[u_^m_.*Sech[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Sech[ExpandToSum[v,x]]^n,x] /;
-FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[u_^m_.*Csch[v_]^n_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*Csch[ExpandToSum[v,x]]^n,x] /;
-FreeQ[{m,n},x] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.3.11 (e x)^m (a+b sech(c+d x^n))^p*)
-(**)
-
-
-Int[(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Sech[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(1/n-1)*(a+b*Csch[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[1/n] && IntegerQ[p]
-
-
-Int[(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Sech[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][(a+b*Csch[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,n,p},x]
-
-
-Int[(a_.+b_.*Sech[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Sech[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Csch[c_.+d_.*u_^n_])^p_.,x_Symbol] :=
-  1/Coefficient[u,x,1]*Subst[Int[(a+b*Csch[c+d*x^n])^p,x],x,u] /;
-FreeQ[{a,b,c,d,n,p},x] && LinearQ[u,x] && NeQ[u-x]
-
-
-Int[(a_.+b_.*Sech[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Sech[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(a_.+b_.*Csch[u_])^p_.,x_Symbol] :=
-  Int[(a+b*Csch[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Sech[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  1/n*Subst[Int[x^(Simplify[(m+1)/n]-1)*(a+b*Csch[c+d*x])^p,x],x,x^n] /;
-FreeQ[{a,b,c,d,m,n,p},x] && PositiveIntegerQ[Simplify[(m+1)/n]] && IntegerQ[p]
-
-
-Int[x_^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Sech[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[x_^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*Csch[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sech[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Sech[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Csch[c_.+d_.*x_^n_])^p_.,x_Symbol] :=
-  e^IntPart[m]*(e*x)^FracPart[m]/x^FracPart[m]*Int[x^m*(a+b*Csch[c+d*x^n])^p,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Sech[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Sech[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[(e_*x_)^m_.*(a_.+b_.*Csch[u_])^p_.,x_Symbol] :=
-  Int[(e*x)^m*(a+b*Csch[ExpandToSum[u,x]])^p,x] /;
-FreeQ[{a,b,e,m,p},x] && BinomialQ[u,x] && Not[BinomialMatchQ[u,x]]
-
-
-Int[x_^m_.*Sech[a_.+b_.*x_^n_.]^p_*Sinh[a_.+b_.*x_^n_.],x_Symbol] :=
-  -x^(m-n+1)*Sech[a+b*x^n]^(p-1)/(b*n*(p-1)) +
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Sech[a+b*x^n]^(p-1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
-
-
-Int[x_^m_.*Csch[a_.+b_.*x_^n_.]^p_*Cosh[a_.+b_.*x_^n_.],x_Symbol] :=
-  -x^(m-n+1)*Csch[a+b*x^n]^(p-1)/(b*n*(p-1)) +
-  (m-n+1)/(b*n*(p-1))*Int[x^(m-n)*Csch[a+b*x^n]^(p-1),x] /;
-FreeQ[{a,b,p},x] && RationalQ[m] && IntegerQ[n] && m-n>=0 && NeQ[p-1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.4.5 (c+d x)^m hyper(a+b x)^n hyper(a+b x)^p*)
-
-
-Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Cosh[a_.+b_.*x_],x_Symbol] :=
-  (c+d*x)^m*Sinh[a+b*x]^(n+1)/(b*(n+1)) - 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Sinh[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]*Cosh[a_.+b_.*x_]^n_.,x_Symbol] :=
-  (c+d*x)^m*Cosh[a+b*x]^(n+1)/(b*(n+1)) - 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Cosh[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Cosh[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(c+d*x)^m,Sinh[a+b*x]^n*Cosh[a+b*x]^p,x],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Sinh[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Int[(c+d*x)^m*Sinh[a+b*x]^n*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sinh[a+b*x]^(n-2)*Tanh[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Cosh[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
-  Int[(c+d*x)^m*Cosh[a+b*x]^n*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Cosh[a+b*x]^(n-2)*Coth[a+b*x]^p,x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n,p]
-
-
-Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
-  -(c+d*x)^m*Sech[a+b*x]^n/(b*n) + 
-  d*m/(b*n)*Int[(c+d*x)^(m-1)*Sech[a+b*x]^n,x] /;
-FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
-  -(c+d*x)^m*Csch[a+b*x]^n/(b*n) + 
-  d*m/(b*n)*Int[(c+d*x)^(m-1)*Csch[a+b*x]^n,x] /;
-FreeQ[{a,b,c,d,n},x] && p===1 && RationalQ[m] && m>0
-
-
-Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^2*Tanh[a_.+b_.*x_]^n_.,x_Symbol] :=
-  (c+d*x)^m*Tanh[a+b*x]^(n+1)/(b*(n+1)) - 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Tanh[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^2*Coth[a_.+b_.*x_]^n_.,x_Symbol] :=
-  -(c+d*x)^m*Coth[a+b*x]^(n+1)/(b*(n+1)) + 
-  d*m/(b*(n+1))*Int[(c+d*x)^(m-1)*Coth[a+b*x]^(n+1),x] /;
-FreeQ[{a,b,c,d,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]*Tanh[a_.+b_.*x_]^p_,x_Symbol] :=
-  Int[(c+d*x)^m*Sech[a+b*x]*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sech[a+b*x]^3*Tanh[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_,x_Symbol] :=
-  Int[(c+d*x)^m*Sech[a+b*x]^n*Tanh[a+b*x]^(p-2),x] - Int[(c+d*x)^m*Sech[a+b*x]^(n+2)*Tanh[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]*Coth[a_.+b_.*x_]^p_,x_Symbol] :=
-  Int[(c+d*x)^m*Csch[a+b*x]*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csch[a+b*x]^3*Coth[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_,x_Symbol] :=
-  Int[(c+d*x)^m*Csch[a+b*x]^n*Coth[a+b*x]^(p-2),x] + Int[(c+d*x)^m*Csch[a+b*x]^(n+2)*Coth[a+b*x]^(p-2),x] /;
-FreeQ[{a,b,c,d,m,n},x] && PositiveIntegerQ[p/2]
-
-
-Int[(c_.+d_.*x_)^m_.*Sech[a_.+b_.*x_]^n_.*Tanh[a_.+b_.*x_]^p_.,x_Symbol] :=
-  With[{u=IntHide[Sech[a+b*x]^n*Tanh[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Coth[a_.+b_.*x_]^p_.,x_Symbol] :=
-  With[{u=IntHide[Csch[a+b*x]^n*Coth[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d,n,p},x] && PositiveIntegerQ[m] && (EvenQ[n] || OddQ[p])
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Sech[a_.+b_.*x_]^n_., x_Symbol] :=
-  2^n*Int[(c+d*x)^m*Csch[2*a+2*b*x]^n,x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[m] && IntegerQ[n]
-
-
-Int[(c_.+d_.*x_)^m_.*Csch[a_.+b_.*x_]^n_.*Sech[a_.+b_.*x_]^p_., x_Symbol] :=
-  With[{u=IntHide[Csch[a+b*x]^n*Sech[a+b*x]^p,x]},
-  Dist[(c+d*x)^m,u,x] - d*m*Int[(c+d*x)^(m-1)*u,x]] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[n,p] && RationalQ[m] && m>0 && n!=p
-
-
-Int[u_^m_.*F_[v_]^n_.*G_[w_]^p_.,x_Symbol] :=
-  Int[ExpandToSum[u,x]^m*F[ExpandToSum[v,x]]^n*G[ExpandToSum[v,x]]^p,x] /;
-FreeQ[{m,n,p},x] && HyperbolicQ[F] && HyperbolicQ[G] && EqQ[v-w] && LinearQ[{u,v,w},x] && Not[LinearMatchQ[{u,v,w},x]]
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]*(a_+b_.*Sinh[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Sinh[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sinh[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]*(a_+b_.*Cosh[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Cosh[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Cosh[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sech[c_.+d_.*x_]^2*(a_+b_.*Tanh[c_.+d_.*x_])^n_.,x_Symbol] :=
-  (e+f*x)^m*(a+b*Tanh[c+d*x])^(n+1)/(b*d*(n+1)) - 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Tanh[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Csch[c_.+d_.*x_]^2*(a_+b_.*Coth[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Coth[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Coth[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sech[c_.+d_.*x_]*Tanh[c_.+d_.*x_]*(a_+b_.*Sech[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Sech[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Sech[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Csch[c_.+d_.*x_]*Coth[c_.+d_.*x_]*(a_+b_.*Csch[c_.+d_.*x_])^n_.,x_Symbol] :=
-  -(e+f*x)^m*(a+b*Csch[c+d*x])^(n+1)/(b*d*(n+1)) + 
-  f*m/(b*d*(n+1))*Int[(e+f*x)^(m-1)*(a+b*Csch[c+d*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && NeQ[n+1]
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*x_]^p_.*Sinh[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Sinh[a+b*x]^p*Sinh[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[a_.+b_.*x_]^p_.*Cosh[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Cosh[a+b*x]^p*Cosh[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[p,q] && IntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*x_]^p_.*Cosh[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[(e+f*x)^m,Sinh[a+b*x]^p*Cosh[c+d*x]^q,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && PositiveIntegerQ[p,q]
-
-
-Int[(e_.+f_.*x_)^m_.*F_[a_.+b_.*x_]^p_.*G_[c_.+d_.*x_]^q_.,x_Symbol] :=
-  Int[ExpandTrigExpand[(e+f*x)^m*G[c+d*x]^q,F,c+d*x,p,b/d,x],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && MemberQ[{Sinh,Cosh},F] && MemberQ[{Sech,Csch},G] && 
-  PositiveIntegerQ[p,q] && EqQ[b*c-a*d] && PositiveIntegerQ[b/d-1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.4.6 F^(c (a+b x)) hyper(d+e x)^n*)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_],x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) + 
-  e*F^(c*(a+b*x))*Cosh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2-b^2*c^2*Log[F]^2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_],x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) + 
-  e*F^(c*(a+b*x))*Sinh[d+e*x]/(e^2-b^2*c^2*Log[F]^2) /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2-b^2*c^2*Log[F]^2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2) + 
-  e*n*F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n-1)/(e^2*n^2-b^2*c^2*Log[F]^2) - 
-  n*(n-1)*e^2/(e^2*n^2-b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Sinh[d+e*x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2) + 
-  e*n*F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n-1)/(e^2*n^2-b^2*c^2*Log[F]^2) + 
-  n*(n-1)*e^2/(e^2*n^2-b^2*c^2*Log[F]^2)*Int[F^(c*(a+b*x))*Cosh[d+e*x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
-  F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n+1)/(e*(n+1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
-  F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n+1)/(e*(n+1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && NeQ[n+1] && NeQ[n+2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Sinh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) + 
-  F^(c*(a+b*x))*Cosh[d+e*x]*Sinh[d+e*x]^(n+1)/(e*(n+1)) - 
-  (e^2*(n+2)^2-b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Sinh[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Cosh[d+e*x]^(n+2)/(e^2*(n+1)*(n+2)) - 
-  F^(c*(a+b*x))*Sinh[d+e*x]*Cosh[d+e*x]^(n+1)/(e*(n+1)) + 
-  (e^2*(n+2)^2-b^2*c^2*Log[F]^2)/(e^2*(n+1)*(n+2))*Int[F^(c*(a+b*x))*Cosh[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n+2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_,x_Symbol] :=
-  E^(n*(d+e*x))*Sinh[d+e*x]^n/(-1+E^(2*(d+e*x)))^n*Int[F^(c*(a+b*x))*(-1+E^(2*(d+e*x)))^n/E^(n*(d+e*x)),x] /;
-FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_,x_Symbol] :=
-  E^(n*(d+e*x))*Cosh[d+e*x]^n/(1+E^(2*(d+e*x)))^n*Int[F^(c*(a+b*x))*(1+E^(2*(d+e*x)))^n/E^(n*(d+e*x)),x] /;
-FreeQ[{F,a,b,c,d,e,n},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Tanh[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[F^(c*(a+b*x))*(-1+E^(2*(d+e*x)))^n/(1+E^(2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Coth[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[F^(c*(a+b*x))*(1+E^(2*(d+e*x)))^n/(-1+E^(2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*(Sech[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
-  e*n*F^(c*(a+b*x))*Sech[d+e*x]^(n+1)*(Sinh[d+e*x]/(e^2*n^2-b^2*c^2*Log[F]^2)) + 
-  e^2*n*((n+1)/(e^2*n^2-b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Sech[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*(Csch[d+e*x]^n/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
-  e*n*F^(c*(a+b*x))*Csch[d+e*x]^(n+1)*(Cosh[d+e*x]/(e^2*n^2-b^2*c^2*Log[F]^2)) - 
-  e^2*n*((n+1)/(e^2*n^2-b^2*c^2*Log[F]^2))*Int[F^(c*(a+b*x))*Csch[d+e*x]^(n+2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*n^2+b^2*c^2*Log[F]^2] && RationalQ[n] && n<-1
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Sech[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) + 
-  F^(c*(a+b*x))*Sech[d+e*x]^(n-1)*Sinh[d+e*x]/(e*(n-1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && NeQ[n-1] && NeQ[n-2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Csch[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) - 
-  F^(c*(a+b*x))*Csch[d+e*x]^(n-1)*Cosh[d+e*x]/(e*(n-1)) /;
-FreeQ[{F,a,b,c,d,e,n},x] && EqQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && NeQ[n-1] && NeQ[n-2]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_,x_Symbol] :=
-  b*c*Log[F]*F^(c*(a+b*x))*Sech[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) + 
-  F^(c*(a+b*x))*Sech[d+e*x]^(n-1)*Sinh[d+e*x]/(e*(n-1)) +
-  (e^2*(n-2)^2-b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Sech[d+e*x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1 && n!=2
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_,x_Symbol] :=
-  -b*c*Log[F]*F^(c*(a+b*x))*Csch[d+e*x]^(n-2)/(e^2*(n-1)*(n-2)) - 
-  F^(c*(a+b*x))*Csch[d+e*x]^(n-1)*Cosh[d+e*x]/(e*(n-1)) -
-  (e^2*(n-2)^2-b^2*c^2*Log[F]^2)/(e^2*(n-1)*(n-2))*Int[F^(c*(a+b*x))*Csch[d+e*x]^(n-2),x] /;
-FreeQ[{F,a,b,c,d,e},x] && NeQ[e^2*(n-2)^2-b^2*c^2*Log[F]^2] && RationalQ[n] && n>1 && n!=2
-
-
-(* Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
-  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(n*(d+e*x))/(1+E^(2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
-
-
-(* Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
-  2^n*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-n*(d+e*x))/(1-E^(-2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n] *)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
-  2^n*E^(n*(d+e*x))*F^(c*(a+b*x))/(e*n+b*c*Log[F])*Hypergeometric2F1[n,n/2+b*c*Log[F]/(2*e),1+n/2+b*c*Log[F]/(2*e),-E^(2*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (-2)^n*E^(n*(d+e*x))*F^(c*(a+b*x))/(e*n+b*c*Log[F])*Hypergeometric2F1[n,n/2+b*c*Log[F]/(2*e),1+n/2+b*c*Log[F]/(2*e),E^(2*(d+e*x))] /;
-FreeQ[{F,a,b,c,d,e},x] && IntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sech[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (1+E^(2*(d+e*x)))^n*Sech[d+e*x]^n/E^(n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(n*(d+e*x))/(1+E^(2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Csch[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (1-E^(-2*(d+e*x)))^n*Csch[d+e*x]^n/E^(-n*(d+e*x))*Int[SimplifyIntegrand[F^(c*(a+b*x))*E^(-n*(d+e*x))/(1-E^(-2*(d+e*x)))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && Not[IntegerQ[n]]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Sinh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*f^n*Int[F^(c*(a+b*x))*Cosh[d/2+e*x/2-f*Pi/(4*g)]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2+g^2] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*g^n*Int[F^(c*(a+b*x))*Cosh[d/2+e*x/2]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  2^n*g^n*Int[F^(c*(a+b*x))*Sinh[d/2+e*x/2]^(2*n),x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && NegativeIntegerQ[n]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^m_.*(f_+g_.*Sinh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[F^(c*(a+b*x))*Tanh[d/2+e*x/2-f*Pi/(4*g)]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f^2+g^2] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[F^(c*(a+b*x))*Tanh[d/2+e*x/2]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f-g] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*(f_+g_.*Cosh[d_.+e_.*x_])^n_.,x_Symbol] :=
-  g^n*Int[F^(c*(a+b*x))*Coth[d/2+e*x/2]^m,x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && EqQ[f+g] && IntegersQ[m,n] && m+n==0
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Cosh[d_.+e_.*x_])/(f_+g_.*Sinh[d_.+e_.*x_]),x_Symbol] :=
-  2*i*Int[F^(c*(a+b*x))*(Cosh[d+e*x]/(f+g*Sinh[d+e*x])),x] + 
-  Int[F^(c*(a+b*x))*((h-i*Cosh[d+e*x])/(f+g*Sinh[d+e*x])),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2+g^2] && EqQ[h^2-i^2] && EqQ[g*h-f*i]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*(h_+i_.*Sinh[d_.+e_.*x_])/(f_+g_.*Cosh[d_.+e_.*x_]),x_Symbol] :=
-  2*i*Int[F^(c*(a+b*x))*(Sinh[d+e*x]/(f+g*Cosh[d+e*x])),x] + 
-  Int[F^(c*(a+b*x))*((h-i*Sinh[d+e*x])/(f+g*Cosh[d+e*x])),x] /;
-FreeQ[{F,a,b,c,d,e,f,g,h,i},x] && EqQ[f^2-g^2] && EqQ[h^2+i^2] && EqQ[g*h+f*i]
-
-
-Int[F_^(c_.*u_)*G_[v_]^n_.,x_Symbol] :=
-  Int[F^(c*ExpandToSum[u,x])*G[ExpandToSum[v,x]]^n,x] /;
-FreeQ[{F,c,n},x] && HyperbolicQ[G] && LinearQ[{u,v},x] && Not[LinearMatchQ[{u,v},x]]
-
-
-Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Module[{u=IntHide[F^(c*(a+b*x))*Sinh[d+e*x]^n,x]},
-  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
-
-
-Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Module[{u=IntHide[F^(c*(a+b*x))*Cosh[d+e*x]^n,x]},
-  Dist[(f*x)^m,u,x] - f*m*Int[(f*x)^(m-1)*u,x]] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] && GtQ[m,0]
-
-
-Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_],x_Symbol] :=
-  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Sinh[d+e*x] - 
-  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cosh[d+e*x],x] - 
-  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sinh[d+e*x],x] /;
-FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
-
-
-Int[(f_.*x_)^m_*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_],x_Symbol] :=
-  (f*x)^(m+1)/(f*(m+1))*F^(c*(a+b*x))*Cosh[d+e*x] - 
-  e/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Sinh[d+e*x],x] - 
-  b*c*Log[F]/(f*(m+1))*Int[(f*x)^(m+1)*F^(c*(a+b*x))*Cosh[d+e*x],x] /;
-FreeQ[{F,a,b,c,d,e,f,m},x] && (LtQ[m,-1] || SumSimplerQ[m,1])
-
-
-(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^n_.,x_Symbol] :=
-  (-1)^n/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-(d+e*x))-E^(d+e*x))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
-
-
-(* Int[(f_.*x_)^m_.*F_^(c_.*(a_.+b_.*x_))*Cosh[d_.+e_.*x_]^n_.,x_Symbol] :=
-  1/2^n*Int[ExpandIntegrand[(f*x)^m*F^(c*(a+b*x)),(E^(-(d+e*x))+E^(d+e*x))^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f},x] && IGtQ[n,0] *)
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*Cosh[f_.+g_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[F^(c*(a+b*x)),Sinh[d+e*x]^m*Cosh[f+g*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n]
-
-
-Int[x_^p_.*F_^(c_.*(a_.+b_.*x_))*Sinh[d_.+e_.*x_]^m_.*Cosh[f_.+g_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^p*F^(c*(a+b*x)),Sinh[d+e*x]^m*Cosh[f+g*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e,f,g},x] && PositiveIntegerQ[m,n,p]
-
-
-Int[F_^(c_.*(a_.+b_.*x_))*G_[d_.+e_.*x_]^m_.*H_[d_.+e_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^(c*(a+b*x)),G[d+e*x]^m*H[d+e*x]^n,x],x] /;
-FreeQ[{F,a,b,c,d,e},x] && PositiveIntegerQ[m,n] && HyperbolicQ[G] && HyperbolicQ[H]
-
-
-Int[F_^u_*Sinh[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Sinh[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
-
-
-Int[F_^u_*Cosh[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Cosh[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[n]
-
-
-Int[F_^u_*Sinh[v_]^m_.*Cosh[v_]^n_.,x_Symbol] :=
-  Int[ExpandTrigToExp[F^u,Sinh[v]^m*Cosh[v]^n,x],x] /;
-FreeQ[F,x] && (LinearQ[u,x] || PolyQ[u,x,2]) && (LinearQ[v,x] || PolyQ[v,x,2]) && PositiveIntegerQ[m,n]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.4.7 x^m hyper(a+b log(c x^n))^p*)
-
-
-Int[Sinh[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[((c*x^n)^b/2 - 1/(2*(c*x^n)^b))^p,x] /;
-FreeQ[c,x] && RationalQ[b,n,p]
-
-
-Int[Cosh[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[((c*x^n)^b/2 + 1/(2*(c*x^n)^b))^p,x] /;
-FreeQ[c,x] && RationalQ[b,n,p]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*(p+2)*Sinh[a+b*Log[c*x^n]]^(p+2)/(p+1) + 
-  x*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2-1] && NeQ[p+1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(p+2)*Cosh[a+b*Log[c*x^n]]^(p+2)/(p+1) - 
-  x*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p+2)^2-1] && NeQ[p+1]
-
-
-Int[Sqrt[Sinh[a_.+b_.*Log[c_.*x_^n_.]]],x_Symbol] :=
-  x*Sqrt[Sinh[a+b*Log[c*x^n]]]/Sqrt[-1+E^(2*a)*(c*x^n)^(4/n)]*
-    Int[Sqrt[-1+E^(2*a)*(c*x^n)^(4/n)]/x,x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b*n-2]
-
-
-Int[Sqrt[Cosh[a_.+b_.*Log[c_.*x_^n_.]]],x_Symbol] :=
-  x*Sqrt[Cosh[a+b*Log[c*x^n]]]/Sqrt[1+E^(2*a)*(c*x^n)^(4/n)]*
-    Int[Sqrt[1+E^(2*a)*(c*x^n)^(4/n)]/x,x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b*n-2]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(-E^(-a*b*n*p)/(2*b*n*p)*(c*x^n)^(-1/(n*p)) + E^(a*b*n*p)/(2*b*n*p)*(c*x^n)^(1/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  Int[ExpandIntegrand[(E^(-a*b*n*p)/2*(c*x^n)^(-1/(n*p)) + E^(a*b*n*p)/2*(c*x^n)^(1/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-1]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -x*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-1) +
-  b*n*x*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-1) /;
-FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2-1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -x*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-1) +
-  b*n*x*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-1) /;
-FreeQ[{a,b,c,n},x] && NeQ[b^2*n^2-1]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Sinh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) + 
-  b*n*p*x*Cosh[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-1) - 
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-1)*Int[Sinh[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Cosh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) + 
-  b*n*p*x*Sinh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-1) + 
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-1)*Int[Cosh[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) -
-  x*Sinh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) -
-  (b^2*n^2*(p+2)^2-1)/(b^2*n^2*(p+1)*(p+2))*Int[Sinh[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2-1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) +
-  x*Cosh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) +
-  (b^2*n^2*(p+2)^2-1)/(b^2*n^2*(p+1)*(p+2))*Int[Cosh[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && p!=-2 && NeQ[b^2*n^2*(p+2)^2-1]
-
-
-Int[Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(-E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((b*n*p+1)*(2-2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
-    Hypergeometric2F1[-p,-(1+b*n*p)/(2*b*n),1-(1+b*n*p)/(2*b*n),E^(-2*a)*(c*x^n)^(-2*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*(E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((b*n*p+1)*(2+2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
-    Hypergeometric2F1[-p,-(1+b*n*p)/(2*b*n),1-(1+b*n*p)/(2*b*n),-E^(-2*a)*(c*x^n)^(-2*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(p+2)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) + 
-  x^(m+1)*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2-(m+1)^2] && NeQ[p+1] && NeQ[m+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p+2)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p+2)/((m+1)*(p+1)) - 
-  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p+2)^2-(m+1)^2] && NeQ[p+1] && NeQ[m+1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  1/2^p*Int[ExpandIntegrand[x^m*(-(m+1)/(b*n*p)*E^(-a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)) + 
-    (m+1)/(b*n*p)*E^((a*b*n*p)/(m+1))*(c*x^n)^((m+1)/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  1/2^p*Int[ExpandIntegrand[x^m*(E^((a*b*n*p)/(m+1))*(c*x^n)^((m+1)/(n*p)) + 
-    E^(-a*b*n*p/(m+1))*(c*x^n)^(-(m+1)/(n*p)))^p,x],x] /;
-FreeQ[{a,b,c,m,n},x] && PositiveIntegerQ[p] && EqQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -(m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) + 
-  b*n*x^(m+1)*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2-(m+1)^2] && NeQ[m+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -(m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) + 
-  b*n*x^(m+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2-(m+1)^2) /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2-(m+1)^2] && NeQ[m+1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) + 
-  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p-1)/(b^2*n^2*p^2-(m+1)^2) - 
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Sinh[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*p^2-(m+1)^2] && RationalQ[p] && p>1 && NeQ[m+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) + 
-  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p-1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-(m+1)^2) + 
-  b^2*n^2*p*(p-1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Cosh[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*p^2-(m+1)^2] && RationalQ[p] && p>1 && NeQ[m+1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*Coth[a+b*Log[c*x^n]]*Sinh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) - 
-  (m+1)*x^(m+1)*Sinh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) - 
-  (b^2*n^2*(p+2)^2-(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Sinh[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*(p+2)^2-(m+1)^2] && RationalQ[p] && p<-1 && p!=-2 && NeQ[m+1]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x^(m+1)*Tanh[a+b*Log[c*x^n]]*Cosh[a+b*Log[c*x^n]]^(p+2)/(b*n*(p+1)) + 
-  (m+1)*x^(m+1)*Cosh[a+b*Log[c*x^n]]^(p+2)/(b^2*n^2*(p+1)*(p+2)) + 
-  (b^2*n^2*(p+2)^2-(m+1)^2)/(b^2*n^2*(p+1)*(p+2))*Int[x^m*Cosh[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && NeQ[b^2*n^2*(p+2)^2-(m+1)^2] && RationalQ[p] && p<-1 && p!=-2 && NeQ[m+1]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*(-E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((m+b*n*p+1)*(2-2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
-    Hypergeometric2F1[-p,-(m+b*n*p+1)/(2*b*n),1-(m+b*n*p+1)/(2*b*n),E^(-2*a)*(c*x^n)^(-2*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*(E^(-a)*(c*x^n)^(-b)+E^a*(c*x^n)^b)^p/((m+b*n*p+1)*(2+2*E^(-2*a)*(c*x^n)^(-2*b))^p)*
-    Hypergeometric2F1[-p,-(m+b*n*p+1)/(2*b*n),1-(m+b*n*p+1)/(2*b*n),-E^(-2*a)*(c*x^n)^(-2*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[Sech[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*Int[((c*x^n)^b/(1+(c*x^n)^(2*b)))^p,x] /;
-FreeQ[c,x] && RationalQ[b,n,p]
-
-
-Int[Csch[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*Int[((c*x^n)^b/(-1+(c*x^n)^(2*b)))^p,x] /;
-FreeQ[c,x] && RationalQ[b,n,p]
-
-
-Int[Sech[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*E^(-a*b*n)*Int[(c*x^n)^(1/n)/(E^(-2*a*b*n)+(c*x^n)^(2/n)),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2-1]
-
-
-Int[Csch[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -2*b*n*E^(-a*b*n)*Int[(c*x^n)^(1/n)/(E^(-2*a*b*n)-(c*x^n)^(2/n)),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[b^2*n^2-1]
-
-
-Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x*Sech[a+b*Log[c*x^n]]^(p-2)/(p-1) + 
-  x*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2-1] && NeQ[p-1]
-
-
-Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(p-2)*x*Csch[a+b*Log[c*x^n]]^(p-2)/(p-1) - 
-  x*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,n,p},x] && EqQ[b^2*n^2*(p-2)^2-1] && NeQ[p-1]
-
-
-Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) +
-  x*Sech[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2-1)/(b^2*n^2*(p-1)*(p-2))*Int[Sech[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-1]
-
-
-Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  x*Csch[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) -
-  (b^2*n^2*(p-2)^2-1)/(b^2*n^2*(p-1)*(p-2))*Int[Csch[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-1]
-
-
-Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -b*n*p*x*Sech[a+b*Log[c*x^n]]^(p+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-1) -
-  x*Sech[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-1)*Int[Sech[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -b*n*p*x*Cosh[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2-1) - 
-  x*Csch[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-1) -
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-1)*Int[Csch[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*x*(E^(2*a)*(c*x^n)^(2*b)+1)^p/(b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)+1))^p*
-    Hypergeometric2F1[p,(b*n*p+1)/(2*b*n),1+(b*n*p+1)/(2*b*n),-E^(2*a)*(c*x^n)^(2*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
-
-
-Int[Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  x*(2-2*E^(2*a)*(c*x^n)^(2*b))^p/(b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)-1))^p*
-    Hypergeometric2F1[p,(b*n*p+1)/(2*b*n),1+(b*n*p+1)/(2*b*n),E^(2*a)*(c*x^n)^(2*b)] /;
-FreeQ[{a,b,c,n,p},x] && NeQ[b^2*n^2*p^2-1]
-
-
-Int[x_^m_.*Sech[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*Int[x^m*((c*x^n)^b/(1+(c*x^n)^(2*b)))^p,x] /;
-FreeQ[c,x] && RationalQ[b,m,n,p]
-
-
-Int[x_^m_.*Csch[b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*Int[x^m*((c*x^n)^b/(-1+(c*x^n)^(2*b)))^p,x] /;
-FreeQ[c,x] && RationalQ[b,m,n,p]
-
-
-Int[x_^m_.*Sec[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  2*E^(-a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(-2*a*b*n/(m+1))+(c*x^n)^(2*(m+1)/n)),x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2-(m+1)^2]
-
-
-Int[x_^m_.*Csc[a_.+b_.*Log[c_.*x_^n_.]],x_Symbol] :=
-  -2*b*n/(m+1)*E^(-a*b*n/(m+1))*Int[x^m*(c*x^n)^((m+1)/n)/(E^(-2*a*b*n/(m+1))-(c*x^n)^(2*(m+1)/n)),x] /;
-FreeQ[{a,b,c,m,n},x] && EqQ[b^2*n^2-(m+1)^2]
-
-
-Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  (p-2)*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) + 
-  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
-
-
-Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(p-2)*x^(m+1)*Csch[a+b*Log[c*x^n]]^(p-2)/((m+1)*(p-1)) - 
-  x^(m+1)*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[b^2*n^2*(p-2)^2+(m+1)^2] && NeQ[m+1] && NeQ[p-1]
-
-
-Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  x^(m+1)*Tanh[a+b*Log[c*x^n]]*Sech[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) +
-  (m+1)*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) +
-  (b^2*n^2*(p-2)^2-(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Sech[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-(m+1)^2]
-
-
-Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -x^(m+1)*Coth[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p-2)/(b*n*(p-1)) -
-  (m+1)*x^(m+1)*Csch[a+b*Log[c*x^n]]^(p-2)/(b^2*n^2*(p-1)*(p-2)) -
-  (b^2*n^2*(p-2)^2-(m+1)^2)/(b^2*n^2*(p-1)*(p-2))*Int[x^m*Csch[a+b*Log[c*x^n]]^(p-2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p>1 && p!=2 && NeQ[b^2*n^2*(p-2)^2-(m+1)^2]
-
-
-Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(m+1)*x^(m+1)*Sech[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) -
-  b*n*p*x^(m+1)*Sech[a+b*Log[c*x^n]]^(p+1)*Sinh[a+b*Log[c*x^n]]/(b^2*n^2*p^2-(m+1)^2) +
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Sech[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_,x_Symbol] :=
-  -(m+1)*x^(m+1)*Csch[a+b*Log[c*x^n]]^p/(b^2*n^2*p^2-(m+1)^2) -
-  b*n*p*x^(m+1)*Cosh[a+b*Log[c*x^n]]*Csch[a+b*Log[c*x^n]]^(p+1)/(b^2*n^2*p^2-(m+1)^2) -
-  b^2*n^2*p*(p+1)/(b^2*n^2*p^2-(m+1)^2)*Int[x^m*Csch[a+b*Log[c*x^n]]^(p+2),x] /;
-FreeQ[{a,b,c,m,n},x] && RationalQ[p] && p<-1 && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Sech[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*x^(m+1)*(E^(2*a)*(c*x^n)^(2*b)+1)^p/(m+b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)+1))^p*
-    Hypergeometric2F1[p,(m+b*n*p+1)/(2*b*n),1+(m+b*n*p+1)/(2*b*n),-E^(2*a)*(c*x^n)^(2*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[x_^m_.*Csch[a_.+b_.*Log[c_.*x_^n_.]]^p_.,x_Symbol] :=
-  2^p*x^(m+1)*(-E^(2*a)*(c*x^n)^(2*b)+1)^p/(m+b*n*p+1)*(E^a*(c*x^n)^b/(E^(2*a)*(c*x^n)^(2*b)-1))^p*
-    Hypergeometric2F1[p,(m+b*n*p+1)/(2*b*n),1+(m+b*n*p+1)/(2*b*n),E^(2*a)*(c*x^n)^(2*b)] /;
-FreeQ[{a,b,c,m,n,p},x] && NeQ[b^2*n^2*p^2-(m+1)^2]
-
-
-Int[Sinh[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Cosh[a*x*Log[b*x]^p]/a - 
-  p*Int[Sinh[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b},x] && RationalQ[p] && p>0
-
-
-Int[Cosh[a_.*x_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sinh[a*x*Log[b*x]^p]/a - 
-  p*Int[Cosh[a*x*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b},x] && RationalQ[p] && p>0
-
-
-Int[Sinh[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Cosh[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) - 
-  p/n*Int[Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] + 
-  (n-1)/(a*n)*Int[Cosh[a*x^n*Log[b*x]^p]/x^n,x] /;
-FreeQ[{a,b},x] && RationalQ[n,p] && p>0
-
-
-Int[Cosh[a_.*x_^n_*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sinh[a*x^n*Log[b*x]^p]/(a*n*x^(n-1)) - 
-  p/n*Int[Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] + 
-  (n-1)/(a*n)*Int[Sinh[a*x^n*Log[b*x]^p]/x^n,x] /;
-FreeQ[{a,b},x] && RationalQ[n,p] && p>0
-
-
-Int[x_^m_.*Sinh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  -Cosh[a*x^n*Log[b*x]^p]/(a*n) - 
-  p/n*Int[x^(n-1)*Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
-
-
-Int[x_^m_.*Cosh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  Sinh[a*x^n*Log[b*x]^p]/(a*n) - 
-  p/n*Int[x^(n-1)*Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] /;
-FreeQ[{a,b,m,n},x] && EqQ[m-n+1] && RationalQ[p] && p>0
-
-
-Int[x_^m_*Sinh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  x^(m-n+1)*Cosh[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Sinh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
-  (m-n+1)/(a*n)*Int[x^(m-n)*Cosh[a*x^n*Log[b*x]^p],x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && p>0 && NeQ[m-n+1]
-
-
-Int[x_^m_*Cosh[a_.*x_^n_.*Log[b_.*x_]^p_.]*Log[b_.*x_]^p_.,x_Symbol] :=
-  x^(m-n+1)*Sinh[a*x^n*Log[b*x]^p]/(a*n) -
-  p/n*Int[x^m*Cosh[a*x^n*Log[b*x]^p]*Log[b*x]^(p-1),x] -
-  (m-n+1)/(a*n)*Int[x^(m-n)*Sinh[a*x^n*Log[b*x]^p],x] /;
-FreeQ[{a,b},x] && RationalQ[m,n,p] && p>0 && NeQ[m-n+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*6.4.8 Active hyperbolic functions*)
-
-
-Int[Sinh[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Sinh[a*x]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[Cosh[a_./(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Cosh[a*x]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[Sinh[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Sinh[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
-
-
-Int[Cosh[e_.*(a_.+b_.*x_)/(c_.+d_.*x_)]^n_.,x_Symbol] :=
-  -1/d*Subst[Int[Cosh[b*e/d-e*(b*c-a*d)*x/d]^n/x^2,x],x,1/(c+d*x)] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n] && NeQ[b*c-a*d]
-
-
-Int[Sinh[u_]^n_.,x_Symbol] :=
-  With[{lst=QuotientOfLinearsParts[u,x]},
-  Int[Sinh[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
-PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
-
-
-Int[Cosh[u_]^n_.,x_Symbol] :=
-  With[{lst=QuotientOfLinearsParts[u,x]},
-  Int[Cosh[(lst[[1]]+lst[[2]]*x)/(lst[[3]]+lst[[4]]*x)]^n,x]] /;
-PositiveIntegerQ[n] && QuotientOfLinearsQ[u,x]
-
-
-Int[u_.*Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
-  Int[u*Sinh[v]^(p+q),x] /;
-EqQ[v-w]
-
-
-Int[u_.*Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
-  Int[u*Cosh[v]^(p+q),x] /;
-EqQ[v-w]
-
-
-Int[Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Sinh[v]^p*Sinh[w]^q,x],x] /;
-PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Cosh[v]^p*Cosh[w]^q,x],x] /;
-PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[x_^m_.*Sinh[v_]^p_.*Sinh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Sinh[v]^p*Sinh[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[x_^m_.*Cosh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Cosh[v]^p*Cosh[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[u_.*Sinh[v_]^p_.*Cosh[w_]^p_.,x_Symbol] :=
-  1/2^p*Int[u*Sinh[2*v]^p,x] /;
-EqQ[v-w] && IntegerQ[p]
-
-
-Int[Sinh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[Sinh[v]^p*Cosh[w]^q,x],x] /;
-PositiveIntegerQ[p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[x_^m_.*Sinh[v_]^p_.*Cosh[w_]^q_.,x_Symbol] :=
-  Int[ExpandTrigReduce[x^m,Sinh[v]^p*Cosh[w]^q,x],x] /;
-PositiveIntegerQ[m,p,q] && (PolynomialQ[v,x] && PolynomialQ[w,x] || BinomialQ[{v,w},x] && IndependentQ[Cancel[v/w],x])
-
-
-Int[Sinh[v_]*Tanh[w_]^n_.,x_Symbol] :=
-  Int[Cosh[v]*Tanh[w]^(n-1),x] - Cosh[v-w]*Int[Sech[w]*Tanh[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cosh[v_]*Coth[w_]^n_.,x_Symbol] :=
-  Int[Sinh[v]*Coth[w]^(n-1),x] + Cosh[v-w]*Int[Csch[w]*Coth[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sinh[v_]*Coth[w_]^n_.,x_Symbol] :=
-  Int[Cosh[v]*Coth[w]^(n-1),x] + Sinh[v-w]*Int[Csch[w]*Coth[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cosh[v_]*Tanh[w_]^n_.,x_Symbol] :=
-  Int[Sinh[v]*Tanh[w]^(n-1),x] - Sinh[v-w]*Int[Sech[w]*Tanh[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sinh[v_]*Sech[w_]^n_.,x_Symbol] :=
-  Cosh[v-w]*Int[Tanh[w]*Sech[w]^(n-1),x] + Sinh[v-w]*Int[Sech[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cosh[v_]*Csch[w_]^n_.,x_Symbol] :=
-  Cosh[v-w]*Int[Coth[w]*Csch[w]^(n-1),x] + Sinh[v-w]*Int[Csch[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Sinh[v_]*Csch[w_]^n_.,x_Symbol] :=
-  Sinh[v-w]*Int[Coth[w]*Csch[w]^(n-1),x] + Cosh[v-w]*Int[Csch[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[Cosh[v_]*Sech[w_]^n_.,x_Symbol] :=
-  Sinh[v-w]*Int[Tanh[w]*Sech[w]^(n-1),x] + Cosh[v-w]*Int[Sech[w]^(n-1),x] /;
-RationalQ[n] && n>0 && FreeQ[v-w,x] && NeQ[v-w]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_+b_.*Sinh[c_.+d_.*x_]*Cosh[c_.+d_.*x_])^n_.,x_Symbol] :=
-  Int[(e+f*x)^m*(a+b*Sinh[2*c+2*d*x]/2)^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[x_^m_.*(a_+b_.*Sinh[c_.+d_.*x_]^2)^n_,x_Symbol] :=
-  1/2^n*Int[x^m*(2*a-b+b*Cosh[2*c+2*d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a-b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
-
-
-Int[x_^m_.*(a_+b_.*Cosh[c_.+d_.*x_]^2)^n_,x_Symbol] :=
-  1/2^n*Int[x^m*(2*a+b+b*Cosh[2*c+2*d*x])^n,x] /;
-FreeQ[{a,b,c,d},x] && NeQ[a+b] && IntegersQ[m,n] && m>0 && n<0 && (n==-1 || m==1 && n==-2)
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
-  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Sinh[a+b*x^n]^p,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[a_.+b_.*(c_+d_.*x_)^n_]^p_.,x_Symbol] :=
-  1/d^(m+1)*Subst[Int[(d*e-c*f+f*x)^m*Cosh[a+b*x^n]^p,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && PositiveIntegerQ[m] && RationalQ[p]
-
-
-Int[(f_.+g_.*x_)^m_./(a_.+b_.*Cosh[d_.+e_.*x_]^2+c_.*Sinh[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(f_.+g_.*x_)^m_.*Sech[d_.+e_.*x_]^2/(b_+c_.*Tanh[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
-FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*Sech[d_.+e_.*x_]^2/(b_.+a_.*Sech[d_.+e_.*x_]^2+c_.*Tanh[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(f_.+g_.*x_)^m_.*Csch[d_.+e_.*x_]^2/(c_+b_.*Coth[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
-FreeQ[{b,c,d,e,f,g},x] && PositiveIntegerQ[m]
-
-
-Int[(f_.+g_.*x_)^m_.*Csch[d_.+e_.*x_]^2/(c_.+b_.*Coth[d_.+e_.*x_]^2+a_.*Csch[d_.+e_.*x_]^2),x_Symbol] :=
-  2*Int[(f+g*x)^m/(2*a+b-c+(b+c)*Cosh[2*d+2*e*x]),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[m] && NeQ[a+b] && NeQ[a+c]
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
-  -(e+f*x)^(m+1)/(b*f*(m+1)) + 
-  Int[(e+f*x)^m*E^(c+d*x)/(a-Rt[a^2+b^2,2]+b*E^(c+d*x)),x] + 
-  Int[(e+f*x)^m*E^(c+d*x)/(a+Rt[a^2+b^2,2]+b*E^(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] (* && PosQ[a^2+b^2] *)
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
-  -(e+f*x)^(m+1)/(b*f*(m+1)) + 
-  Int[(e+f*x)^m*E^(c+d*x)/(a-Rt[a^2-b^2,2]+b*E^(c+d*x)),x] + 
-  Int[(e+f*x)^m*E^(c+d*x)/(a+Rt[a^2-b^2,2]+b*E^(c+d*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] (* && PosQ[a^2+b^2] *)
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]^n_/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
-  1/a*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2),x] + 
-  1/b*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)*Sinh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2+b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]^n_/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
-  1/a*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2),x] + 
-  1/b*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)*Cosh[c+d*x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && EqQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Cosh[c_.+d_.*x_]^n_/(a_+b_.*Sinh[c_.+d_.*x_]),x_Symbol] :=
-  -a/b^2*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2),x] + 
-  1/b*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)*Sinh[c+d*x],x] + 
-  (a^2+b^2)/b^2*Int[(e+f*x)^m*Cosh[c+d*x]^(n-2)/(a+b*Sinh[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2+b^2]
-
-
-Int[(e_.+f_.*x_)^m_.*Sinh[c_.+d_.*x_]^n_/(a_+b_.*Cosh[c_.+d_.*x_]),x_Symbol] :=
-  -a/b^2*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2),x] + 
-  1/b*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)*Cosh[c+d*x],x] + 
-  (a^2-b^2)/b^2*Int[(e+f*x)^m*Sinh[c+d*x]^(n-2)/(a+b*Cosh[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && IntegerQ[n] && n>1 && NeQ[a^2-b^2]
-
-
-Int[(e_.+f_.*x_)*(A_+B_.*Sinh[c_.+d_.*x_])/(a_+b_.*Sinh[c_.+d_.*x_])^2,x_Symbol] :=
-  B*(e+f*x)*Cosh[c+d*x]/(a*d*(a+b*Sinh[c+d*x])) - 
-  B*f/(a*d)*Int[Cosh[c+d*x]/(a+b*Sinh[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A+b*B]
-
-
-Int[(e_.+f_.*x_)*(A_+B_.*Cosh[c_.+d_.*x_])/(a_+b_.*Cosh[c_.+d_.*x_])^2,x_Symbol] :=
-  B*(e+f*x)*Sinh[c+d*x]/(a*d*(a+b*Cosh[c+d*x])) -
-  B*f/(a*d)*Int[Sinh[c+d*x]/(a+b*Cosh[c+d*x]),x] /;
-FreeQ[{a,b,c,d,e,f,A,B},x] && EqQ[a*A-b*B]
-
-
-Int[Sech[v_]^m_.*(a_+b_.*Tanh[v_])^n_.,x_Symbol] :=
-  Int[(a*Cosh[v]+b*Sinh[v])^n,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
-
-
-Int[Csch[v_]^m_.*(a_+b_.*Coth[v_])^n_.,x_Symbol] :=
-  Int[(b*Cosh[v]+a*Sinh[v])^n,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && m+n==0 && OddQ[m]
-
-
-Int[u_.*Sinh[a_.+b_.*x_]^m_.*Sinh[c_.+d_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[u,Sinh[a+b*x]^m*Sinh[c+d*x]^n,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
-
-
-Int[u_.*Cosh[a_.+b_.*x_]^m_.*Cosh[c_.+d_.*x_]^n_.,x_Symbol] :=
-  Int[ExpandTrigReduce[u,Cosh[a+b*x]^m*Cosh[c+d*x]^n,x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m,n]
-
-
-Int[Sech[a_.+b_.*x_]*Sech[c_+d_.*x_],x_Symbol] :=
-  -Csch[(b*c-a*d)/d]*Int[Tanh[a+b*x],x] + Csch[(b*c-a*d)/b]*Int[Tanh[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Csch[a_.+b_.*x_]*Csch[c_+d_.*x_],x_Symbol] :=
-  Csch[(b*c-a*d)/b]*Int[Coth[a+b*x],x] - Csch[(b*c-a*d)/d]*Int[Coth[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Tanh[a_.+b_.*x_]*Tanh[c_+d_.*x_],x_Symbol] :=
-  b*x/d - b/d*Cosh[(b*c-a*d)/d]*Int[Sech[a+b*x]*Sech[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[Coth[a_.+b_.*x_]*Coth[c_+d_.*x_],x_Symbol] :=
-  b*x/d + Cosh[(b*c-a*d)/d]*Int[Csch[a+b*x]*Csch[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && EqQ[b^2-d^2] && NeQ[b*c-a*d]
-
-
-Int[u_.*(a_.*Cosh[v_]+b_.*Sinh[v_])^n_.,x_Symbol] :=
-  Int[u*(a*E^(a/b*v))^n,x] /;
-FreeQ[{a,b,n},x] && EqQ[a^2-b^2]
-
-
-
-`)
 
-func resourcesRubi6HyperbolicFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi6HyperbolicFunctionsM, nil
-}
+FixIntRules[rulelist_] :=
+  Module[{IntDownValues=DownValues[Int],SubstDownValues=DownValues[Subst],
+	SimpDownValues=DownValues[Simp],DistDownValues=DownValues[Dist],lst,object},
+  object=PrintTemporary[Row[{"Modifying ",Length[rulelist]," integration rules to distribute coefficients over sums..."}]];
+  Clear[Int,Subst,Simp,Dist];
+  SetAttributes[{Simp,Dist,Int,Subst},HoldAll];
+  lst=Map[Function[FixIntRule[#,#[[1,1,2,1]]]],rulelist];
+  DownValues[Int]=IntDownValues;
+  DownValues[Subst]=SubstDownValues;
+  DownValues[Simp]=SimpDownValues;
+  DownValues[Dist]=DistDownValues;
+  ClearAttributes[{Simp,Dist,Int,Subst},HoldAll];
+  NotebookDelete[object];
+  lst]
 
-func resourcesRubi6HyperbolicFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi6HyperbolicFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
 
-	info := bindataFileInfo{name: "resources/rubi/6 Hyperbolic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+(* ::Subsection::Closed:: *)
+(*FixIntRule[rule]*)
 
-var _resourcesRubi7InverseHyperbolicFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Inverse Hyperbolic Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.1 (a+b arcsinh(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcSinh[c*x])^n - 
-  b*c*n*Int[x*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcCosh[c*x])^n - 
-  b*c*n*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c/(b*(n+1))*Int[x*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c/(b*(n+1))*Int[x*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c},x] && RationalQ[n] && n<-1
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  1/(b*c)*Subst[Int[x^n*Cosh[a/b-x/b],x],x,a+b*ArcSinh[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  -1/(b*c)*Subst[Int[x^n*Sinh[a/b-x/b],x],x,a+b*ArcCosh[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.2 (d x)^m (a+b arcsinh(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./x_,x_Symbol] :=
-  Subst[Int[(a+b*x)^n/Tanh[x],x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./x_,x_Symbol] :=
-  Subst[Int[(a+b*x)^n/Coth[x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*ArcSinh[c*x])^n/(d*(m+1)) - 
-  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d*x)^(m+1)*(a+b*ArcCosh[c*x])^n/(d*(m+1)) - 
-  b*c*n/(d*(m+1))*Int[(d*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c,d,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcSinh[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcCosh[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1),Sinh[x]^(m-1)*(m+(m+1)*Sinh[x]^2),x],x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  1/(b*c^(m+1)*(n+1))*Subst[Int[ExpandTrigReduce[(a+b*x)^(n+1)*Cosh[x]^(m-1)*(m-(m+1)*Cosh[x]^2),x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && -2<=n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[1+c^2*x^2]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] - 
-  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcSinh[c*x])^(n+1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
-
-
-Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  x^m*Sqrt[-1+c*x]*Sqrt[1+c*x]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  m/(b*c*(n+1))*Int[x^(m-1)*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] - 
-  c*(m+1)/(b*(n+1))*Int[x^(m+1)*(a+b*ArcCosh[c*x])^(n+1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-2
-
-
-Int[x_^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m*Cosh[x],x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,n},x] && PositiveIntegerQ[m]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,m,n},x]
-
-
-Int[(d_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d*x)^m*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,m,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.3 (d+e x^2)^p (a+b arcsinh(c x))^n*)
-
-
-Int[1/(Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])),x_Symbol] :=
-  Log[a+b*ArcSinh[c*x]]/(b*c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d]
-
-
-Int[1/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])),x_Symbol] :=
-  Log[a+b*ArcCosh[c*x]]/(b*c*Sqrt[-d1*d2]) /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2]
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveQ[d] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  (a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && Not[PositiveQ[d1] && NegativeQ[d2]]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^p/(2*p+1)*Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d)^p/((2*p+1))*Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p]
-
-
-(* Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
-  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^p/((2*p+1))*Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p-1/2] && 
-  (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  x*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/2 - 
-  b*c*n*Sqrt[d+e*x^2]/(2*Sqrt[1+c^2*x^2])*Int[x*(a+b*ArcSinh[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/(2*Sqrt[1+c^2*x^2])*Int[(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/2 - 
-  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(2*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[x*(a+b*ArcCosh[c*x])^(n-1),x] - 
-  Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(2*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/((2*p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
-  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/((2*p+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && IntegerQ[p-1/2]
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  x*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(2*p+1) + 
-  2*d1*d2*p/(2*p+1)*Int[(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0
-
-
-(* Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcSinh[c*x])^n/(d*Sqrt[d+e*x^2]) - 
-  b*c*n/Sqrt[d]*Int[x*(a+b*ArcSinh[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && PositiveQ[d] *)
-
-
-(* Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./((d1_+e1_.*x_)^(3/2)*(d2_+e2_.*x_)^(3/2)),x_Symbol] :=
-  x*(a+b*ArcCosh[c*x])^n/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
-  b*c*n/Sqrt[-d1*d2]*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(d1*d2+e1*e2*x^2),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  x*(a+b*ArcSinh[c*x])^n/(d*Sqrt[d+e*x^2]) - 
-  b*c*n*Sqrt[1+c^2*x^2]/(d*Sqrt[d+e*x^2])*Int[x*(a+b*ArcSinh[c*x])^(n-1)/(1+c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./((d1_+e1_.*x_)^(3/2)*(d2_+e2_.*x_)^(3/2)),x_Symbol] :=
-  x*(a+b*ArcCosh[c*x])^n/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
-  b*c*n*Sqrt[1+c*x]*Sqrt[-1+c*x]/(d1*d2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[x*(a+b*ArcCosh[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0
-
-
-(* Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
-  b*c*n*d^p/(2*(p+1))*Int[x*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d)^p/(2*(p+1))*Int[x*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && IntegerQ[p]
-
-
-(* Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
-  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^p/(2*(p+1))*Int[x*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && 
-  IntegerQ[p+1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*(p+1)) + 
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*(p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[x*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
-
-
-Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
-  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^(p+1/2)*Sqrt[1+c*x]*Sqrt[-1+c*x]/(2*(p+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*
-    Int[x*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2 && IntegerQ[p+1/2]
-
-
-Int[(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -x*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*(p+1)) + 
-  (2*p+3)/(2*d1*d2*(p+1))*Int[(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[x*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && p!=-3/2
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/(c*d)*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  -1/(c*d)*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  d^p*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*d^p*(2*p+1)/(b*(n+1))*Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (-d)^p*(-1+c*x)^(p+1/2)*(1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(-d)^p*(2*p+1)/(b*(n+1))*Int[x*(-1+c*x)^(p-1/2)*(1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[p]
-
-
-(* Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (-d1*d2)^p*(-1+c*x)^(p+1/2)*(1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(-d1*d2)^p*(2*p+1)/(b*(n+1))*Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[p-1/2] && 
-  (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*(n+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[x*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(2*p+1)*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(b*(n+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[x*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[p-1/2]
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) - 
-  c*(2*p+1)*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[x*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c*Subst[Int[(a+b*x)^n*Cosh[x]^(2*p+1),x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[2*p] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^p/c*Subst[Int[(a+b*x)^n*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^p/c*Subst[Int[(a+b*x)^n*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
-  (PositiveQ[d1] && NegativeQ[d2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1+c^2*x^2]*Int[(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && PositiveIntegerQ[2*p] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[2*p] && Not[PositiveQ[d1] && NegativeQ[d2]]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[e-c^2*d] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && NeQ[c^2*d+e] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-(* Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2]) *)
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && NeQ[e-c^2*d] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,n},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[n])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && IntegerQ[p]
-
-
-Int[(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n,p},x]
-
-
-Int[(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(d*f+e*g*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2+g^2] && Not[IntegerQ[p]]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[c^2*d+e] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.4 (f x)^m (d+e x^2)^p (a+b arcsinh(c x))^n*)
-
-
-Int[x_*(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Subst[Int[(a+b*x)^n*Tanh[x],x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Subst[Int[(a+b*x)^n*Coth[x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
-  b*n*d^p/(2*c*(p+1))*Int[(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e*(p+1)) - 
-  b*n*(-d)^p/(2*c*(p+1))*Int[(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1] && IntegerQ[p]
-
-
-(* Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
-  b*n*(-d1*d2)^(p-1/2)/(2*c*(p+1))*Int[(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && IntegerQ[p+1/2] && 
-  (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
-  b*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
-  b*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && NeQ[p+1] && IntegerQ[p+1/2]
-
-
-Int[x_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
-  b*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  1/d*Subst[Int[(a+b*x)^n/(Cosh[x]*Sinh[x]),x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  -1/d*Subst[Int[(a+b*x)^n/(Cosh[x]*Sinh[x]),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(d*f*(m+1)) + 
-  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1] && IntegerQ[p]
-
-
-(* Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
-  b*c*n*(-d1*d2)^p/(f*(m+1))*Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && 
-  NeQ[m+1] && IntegerQ[p+1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && 
-  NeQ[m+1] && IntegerQ[p+1/2]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && EqQ[m+2*p+3] && NeQ[m+1]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])/x_,x_Symbol] :=
-  (d+e*x^2)^p*(a+b*ArcSinh[c*x])/(2*p) - 
-  b*c*d^p/(2*p)*Int[(1+c^2*x^2)^(p-1/2),x] + 
-  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])/x,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])/x_,x_Symbol] :=
-  (d+e*x^2)^p*(a+b*ArcCosh[c*x])/(2*p) - 
-  b*c*(-d)^p/(2*p)*Int[(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2),x] + 
-  d*Int[(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])/x,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])/(f*(m+1)) - 
-  b*c*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2),x] - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])/(f*(m+1)) - 
-  b*c*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2),x] - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x]),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && NegativeIntegerQ[(m+1)/2]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1+c^2*x^2)^p,x]},  
-  Dist[d^p*(a+b*ArcSinh[c*x]),u,x] - b*c*d^p*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && IntegerQ[p-1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && 
-  p!=-1/2 && PositiveQ[d]
-
-
-Int[x_^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1+c*x)^p*(-1+c*x)^p,x]},  
-  Dist[(-d1*d2)^p*(a+b*ArcCosh[c*x]),u,x] - b*c*(-d1*d2)^p*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2] && 
-  (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2]) && p!=-1/2 && PositiveQ[d1] && NegativeQ[d2]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1+c^2*x^2)^p,x]},
-  (a+b*ArcSinh[c*x])*Int[x^m*(d+e*x^2)^p,x] - 
-  b*c*d^(p-1/2)*Sqrt[d+e*x^2]/Sqrt[1+c^2*x^2]*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveIntegerQ[p+1/2] && (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
-
-
-Int[x_^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(1+c*x)^p*(-1+c*x)^p,x]},  
-  (a+b*ArcCosh[c*x])*Int[x^m*(d1+e1*x)^p*(d2+e2*x)^p,x] - 
-  b*c*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
-  (PositiveIntegerQ[(m+1)/2] || NegativeIntegerQ[(m+2*p+3)/2])
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && IntegerQ[p]
-
-
-(* Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
-  2*e1*e2*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^p/(f*(m+1))*Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && 
-  IntegerQ[p-1/2] && (PositiveQ[d1] && NegativeQ[d2]) *)
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+1)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
-  c^2*Sqrt[d+e*x^2]/(f^2*(m+1)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+2)*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[(f_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
-  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[(f*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1),x] - 
-  c^2*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f^2*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[((f*x)^(m+2)*(a+b*ArcCosh[c*x])^n)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+1)) - 
-  2*e*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p>0 && m<-1
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+1)) - 
-  2*e1*e2*p/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p>0 && m<-1 && IntegerQ[p-1/2]
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (RationalQ[m] || EqQ[n-1]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d)^p/(f*(m+2*p+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  IntegerQ[p] && (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(f*(m+2)) - 
-  b*c*n*Sqrt[d+e*x^2]/(f*(m+2)*Sqrt[1+c^2*x^2])*Int[(f*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1),x] + 
-  Sqrt[d+e*x^2]/((m+2)*Sqrt[1+c^2*x^2])*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(f*(m+2)) - 
-  b*c*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+2)*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1),x] - 
-  Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/((m+2)*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && Not[RationalQ[m] && m<-1] && 
-  (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n/(f*(m+2*p+1)) + 
-  2*d*p/(m+2*p+1)*Int[(f*x)^m*(d+e*x^2)^(p-1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+2*p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  (RationalQ[m] || EqQ[n-1])
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n/(f*(m+2*p+1)) + 
-  2*d1*d2*p/(m+2*p+1)*Int[(f*x)^m*(d1+e1*x)^(p-1)*(d2+e2*x)^(p-1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^(p-1/2)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(f*(m+2*p+1)*Sqrt[1+c*x]*Sqrt[-1+c*x])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p>0 && Not[RationalQ[m] && m<-1] && 
-  IntegerQ[p-1/2] && (RationalQ[m] || EqQ[n-1])
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(d*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] + 
-  b*c*n*(-d)^p/(f*(m+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(d*f*(m+1)) - 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(f*(m+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] + 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m] && 
-  IntegerQ[p+1/2]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(d1*d2*f*(m+1)) + 
-  c^2*(m+2*p+3)/(f^2*(m+1))*Int[(f*x)^(m+2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] + 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(f*(m+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m<-1 && IntegerQ[m]
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*f*n*d^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && p<-1 && m>1 && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d)^p/(2*c*(p+1))*Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && p<-1 && m>1 && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*e*(p+1)) - 
-  f^2*(m-1)/(2*e*(p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] - 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*c*(p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n,p] && n>0 && p<-1 && m>1
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
-  f^2*(m-1)/(2*e1*e2*(p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p<-1 && m>1 && IntegerQ[p+1/2]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*e1*e2*(p+1)) - 
-  f^2*(m-1)/(2*e1*e2*(p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*c*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n,p] && n>0 && p<-1 && Not[IntegerQ[p]] && m>1
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
-  b*c*n*d^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[p] || PositiveQ[d]) && (IntegerQ[m] || IntegerQ[p] || n==1) *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d)^p/(2*f*(p+1))*Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[c^2*d+e] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(2*d*f*(p+1)) + 
-  (m+2*p+3)/(2*d*(p+1))*Int[(f*x)^m*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n,x] + 
-  b*c*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(2*f*(p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n,p] && n>0 && p<-1 && Not[RationalQ[m] && m>1] && 
-  (IntegerQ[m] || IntegerQ[p] || n==1)
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*f*(p+1)) + 
-  (m+2*p+3)/(2*d1*d2*(p+1))*Int[(f*x)^m*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*f*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && 
-  Not[RationalQ[m] && m>1] && (IntegerQ[m] || n==1) && IntegerQ[p+1/2]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  -(f*x)^(m+1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(2*d1*d2*f*(p+1)) + 
-  (m+2*p+3)/(2*d1*d2*(p+1))*Int[(f*x)^m*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n,x] - 
-  b*c*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(2*f*(p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n,p] && n>0 && p<-1 && 
-  Not[RationalQ[m] && m>1] && (IntegerQ[m] || IntegerQ[p] || n==1)
-
-
-(* Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(e*m) - 
-  b*f*n*Sqrt[1+c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSinh[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && PositiveQ[d] && IntegerQ[m] *)
-
-
-(* Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(e1*e2*m) + 
-  b*f*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(c*d1*d2*m*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[(f*x)^(m-2)*(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m] *)
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n/(e*m) - 
-  b*f*n*Sqrt[1+c^2*x^2]/(c*m*Sqrt[d+e*x^2])*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n-1),x] - 
-  f^2*(m-1)/(c^2*m)*Int[((f*x)^(m-2)*(a+b*ArcSinh[c*x])^n)/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  f*(f*x)^(m-1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n/(e1*e2*m) + 
-  b*f*n*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]/(c*d1*d2*m*Sqrt[1+c*x]*Sqrt[-1+c*x])*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n-1),x] + 
-  f^2*(m-1)/(c^2*m)*Int[(f*x)^(m-2)*(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && IntegerQ[m]
-
-
-Int[x_^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*Sinh[x]^m,x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[x_^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  1/(c^(m+1)*Sqrt[-d1*d2])*Subst[Int[(a+b*x)^n*Cosh[x]^m,x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[n] && 
-  PositiveQ[d1] && NegativeQ[d2] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f*x)^(m+1)*(a+b*ArcSinh[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,-c^2*x^2]/(Sqrt[d]*f*(m+1)) - 
-  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},-c^2*x^2]/(Sqrt[d]*f^2*(m+1)*(m+2)) /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && PositiveQ[d] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  (f*x)^(m+1)*Sqrt[1-c^2*x^2]*(a+b*ArcCosh[c*x])*Hypergeometric2F1[1/2,(1+m)/2,(3+m)/2,c^2*x^2]/
-    (f*(m+1)*Sqrt[d1+e1*x]*Sqrt[d2+e2*x]) + 
-  b*c*(f*x)^(m+2)*HypergeometricPFQ[{1,1+m/2,1+m/2},{3/2+m/2,2+m/2},c^2*x^2]/(Sqrt[-d1*d2]*f^2*(m+1)*(m+2)) /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && Not[IntegerQ[m]]
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n>0 && Not[PositiveQ[d]] && (IntegerQ[m] || n==1)
-
-
-Int[(f_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n>0 && Not[PositiveQ[d1] && NegativeQ[d2]] && 
-  (IntegerQ[m] || n==1)
-
-
-(* Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(e*(m+2*p+1)) - 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
-  b*f*n*d^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
-  (IntegerQ[p] || PositiveQ[d]) && IntegerQ[m] *)
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])^n/(e*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d)^p/(c*(m+2*p+1))*Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[p] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])^n/(e*(m+2*p+1)) - 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] - 
-  b*f*n*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(c*(m+2*p+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,f,p},x] && EqQ[e-c^2*d] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(e1*e2*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(c*(m+2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
-  IntegerQ[m] && IntegerQ[p+1/2]
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  f*(f*x)^(m-1)*(d1+e1*x)^(p+1)*(d2+e2*x)^(p+1)*(a+b*ArcCosh[c*x])^n/(e1*e2*(m+2*p+1)) + 
-  f^2*(m-1)/(c^2*(m+2*p+1))*Int[(f*x)^(m-2)*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] - 
-  b*f*n*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(c*(m+2*p+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c*x)^(p+1/2)*(-1+c*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[m,n] && n>0 && m>1 && NeQ[m+2*p+1] && 
-  IntegerQ[m]
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  d^p*(f*x)^m*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*(-d)^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m,p},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && EqQ[m+2*p+1] && IntegerQ[p-1/2]
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,p},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && EqQ[m+2*p+1]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f*x)^m*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  f*m/(b*c*Sqrt[d]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && PositiveQ[d]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  (f*x)^m*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
-  (f*m)/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(f*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && PositiveQ[d1] && NegativeQ[d2]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1+c^2*x^2]/Sqrt[d+e*x^2]*Int[(f*x)^m*(a+b*ArcSinh[c*x])^n/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && Not[PositiveQ[d]]
-
-
-Int[(f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  Sqrt[1+c*x]*Sqrt[-1+c*x]/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x])*Int[(f*x)^m*(a+b*ArcCosh[c*x])^n/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && Not[PositiveQ[d1] && NegativeQ[d2]]
-
-
-(* Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  d^p*(f*x)^m*(1+c^2*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] - 
-  c*d^p*(m+2*p+1)/(b*f*(n+1))*Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p] && 
-  (IntegerQ[p] || PositiveQ[d]) *)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*(-d)^p/(b*c*(n+1))*Int[(f*x)^(m-1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] - 
-  c*(-d)^p*(m+2*p+1)/(b*f*(n+1))*Int[(f*x)^(m+1)*(1+c*x)^(p-1/2)*(-1+c*x)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c^2*x^2]*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^(n+1)/(b*c*(n+1)) - 
-  f*m*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*c*(n+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m-1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] - 
-  c*(m+2*p+1)*d^IntPart[p]*(d+e*x^2)^FracPart[p]/(b*f*(n+1)*(1+c^2*x^2)^FracPart[p])*
-    Int[(f*x)^(m+1)*(1+c^2*x^2)^(p-1/2)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[e-c^2*d] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && PositiveIntegerQ[2*p]
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  (f*x)^m*Sqrt[1+c*x]*Sqrt[-1+c*x]*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^(n+1)/(b*c*(n+1)) + 
-  f*m*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*c*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m-1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] - 
-  c*(m+2*p+1)*(-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(b*f*(n+1)*(1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^(m+1)*(-1+c^2*x^2)^(p-1/2)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && RationalQ[n] && n<-1 && IntegerQ[m] && m>-3 && 
-  PositiveIntegerQ[p+1/2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m*Cosh[x]^(2*p+1),x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[p] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m*Sinh[x]^(2*p+1),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p+1/2] && p>-1 && PositiveIntegerQ[m] && 
-  (PositiveQ[d1] && NegativeQ[d2])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[x^m*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && Not[(IntegerQ[p] || PositiveQ[d])]
-
-
-Int[x_^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[x^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[2*p] && p>-1 && PositiveIntegerQ[m] && 
-  Not[IntegerQ[p] || PositiveQ[d1] && NegativeQ[d2]]
-
-
-Int[(f_.*x_)^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n/Sqrt[d+e*x^2],(f*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[p+1/2] && Not[PositiveIntegerQ[(m+1)/2]] && 
-  IntegerQ[m] && -3<m<0
-
-
-Int[(f_.*x_)^m_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),(f*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[p+1/2] && 
-  Not[PositiveIntegerQ[(m+1)/2]] && IntegerQ[m] && -3<m<0
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  d*(f*x)^(m+1)*(a+b*ArcCosh[c*x])/(f*(m+1)) + 
-  e*(f*x)^(m+3)*(a+b*ArcCosh[c*x])/(f^3*(m+3)) - 
-  b*c/(f*(m+1)*(m+3))*Int[(f*x)^(m+1)*(d*(m+3)+e*(m+1)*x^2)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && NeQ[m+1] && NeQ[m+3]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSinh[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[e-c^2*d] && NeQ[p+1]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCosh[c*x])/(2*e*(p+1)) - b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[c^2*d+e] && NeQ[p+1]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[e-c^2*d] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e,f,m},x] && NeQ[c^2*d+e] && IntegerQ[p] && (p>0 || PositiveIntegerQ[(m-1)/2] && m+p<=0)
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[e-c^2*d] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(f*x)^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,f},x] && NeQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && IntegerQ[m]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d+e*x^2)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && IntegerQ[p]
-
-
-Int[(f_.*x_)^m_.*(d1_+e1_.*x_)^p_.*(d2_+e2_.*x_)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(f*x)^m*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,m,n,p},x]
-
-
-Int[(h_.*x_)^m_.*(d_+e_.*x_)^p_*(f_+g_.*x_)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^FracPart[p]*(f+g*x)^FracPart[p]/(d*f+e*g*x^2)^FracPart[p]*
-    Int[(h*x)^m*(d*f+e*g*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p},x] && EqQ[e*f+d*g] && EqQ[c^2*f^2+g^2] && Not[IntegerQ[p]]
-
-
-Int[(f_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[c^2*d+e] && Not[IntegerQ[p]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.5 u (a+b arcsinh(c x))^n*)
-
-
-Int[(a_.+b_.*ArcSinh[c_.*x_])^n_./(d_.+e_.*x_),x_Symbol] :=
-  Subst[Int[(a+b*x)^n*Cosh[x]/(c*d+e*Sinh[x]),x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCosh[c_.*x_])^n_./(d_.+e_.*x_),x_Symbol] :=
-  Subst[Int[(a+b*x)^n*Sinh[x]/(c*d+e*Cosh[x]),x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*ArcSinh[c*x])^n/(e*(m+1)) - 
-  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x)^(m+1)*(a+b*ArcCosh[c*x])^n/(e*(m+1)) - 
-  b*c*n/(e*(m+1))*Int[(d+e*x)^(m+1)*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[-1+c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c,d,e,m},x] && PositiveIntegerQ[n] && NeQ[m+1]
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcSinh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
-
-
-Int[(d_+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^m*(a+b*ArcCosh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[m] && RationalQ[n] && n<-1
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]*(c*d+e*Sinh[x])^m,x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
-
-
-Int[(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  1/c^(m+1)*Subst[Int[(a+b*x)^n*(c*d+e*Cosh[x])^m*Sinh[x],x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && PositiveIntegerQ[m]
-
-
-Int[Px_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[ExpandExpression[Px,x],x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[ExpandExpression[Px,x],x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x]
-
-
-(* Int[Px_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=IntHide[Px,x]},  
-  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
-
-
-(* Int[Px_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=IntHide[Px,x]},  
-  Dist[(a+b*ArcCosh[c*x])^n,u,x] - 
-    b*c*n*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] *)
-
-
-Int[Px_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(a+b*ArcSinh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(a+b*ArcCosh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,n},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[Px*(d+e*x)^m,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
-
-
-Int[Px_*(d_.+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[Px*(d+e*x)^m,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[u/Sqrt[1-c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,m},x] && PolynomialQ[Px,x]
-
-
-Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
-  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
-
-
-Int[(f_.+g_.*x_)^p_.*(d_+e_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^p*(d+e*x)^m,x]},  
-  Dist[(a+b*ArcCosh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[n,p] && NegativeIntegerQ[m] && m+p+1<0
-
-
-Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
-  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
-  Dist[(a+b*ArcSinh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcSinh[c*x])^(n-1)/Sqrt[1+c^2*x^2],x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
-
-
-Int[(f_.+g_.*x_+h_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(d_+e_.*x_)^2,x_Symbol] :=
-  With[{u=IntHide[(f+g*x+h*x^2)^p/(d+e*x)^2,x]},  
-  Dist[(a+b*ArcCosh[c*x])^n,u,x] - b*c*n*Int[SimplifyIntegrand[u*(a+b*ArcCosh[c*x])^(n-1)/(Sqrt[1+c*x]*Sqrt[-1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[n,p] && EqQ[e*g-2*d*h]
-
-
-Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcSinh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[Px_*(d_+e_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Px*(d+e*x)^m*(a+b*ArcCosh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PolynomialQ[Px,x] && PositiveIntegerQ[n] && IntegerQ[m]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1+c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && m>0 && 
-  (m<-2*p-1 || m>3)
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(f+g*x)^m*(d1+e1*x)^p*(d2+e2*x)^p,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[Dist[1/(Sqrt[1+c*x]*Sqrt[-1+c*x]),u,x],x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && 
-  PositiveQ[d1] && NegativeQ[d2] && m>0 && (m<-2*p-1 || m>3)
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m>0 && 
-  (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && IntegerQ[p+1/2] && 
-  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n] && m>0 && (n==1 && p>-1 || p>0 || m==1 || m==2 && p<-2)
-
-
-Int[(f_.+g_.*x_)^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d+e*x^2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  1/(b*c*Sqrt[d]*(n+1))*Int[(d*g*m+2*e*f*x+e*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_*Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d1*d2+e1*e2*x^2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
-  1/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(d1*d2*g*m+2*e1*e2*f*x+e1*e2*g*(m+2)*x^2)*(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && 
-  PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Sqrt[d+e*x^2]*(a+b*ArcSinh[c*x])^n,(f+g*x)^m*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[Sqrt[d1+e1*x]*Sqrt[d2+e2*x]*(a+b*ArcCosh[c*x])^n,(f+g*x)^m*(d1+e1*x)^(p-1/2)*(d2+e2*x)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveIntegerQ[p+1/2] && 
-  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d+e*x^2)^(p+1/2)*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  1/(b*c*Sqrt[d]*(n+1))*
-    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),(d*g*m+e*f*(2*p+1)*x+e*g*(m+2*p+1)*x^2)*(d+e*x^2)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && PositiveQ[d] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (f+g*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2)*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
-  1/(b*c*Sqrt[-d1*d2]*(n+1))*
-    Int[ExpandIntegrand[(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),
-      (d1*d2*g*m+e1*e2*f*(2*p+1)*x+e1*e2*g*(m+2*p+1)*x^2)*(d1+e1*x)^(p-1/2)*(d2+e2*x)^(p-1/2),x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveIntegerQ[p-1/2] && 
-  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n] && m<0
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  (f+g*x)^m*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcSinh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && m>0 && RationalQ[n] && n<-1
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_/(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  (f+g*x)^m*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
-  g*m/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(f+g*x)^(m-1)*(a+b*ArcCosh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && m>0 && 
-  RationalQ[n] && n<-1
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c^(m+1)*Sqrt[d])*Subst[Int[(a+b*x)^n*(c*f+g*Sinh[x])^m,x],x,ArcSinh[c*x]] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && PositiveQ[d] && (m>0 || PositiveIntegerQ[n])
-
-
-Int[(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  1/(c^(m+1)*Sqrt[-d1*d2])*Subst[Int[(a+b*x)^n*(c*f+g*Cosh[x])^m,x],x,ArcCosh[c*x]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && PositiveQ[d1] && NegativeQ[d2] && 
-  (m>0 || PositiveIntegerQ[n])
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n/Sqrt[d+e*x^2],(f+g*x)^m*(d+e*x^2)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[e-c^2*d] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n/(Sqrt[d1+e1*x]*Sqrt[d2+e2*x]),(f+g*x)^m*(d1+e1*x)^(p+1/2)*(d2+e2*x)^(p+1/2),x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && NegativeIntegerQ[p+1/2] && 
-  PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[(f+g*x)^m*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[(f_+g_.*x_)^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[(f+g*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p-1/2]
-
-
-Int[(f_+g_.*x_)^m_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/(1-c^2*x^2)^FracPart[p]*
-    Int[(f+g*x)^m*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[m] && IntegerQ[p-1/2] && 
-  Not[PositiveQ[d1] && NegativeQ[d2]]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcSinh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Log[h*(f+g*x)^m]*(a+b*ArcSinh[c*x])^(n+1)/(b*c*Sqrt[d]*(n+1)) - 
-  g*m/(b*c*Sqrt[d]*(n+1))*Int[(a+b*ArcSinh[c*x])^(n+1)/(f+g*x),x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m},x] && EqQ[e-c^2*d] && PositiveQ[d] && PositiveIntegerQ[n]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(a_.+b_.*ArcCosh[c_.*x_])^n_./(Sqrt[d1_+e1_.*x_]*Sqrt[d2_+e2_.*x_]),x_Symbol] :=
-  Log[h*(f+g*x)^m]*(a+b*ArcCosh[c*x])^(n+1)/(b*c*Sqrt[-d1*d2]*(n+1)) - 
-  g*m/(b*c*Sqrt[-d1*d2]*(n+1))*Int[(a+b*ArcCosh[c*x])^(n+1)/(f+g*x),x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g,h,m},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveQ[d1] && NegativeQ[d2] && PositiveIntegerQ[n]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  d^IntPart[p]*(d+e*x^2)^FracPart[p]/(1+c^2*x^2)^FracPart[p]*Int[Log[h*(f+g*x)^m]*(1+c^2*x^2)^p*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[e-c^2*d] && IntegerQ[p-1/2] && Not[PositiveQ[d]]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d)^IntPart[p]*(d+e*x^2)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[Log[h*(f+g*x)^m]*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n},x] && EqQ[c^2*d+e] && IntegerQ[p-1/2]
-
-
-Int[Log[h_.*(f_.+g_.*x_)^m_.]*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  (-d1*d2)^IntPart[p]*(d1+e1*x)^FracPart[p]*(d2+e2*x)^FracPart[p]/((1+c*x)^FracPart[p]*(-1+c*x)^FracPart[p])*
-    Int[Log[h*(f+g*x)^m]*(1+c*x)^p*(-1+c*x)^p*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g,h,m,n},x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2] && Not[PositiveQ[d1] && NegativeQ[d2]]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
-  Dist[a+b*ArcSinh[c*x],u,x] - b*c*Int[Dist[1/Sqrt[1+c^2*x^2],u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
-
-
-Int[(d_+e_.*x_)^m_*(f_+g_.*x_)^m_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x)^m*(f+g*x)^m,x]},  
-  Dist[a+b*ArcCosh[c*x],u,x] - b*c*Int[Dist[1/(Sqrt[1+c*x]*Sqrt[-1+c*x]),u,x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m+1/2]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcSinh[c*x])^n,(d+e*x)^m*(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
-
-
-Int[(d_+e_.*x_)^m_.*(f_+g_.*x_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCosh[c*x])^n,(d+e*x)^m*(f+g*x)^m,x],x] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && IntegerQ[m]
-
-
-Int[u_*(a_.+b_.*ArcSinh[c_.*x_]),x_Symbol] :=
-  With[{v=IntHide[u,x]},  
-  Dist[a+b*ArcSinh[c*x],v,x] - b*c*Int[SimplifyIntegrand[v/Sqrt[1+c^2*x^2],x],x] /;
- InverseFunctionFreeQ[v,x]] /;
-FreeQ[{a,b,c},x]
-
-
-Int[u_*(a_.+b_.*ArcCosh[c_.*x_]),x_Symbol] :=
-  With[{v=IntHide[u,x]},  
-  Dist[a+b*ArcCosh[c*x],v,x] - b*c*Sqrt[1-c^2*x^2]/(Sqrt[-1+c*x]*Sqrt[1+c*x])*Int[SimplifyIntegrand[v/Sqrt[1-c^2*x^2],x],x] /;
- InverseFunctionFreeQ[v,x]] /;
-FreeQ[{a,b,c},x]
-
-
-Int[Px_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcSinh[c_.*x_])^n_,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(d+e*x^2)^p*(a+b*ArcSinh[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,n},x] && PolynomialQ[Px,x] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
-
-
-Int[Px_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_.+b_.*ArcCosh[c_.*x_])^n_,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(d1+e1*x)^p*(d2+e2*x)^p*(a+b*ArcCosh[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,n},x] && PolynomialQ[Px,x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2]
-
-
-Int[Px_.*(f_+g_.*(d_+e_.*x_^2)^p_)^m_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(f+g*(d+e*x^2)^p)^m*(a+b*ArcSinh[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PolynomialQ[Px,x] && EqQ[e-c^2*d] && PositiveIntegerQ[p+1/2] && IntegersQ[m,n]
-
-
-Int[Px_.*(f_+g_.*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_)^m_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[Px*(f+g*(d1+e1*x)^p*(d2+e2*x)^p)^m*(a+b*ArcCosh[c*x])^n,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{a,b,c,d1,e1,d2,e2,f,g},x] && PolynomialQ[Px,x] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && PositiveIntegerQ[p+1/2] && 
-  IntegersQ[m,n]
-
-
-Int[RFx_*ArcSinh[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[ArcSinh[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*ArcCosh[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[ArcCosh[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[c,x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[RFx*(a+b*ArcSinh[c*x])^n,x],x] /;
-FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(a_+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[RFx*(a+b*ArcCosh[c*x])^n,x],x] /;
-FreeQ[{a,b,c},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*ArcSinh[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(d+e*x^2)^p*ArcSinh[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*ArcCosh[c_.*x_]^n_.,x_Symbol] :=
-  With[{u=ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p*ArcCosh[c*x]^n,RFx,x]},
-  Int[u,x] /;
- SumQ[u]] /;
-FreeQ[{c,d1,e1,d2,e2},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d_+e_.*x_^2)^p_*(a_+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p,RFx*(a+b*ArcSinh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e-c^2*d] && IntegerQ[p-1/2]
-
-
-Int[RFx_*(d1_+e1_.*x_)^p_*(d2_+e2_.*x_)^p_*(a_+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d1+e1*x)^p*(d2+e2*x)^p,RFx*(a+b*ArcCosh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d1,e1,d2,e2},x] && RationalFunctionQ[RFx,x] && PositiveIntegerQ[n] && EqQ[e1-c*d1] && EqQ[e2+c*d2] && 
-  IntegerQ[p-1/2]
-
-
-Int[u_.*(a_.+b_.*ArcSinh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][u*(a+b*ArcSinh[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[u_.*(a_.+b_.*ArcCosh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][u*(a+b*ArcCosh[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.1.6 Miscellaneous inverse hyperbolic sine*)
-(**)
-
-
-Int[(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,n},x]
-
-
-Int[(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,n},x]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcSinh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(C/d^2+C/d^2*x^2)^p*(a+b*ArcSinh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1+c^2)-2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCosh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCosh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[Sqrt[a_.+b_.*ArcSinh[c_+d_.*x_^2]],x_Symbol] :=
-  x*Sqrt[a+b*ArcSinh[c+d*x^2]] - 
-  Sqrt[Pi]*x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*FresnelC[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
-    (Sqrt[-(c/b)]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
-  Sqrt[Pi]*x*(Cosh[a/(2*b)]+c*Sinh[a/(2*b)])*FresnelS[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
-    (Sqrt[-(c/b)]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
-
-
-Int[(a_.+b_.*ArcSinh[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcSinh[c+d*x^2])^n - 
-  2*b*n*Sqrt[2*c*d*x^2+d^2*x^4]*(a+b*ArcSinh[c+d*x^2])^(n-1)/(d*x) + 
-  4*b^2*n*(n-1)*Int[(a+b*ArcSinh[c+d*x^2])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1] && RationalQ[n] && n>1
-
-
-Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2]),x_Symbol] :=
-  x*(c*Cosh[a/(2*b)]-Sinh[a/(2*b)])*CoshIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
-    (2*b*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[(1/2)*ArcSinh[c+d*x^2]])) + 
-  x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*SinhIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
-    (2*b*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[(1/2)*ArcSinh[c+d*x^2]])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
-
-
-Int[1/Sqrt[a_.+b_.*ArcSinh[c_+d_.*x_^2]],x_Symbol] :=
-  (c+1)*Sqrt[Pi/2]*x*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Erfi[Sqrt[a+b*ArcSinh[c+d*x^2]]/Sqrt[2*b]]/
-    (2*Sqrt[b]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
-  (c-1)*Sqrt[Pi/2]*x*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Erf[Sqrt[a+b*ArcSinh[c+d*x^2]]/Sqrt[2*b]]/
-    (2*Sqrt[b]*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
-
-
-Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2])^(3/2),x_Symbol] :=
-  -Sqrt[2*c*d*x^2+d^2*x^4]/(b*d*x*Sqrt[a+b*ArcSinh[c+d*x^2]]) - 
-  (-c/b)^(3/2)*Sqrt[Pi]*x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*FresnelC[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
-    (Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2]) + 
-  (-c/b)^(3/2)*Sqrt[Pi]*x*(Cosh[a/(2*b)]+c*Sinh[a/(2*b)])*FresnelS[Sqrt[-c/(Pi*b)]*Sqrt[a+b*ArcSinh[c+d*x^2]]]/
-    (Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2]) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
-
-
-Int[1/(a_.+b_.*ArcSinh[c_+d_.*x_^2])^2,x_Symbol] :=
-  -Sqrt[2*c*d*x^2+d^2*x^4]/(2*b*d*x*(a+b*ArcSinh[c+d*x^2])) + 
-  x*(Cosh[a/(2*b)]-c*Sinh[a/(2*b)])*CoshIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
-    (4*b^2*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) + 
-  x*(c*Cosh[a/(2*b)]-Sinh[a/(2*b)])*SinhIntegral[(a+b*ArcSinh[c+d*x^2])/(2*b)]/
-    (4*b^2*(Cosh[ArcSinh[c+d*x^2]/2]+c*Sinh[ArcSinh[c+d*x^2]/2])) /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1]
-
-
-Int[(a_.+b_.*ArcSinh[c_+d_.*x_^2])^n_,x_Symbol] :=
-  -x*(a+b*ArcSinh[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
-  Sqrt[2*c*d*x^2+d^2*x^4]*(a+b*ArcSinh[c+d*x^2])^(n+1)/(2*b*d*(n+1)*x) + 
-  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcSinh[c+d*x^2])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2+1] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[Sqrt[a_.+b_.*ArcCosh[1+d_.*x_^2]],x_Symbol] :=
-  2*Sqrt[a+b*ArcCosh[1+d*x^2]]*Sinh[(1/2)*ArcCosh[1+d*x^2]]^2/(d*x) - 
-  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[(1/2)*ArcCosh[1+d*x^2]]*
-    Erfi[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[1+d*x^2]]]/(d*x) + 
-  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[(1/2)*ArcCosh[1+d*x^2]]*
-    Erf[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[Sqrt[a_.+b_.*ArcCosh[-1+d_.*x_^2]],x_Symbol] :=
-  2*Sqrt[a+b*ArcCosh[-1+d*x^2]]*Cosh[(1/2)*ArcCosh[-1+d*x^2]]^2/(d*x) - 
-  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[(1/2)*ArcCosh[-1+d*x^2]]*
-    Erfi[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[-1+d*x^2]]]/(d*x) - 
-  Sqrt[b]*Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[(1/2)*ArcCosh[-1+d*x^2]]*
-    Erf[(1/Sqrt[2*b])*Sqrt[a+b*ArcCosh[-1+d*x^2]]]/(d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[(a_.+b_.*ArcCosh[c_+d_.*x_^2])^n_,x_Symbol] :=
-  x*(a+b*ArcCosh[c+d*x^2])^n - 
-  2*b*n*(2*c*d*x^2+d^2*x^4)*(a+b*ArcCosh[c+d*x^2])^(n-1)/(d*x*Sqrt[-1+c+d*x^2]*Sqrt[1+c+d*x^2]) + 
-  4*b^2*n*(n-1)*Int[(a+b*ArcCosh[c+d*x^2])^(n-2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n>1
-
-
-Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2]),x_Symbol] :=
-  x*Cosh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) - 
-  x*Sinh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2]),x_Symbol] :=
-  -x*Sinh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) + 
-  x*Cosh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(Sqrt[2]*b*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/Sqrt[a_.+b_.*ArcCosh[1+d_.*x_^2]],x_Symbol] :=
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) + 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/Sqrt[a_.+b_.*ArcCosh[-1+d_.*x_^2]],x_Symbol] :=
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) - 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(Sqrt[b]*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2])^(3/2),x_Symbol] :=
-  -Sqrt[d*x^2]*Sqrt[2+d*x^2]/(b*d*x*Sqrt[a+b*ArcCosh[1+d*x^2]]) + 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x)- 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Sinh[ArcCosh[1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2])^(3/2),x_Symbol] :=
-  -Sqrt[d*x^2]*Sqrt[-2+d*x^2]/(b*d*x*Sqrt[a+b*ArcCosh[-1+d*x^2]]) + 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]-Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erfi[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) + 
-  Sqrt[Pi/2]*(Cosh[a/(2*b)]+Sinh[a/(2*b)])*Cosh[ArcCosh[-1+d*x^2]/2]*Erf[Sqrt[a+b*ArcCosh[-1+d*x^2]]/Sqrt[2*b]]/(b^(3/2)*d*x) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCosh[1+d_.*x_^2])^2,x_Symbol] :=
-  -Sqrt[d*x^2]*Sqrt[2+d*x^2]/(2*b*d*x*(a+b*ArcCosh[1+d*x^2])) - 
-  x*Sinh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) + 
-  x*Cosh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(a_.+b_.*ArcCosh[-1+d_.*x_^2])^2,x_Symbol] :=
-  -Sqrt[d*x^2]*Sqrt[-2+d*x^2]/(2*b*d*x*(a+b*ArcCosh[-1+d*x^2])) + 
-  x*Cosh[a/(2*b)]*CoshIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) - 
-  x*Sinh[a/(2*b)]*SinhIntegral[(a+b*ArcCosh[-1+d*x^2])/(2*b)]/(2*Sqrt[2]*b^2*Sqrt[d*x^2]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[(a_.+b_.*ArcCosh[c_+d_.*x_^2])^n_,x_Symbol] :=
-  -x*(a+b*ArcCosh[c+d*x^2])^(n+2)/(4*b^2*(n+1)*(n+2)) + 
-  (2*c*x^2 +d*x^4)*(a+b*ArcCosh[c+d*x^2])^(n+1)/(2*b*(n+1)*x*Sqrt[-1+c+d*x^2]*Sqrt[1+c+d*x^2]) + 
-  1/(4*b^2*(n+1)*(n+2))*Int[(a+b*ArcCosh[c+d*x^2])^(n+2),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[c^2-1] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[ArcSinh[a_.*x_^p_]^n_./x_,x_Symbol] :=
-  1/p*Subst[Int[x^n*Coth[x],x],x,ArcSinh[a*x^p]] /;
-FreeQ[{a,p},x] && PositiveIntegerQ[n]
-
-
-Int[ArcCosh[a_.*x_^p_]^n_./x_,x_Symbol] :=
-  1/p*Subst[Int[x^n*Tanh[x],x],x,ArcCosh[a*x^p]] /;
-FreeQ[{a,p},x] && PositiveIntegerQ[n]
-
-
-Int[u_.*ArcSinh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCsch[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCosh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcSech[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[ArcSinh[Sqrt[-1+b_.*x_^2]]^n_./Sqrt[-1+b_.*x_^2],x_Symbol] :=
-  Sqrt[b*x^2]/(b*x)*Subst[Int[ArcSinh[x]^n/Sqrt[1+x^2],x],x,Sqrt[-1+b*x^2]] /;
-FreeQ[{b,n},x]
-
-
-Int[ArcCosh[Sqrt[1+b_.*x_^2]]^n_./Sqrt[1+b_.*x_^2],x_Symbol] :=
-  Sqrt[-1+Sqrt[1+b*x^2]]*Sqrt[1+Sqrt[1+b*x^2]]/(b*x)*Subst[Int[ArcCosh[x]^n/(Sqrt[-1+x]*Sqrt[1+x]),x],x,Sqrt[1+b*x^2]] /;
-FreeQ[{b,n},x]
-
-
-Int[f_^(c_.*ArcSinh[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[f^(c*x^n)*Cosh[x],x],x,ArcSinh[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[f_^(c_.*ArcCosh[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[f^(c*x^n)*Sinh[x],x],x,ArcCosh[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[n]
-
-
-Int[x_^m_.*f_^(c_.*ArcSinh[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[(-a/b+Sinh[x]/b)^m*f^(c*x^n)*Cosh[x],x],x,ArcSinh[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[m,n]
-
-
-Int[x_^m_.*f_^(c_.*ArcCosh[a_.+b_.*x_]^n_.),x_Symbol] :=
-  1/b*Subst[Int[(-a/b+Cosh[x]/b)^m*f^(c*x^n)*Sinh[x],x],x,ArcCosh[a+b*x]] /;
-FreeQ[{a,b,c,f},x] && PositiveIntegerQ[m,n]
-
-
-Int[ArcSinh[u_],x_Symbol] :=
-  x*ArcSinh[u] -
-  Int[SimplifyIntegrand[x*D[u,x]/Sqrt[1+u^2],x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[ArcCosh[u_],x_Symbol] :=
-  x*ArcCosh[u] - 
-  Int[SimplifyIntegrand[x*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSinh[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcSinh[u])/(d*(m+1)) -
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/Sqrt[1+u^2],x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCosh[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCosh[u])/(d*(m+1)) -
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[v_*(a_.+b_.*ArcSinh[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcSinh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/Sqrt[1+u^2],x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-Int[v_*(a_.+b_.*ArcCosh[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCosh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(Sqrt[-1+u]*Sqrt[1+u]),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-Int[E^(n_.*ArcSinh[u_]), x_Symbol] :=
-  Int[(u+Sqrt[1+u^2])^n,x] /;
-IntegerQ[n] && PolynomialQ[u,x]
-
-
-Int[x_^m_.*E^(n_.*ArcSinh[u_]), x_Symbol] :=
-  Int[x^m*(u+Sqrt[1+u^2])^n,x] /;
-RationalQ[m] && IntegerQ[n] && PolynomialQ[u,x]
-
-
-Int[E^(n_.*ArcCosh[u_]), x_Symbol] :=
-  Int[(u+Sqrt[-1+u]*Sqrt[1+u])^n,x] /;
-IntegerQ[n] && PolynomialQ[u,x]
-
-
-Int[x_^m_.*E^(n_.*ArcCosh[u_]), x_Symbol] :=
-  Int[x^m*(u+Sqrt[-1+u]*Sqrt[1+u])^n,x] /;
-RationalQ[m] && IntegerQ[n] && PolynomialQ[u,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.2.1 u (a+b arctanh(c x))^n*)
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcTanh[c*x])^n -
-  b*c*n*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  x*(a+b*ArcCoth[c*x])^n -
-  b*c*n*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  -(a+b*ArcTanh[c*x])^n*Log[2*d/(d+e*x)]/e +
-  b*c*n/e*Int[(a+b*ArcTanh[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  -(a+b*ArcCoth[c*x])^n*Log[2*d/(d+e*x)]/e +
-  b*c*n/e*Int[(a+b*ArcCoth[c*x])^(n-1)*Log[2*d/(d+e*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
-
-
-Int[ArcTanh[c_.*x_]/(d_+e_.*x_),x_Symbol] :=
-  -ArcTanh[c*d/e]*Log[d+e*x]/e - PolyLog[2,Simp[c*(d+e*x)/(c*d-e),x]]/(2*e) + PolyLog[2,Simp[c*(d+e*x)/(c*d+e),x]]/(2*e) /;
-FreeQ[{c,d,e},x] && PositiveQ[c*d/e+1] && NegativeQ[c*d/e-1]
-
-
-(* Int[ArcCoth[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
-  z /;
-FreeQ[{c,d,e},x] *)
-
-
-Int[ArcTanh[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
-  1/2*Int[Log[1+c*x]/(d+e*x),x] - 1/2*Int[Log[1-c*x]/(d+e*x),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[ArcCoth[c_.*x_]/(d_.+e_.*x_),x_Symbol] :=
-  1/2*Int[Log[1+1/(c*x)]/(d+e*x),x] - 1/2*Int[Log[1-1/(c*x)]/(d+e*x),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[(a_+b_.*ArcTanh[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
-  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcTanh[c*x]/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(a_+b_.*ArcCoth[c_.*x_])/(d_.+e_.*x_),x_Symbol] :=
-  a/e*Log[RemoveContent[d+e*x,x]] + b*Int[ArcCoth[c*x]/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  (d+e*x)^(p+1)*(a+b*ArcTanh[c*x])/(e*(p+1)) - 
-  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  (d+e*x)^(p+1)*(a+b*ArcCoth[c*x])/(e*(p+1)) - 
-  b*c/(e*(p+1))*Int[(d+e*x)^(p+1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/x_,x_Symbol] :=
-  2*(a+b*ArcTanh[c*x])^n*ArcTanh[1-2/(1-c*x)] -
-  2*b*c*n*Int[(a+b*ArcTanh[c*x])^(n-1)*ArcTanh[1-2/(1-c*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/x_,x_Symbol] :=
-  2*(a+b*ArcCoth[c*x])^n*ArcCoth[1-2/(1-c*x)] -
-  2*b*c*n*Int[(a+b*ArcCoth[c*x])^(n-1)*ArcCoth[1-2/(1-c*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && n>1
-
-
-Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcTanh[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  x^(m+1)*(a+b*ArcCoth[c*x])^n/(m+1) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,m},x] && IntegerQ[n] && n>1 && NeQ[m+1]
-
-
-Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
-
-
-Int[(d_+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && PositiveIntegerQ[n,p]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/e*Int[x^(m-1)*(a+b*ArcTanh[c*x])^n,x] -
-  d/e*Int[x^(m-1)*(a+b*ArcTanh[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
-
-
-Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/e*Int[x^(m-1)*(a+b*ArcCoth[c*x])^n,x] -
-  d/e*Int[x^(m-1)*(a+b*ArcCoth[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m>0
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^n*Log[2*e*x/(d+e*x)]/d - 
-  b*c*n/d*Int[(a+b*ArcTanh[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*(d_+e_.*x_)),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^n*Log[2*e*x/(d+e*x)]/d -
-  b*c*n/d*Int[(a+b*ArcCoth[c*x])^(n-1)*Log[2*e*x/(d+e*x)]/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n]
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
-  e/d*Int[x^(m+1)*(a+b*ArcTanh[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
-  e/d*Int[x^(m+1)*(a+b*ArcCoth[c*x])^n/(d+e*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d^2-e^2] && PositiveIntegerQ[n] && RationalQ[m] && m<-1
-
-
-Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
-
-
-Int[x_^m_.*(d_+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || NeQ[a] || IntegerQ[m])
-
-
-Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  b*(d+e*x^2)^p/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  b*n*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] - 
-  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p>0 && n>1
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  b*n*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1)/(2*c*p*(2*p+1)) + 
-  x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n/(2*p+1) + 
-  2*d*p/(2*p+1)*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] - 
-  b^2*d*n*(n-1)/(2*p*(2*p+1))*Int[(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p>0 && n>1
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcTanh[c_.*x_])),x_Symbol] :=
-  Log[RemoveContent[a+b*ArcTanh[c*x],x]]/(b*c*d) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCoth[c_.*x_])),x_Symbol] :=
-  Log[RemoveContent[a+b*ArcCoth[c*x],x]]/(b*c*d) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NeQ[n+1]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -2*(a+b*ArcTanh[c*x])*ArcTan[Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) - 
-  I*b*PolyLog[2,-I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) + 
-  I*b*PolyLog[2,I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])/Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -2*(a+b*ArcCoth[c*x])*ArcTan[Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) - 
-  I*b*PolyLog[2,-I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) + 
-  I*b*PolyLog[2,I*Sqrt[1-c*x]/Sqrt[1+c*x]]/(c*Sqrt[d]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  1/(c*Sqrt[d])*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcTanh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -x*Sqrt[1-1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTanh[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCoth[c*x])^n/Sqrt[1-c^2*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcTanh[c*x])^n/(2*d*(d+e*x^2)) + 
-  (a+b*ArcTanh[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
-  b*c*n/2*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcCoth[c*x])^n/(2*d*(d+e*x^2)) + 
-  (a+b*ArcCoth[c*x])^(n+1)/(2*b*c*d^2*(n+1)) - 
-  b*c*n/2*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcTanh[c*x])/(d*Sqrt[d+e*x^2]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcCoth[c*x])/(d*Sqrt[d+e*x^2]) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-3/2
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b*n*(a+b*ArcTanh[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcTanh[c*x])^n/(d*Sqrt[d+e*x^2]) +
-  b^2*n*(n-1)*Int[(a+b*ArcTanh[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>1
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2)^(3/2),x_Symbol] :=
-  -b*n*(a+b*ArcCoth[c*x])^(n-1)/(c*d*Sqrt[d+e*x^2]) +
-  x*(a+b*ArcCoth[c*x])^n/(d*Sqrt[d+e*x^2]) +
-  b^2*n*(n-1)*Int[(a+b*ArcCoth[c*x])^(n-2)/(d+e*x^2)^(3/2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n-1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] +
-  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  -b*n*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n-1)/(4*c*d*(p+1)^2) -
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(2*d*(p+1)) +
-  (2*p+3)/(2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] +
-  b^2*n*(n-1)/(4*(p+1)^2)*Int[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n>1 && p!=-3/2
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) + 
-  2*c*(p+1)/(b*(n+1))*Int[x*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n,p] && p<-1 && n<-1
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c*Subst[Int[(a+b*x)^n/Cosh[x]^(2*(p+1)),x],x,ArcTanh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  d^(p+1/2)*Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(1-c^2*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  -(-d)^p/c*Subst[Int[(a+b*x)^n/Sinh[x]^(2*(p+1)),x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && IntegerQ[p]
-
-
-Int[(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  -(-d)^(p+1/2)*x*Sqrt[(c^2*x^2-1)/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n/Sinh[x]^(2*(p+1)),x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && NegativeIntegerQ[2*(p+1)] && Not[IntegerQ[p]]
-
-
-Int[ArcTanh[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+c*x]/(d+e*x^2),x] - 1/2*Int[Log[1-c*x]/(d+e*x^2),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[ArcCoth[c_.*x_]/(d_.+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+1/(c*x)]/(d+e*x^2),x] - 1/2*Int[Log[1-1/(c*x)]/(d+e*x^2),x] /;
-FreeQ[{c,d,e},x]
-
-
-Int[(a_+b_.*ArcTanh[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
-  a*Int[1/(d+e*x^2),x] + b*Int[ArcTanh[c*x]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(a_+b_.*ArcCoth[c_.*x_])/(d_.+e_.*x_^2),x_Symbol] :=
-  a*Int[1/(d+e*x^2),x] + b*Int[ArcCoth[c*x]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (IntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
-
-
-Int[(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[p] && PositiveIntegerQ[n]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^(n+1)/(b*e*(n+1)) + 
-  1/(c*d)*Int[(a+b*ArcTanh[c*x])^n/(1-c*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^(n+1)/(b*e*(n+1)) + 
-  1/(c*d)*Int[(a+b*ArcCoth[c*x])^n/(1-c*x),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n]
-
-
-Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  x*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  1/(b*c*d*(n+1))*Int[(a+b*ArcTanh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
-
-
-Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  -x*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  1/(b*c*d*(n+1))*Int[(a+b*ArcCoth[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && Not[PositiveIntegerQ[n]] && NeQ[n+1]
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^(n+1)/(b*d*(n+1)) +
-  1/d*Int[(a+b*ArcTanh[c*x])^n/(x*(1+c*x)),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*(d_+e_.*x_^2)),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^(n+1)/(b*d*(n+1)) +
-  1/d*Int[(a+b*ArcCoth[c*x])^n/(x*(1+c*x)),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcTanh[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/d*Int[x^m*(a+b*ArcCoth[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  x^m*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcTanh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2),x_Symbol] :=
-  x^m*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*d*(n+1))*Int[x^(m-1)*(a+b*ArcCoth[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(a_.+b_.*ArcTanh[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcTanh[c*x]),x^m/(d+e*x^2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCoth[c_.*x_])/(d_+e_.*x_^2),x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCoth[c*x]),x^m/(d+e*x^2),x],x] /;
-FreeQ[{a,b,c,d,e},x] && IntegerQ[m] && Not[m==1 && NeQ[a]]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(2*e*(p+1)) + 
-  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(2*e*(p+1)) +
-  b*n/(2*c*(p+1))*Int[(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && NeQ[p+1]
-
-
-Int[x_*(a_.+b_.*ArcTanh[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) +
-  (1+c^2*x^2)*(a+b*ArcTanh[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) +
-  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcTanh[c*x])^(n+2)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[x_*(a_.+b_.*ArcCoth[c_.*x_])^n_/(d_+e_.*x_^2)^2,x_Symbol] :=
-  x*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)*(d+e*x^2)) +
-  (1+c^2*x^2)*(a+b*ArcCoth[c*x])^(n+2)/(b^2*e*(n+1)*(n+2)*(d+e*x^2)) +
-  4/(b^2*(n+1)*(n+2))*Int[x*(a+b*ArcCoth[c*x])^(n+2)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n<-1 && n!=-2
-
-
-Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) - 
-  x*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*c^2*d*(p+1)) + 
-  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-5/2
-
-
-Int[x_^2*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  -b*(d+e*x^2)^(p+1)/(4*c^3*d*(p+1)^2) - 
-  x*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*c^2*d*(p+1)) + 
-  1/(2*c^2*d*(p+1))*Int[(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[p] && p<-1 && p!=-5/2
-
-
-Int[x_^2*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  -(a+b*ArcTanh[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) + 
-  x*(a+b*ArcTanh[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
-  b*n/(2*c)*Int[x*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[x_^2*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2)^2,x_Symbol] :=
-  -(a+b*ArcCoth[c*x])^(n+1)/(2*b*c^3*d^2*(n+1)) + 
-  x*(a+b*ArcCoth[c*x])^n/(2*c^2*d*(d+e*x^2)) - 
-  b*n/(2*c)*Int[x*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2)^2,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) + 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(c^2*d*m) - 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  -b*x^m*(d+e*x^2)^(p+1)/(c*d*m^2) + 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(c^2*d*m) - 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[p] && p<-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n-1)/(c*d*m^2) + 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(c^2*d*m) + 
-  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-2),x] - 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  -b*n*x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n-1)/(c*d*m^2) + 
-  x^(m-1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(c^2*d*m) + 
-  b^2*n*(n-1)/m^2*Int[x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-2),x] - 
-  (m-1)/(c^2*d*m)*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n,p] && p<-1 && n>1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+2] && RationalQ[n] && n<-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  x^(m+1)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n-1),x] /;
-FreeQ[{a,b,c,d,e,m,p},x] && EqQ[c^2*d+e] && EqQ[m+2*p+3] && RationalQ[n] && n>0 && NeQ[m+1]
-
-
-Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])/(m+2) - 
-  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
-  d/(m+2)*Int[x^m*(a+b*ArcTanh[c*x])/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && NeQ[m+2]
-
-
-Int[x_^m_*Sqrt[d_+e_.*x_^2]*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])/(m+2) - 
-  b*c*d/(m+2)*Int[x^(m+1)/Sqrt[d+e*x^2],x] + 
-  d/(m+2)*Int[x^m*(a+b*ArcCoth[c*x])/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && NeQ[m+2]
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && IntegerQ[p] && p>1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] - 
-  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  d*Int[x^m*(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] - 
-  c^2*d*Int[x^(m+2)*(d+e*x^2)^(p-1)*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[c^2*d+e] && RationalQ[p] && p>0 && PositiveIntegerQ[n] && (RationalQ[m] || EqQ[n,1] && IntegerQ[p])
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(c^2*d*m) + 
-  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcTanh[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
-  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcTanh[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  -x^(m-1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(c^2*d*m) + 
-  b*n/(c*m)*Int[x^(m-1)*(a+b*ArcCoth[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
-  (m-1)/(c^2*m)*Int[x^(m-2)*(a+b*ArcCoth[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m>1
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -2/Sqrt[d]*(a+b*ArcTanh[c*x])*ArcTanh[Sqrt[1-c*x]/Sqrt[1+c*x]] + 
-  b/Sqrt[d]*PolyLog[2,-Sqrt[1-c*x]/Sqrt[1+c*x]] - 
-  b/Sqrt[d]*PolyLog[2,Sqrt[1-c*x]/Sqrt[1+c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -2/Sqrt[d]*(a+b*ArcCoth[c*x])*ArcTanh[Sqrt[1-c*x]/Sqrt[1+c*x]] + 
-  b/Sqrt[d]*PolyLog[2,-Sqrt[1-c*x]/Sqrt[1+c*x]] - 
-  b/Sqrt[d]*PolyLog[2,Sqrt[1-c*x]/Sqrt[1+c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  1/Sqrt[d]*Subst[Int[(a+b*x)^n*Csch[x],x],x,ArcTanh[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_/(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -c*x*Sqrt[1-1/(c^2*x^2)]/Sqrt[d+e*x^2]*Subst[Int[(a+b*x)^n*Sech[x],x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && PositiveQ[d]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcTanh[c*x])^n/(x*Sqrt[1-c^2*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[(a+b*ArcCoth[c*x])^n/(x*Sqrt[1-c^2*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && PositiveIntegerQ[n] && Not[PositiveQ[d]]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(d*x) + 
-  b*c*n*Int[(a+b*ArcTanh[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_./(x_^2*Sqrt[d_+e_.*x_^2]),x_Symbol] :=
-  -Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(d*x) + 
-  b*c*n*Int[(a+b*ArcCoth[c*x])^(n-1)/(x*Sqrt[d+e*x^2]),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0
-
-
-Int[x_^m_*(a_.+b_.*ArcTanh[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcTanh[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
-  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcTanh[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
-
-
-Int[x_^m_*(a_.+b_.*ArcCoth[c_.*x_])^n_./Sqrt[d_+e_.*x_^2],x_Symbol] :=
-  x^(m+1)*Sqrt[d+e*x^2]*(a+b*ArcCoth[c*x])^n/(d*(m+1)) - 
-  b*c*n/(m+1)*Int[x^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/Sqrt[d+e*x^2],x] + 
-  c^2*(m+2)/(m+1)*Int[x^(m+2)*(a+b*ArcCoth[c*x])^n/Sqrt[d+e*x^2],x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n] && n>0 && m<-1 && m!=-2
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  1/e*Int[x^(m-2)*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] -
-  d/e*Int[x^(m-2)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m>1 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
-
-
-Int[x_^m_*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  1/d*Int[x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^n,x] -
-  e/d*Int[x^(m+2)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n,2*p] && p<-1 && m<0 && n!=-1
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] + 
-  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  x^m*(d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])^(n+1)/(b*c*d*(n+1)) - 
-  m/(b*c*(n+1))*Int[x^(m-1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] + 
-  c*(m+2*p+2)/(b*(n+1))*Int[x^(m+1)*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^(n+1),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[m,n,p] && p<-1 && n<-1 && NeQ[m+2*p+2]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  d^p/c^(m+1)*Subst[Int[(a+b*x)^n*Sinh[x]^m/Cosh[x]^(m+2*(p+1)),x],x,ArcTanh[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && (IntegerQ[p] || PositiveQ[d])
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  d^(p+1/2)*Sqrt[1-c^2*x^2]/Sqrt[d+e*x^2]*Int[x^m*(1-c^2*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p] || PositiveQ[d]]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  -(-d)^p/c^(m+1)*Subst[Int[(a+b*x)^n*Cosh[x]^m/Sinh[x]^(m+2*(p+1)),x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && IntegerQ[p]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  -(-d)^(p+1/2)*x*Sqrt[(c^2*x^2-1)/(c^2*x^2)]/(c^m*Sqrt[d+e*x^2])*Subst[Int[(a+b*x)^n*Cosh[x]^m/Sinh[x]^(m+2*(p+1)),x],x,ArcCoth[c*x]] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && PositiveIntegerQ[m] && NegativeIntegerQ[m+2*p+1] && Not[IntegerQ[p]]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcTanh[c*x])/(2*e*(p+1)) - 
-  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCoth[c*x])/(2*e*(p+1)) - 
-  b*c/(2*e*(p+1))*Int[(d+e*x^2)^(p+1)/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[SimplifyIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcTanh[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Int[ExpandIntegrand[(a+b*ArcCoth[c*x])^n,x^m*(d+e*x^2)^p,x],x] /;
-FreeQ[{a,b,c,d,e,m},x] && IntegerQ[p] && PositiveIntegerQ[n] && (p>0 || p<-1 && IntegerQ[m] && m!=1)
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcTanh[c*x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x]
-
-
-Int[x_^m_.*(d_+e_.*x_^2)^p_.*(a_+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  a*Int[x^m*(d+e*x^2)^p,x] + b*Int[x^m*(d+e*x^2)^p*ArcCoth[c*x],x] /;
-FreeQ[{a,b,c,d,e,m,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcTanh[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCoth[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[ArcTanh[u_]*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[1-u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
-
-
-Int[ArcCoth[u_]*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
-
-
-Int[ArcTanh[u_]*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[1+u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[1-u]*(a+b*ArcTanh[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
-
-
-Int[ArcCoth[u_]*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  1/2*Int[Log[SimplifyIntegrand[1+1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] -
-  1/2*Int[Log[SimplifyIntegrand[1-1/u,x]]*(a+b*ArcCoth[c*x])^n/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
-  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1+c*x))^2]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) -
-  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1+c*x))^2]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcTanh[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
-  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1-c*x))^2]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*Log[u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcCoth[c*x])^n*PolyLog[2,Together[1-u]]/(2*c*d) +
-  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[2,Together[1-u]]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[(1-u)^2-(1-2/(1-c*x))^2]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcTanh[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
-  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  -(a+b*ArcCoth[c*x])^n*PolyLog[p+1,u]/(2*c*d) +
-  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1+c*x))^2]
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
-  b*n/2*Int[(a+b*ArcTanh[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^n_.*PolyLog[p_,u_]/(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^n*PolyLog[p+1,u]/(2*c*d) -
-  b*n/2*Int[(a+b*ArcCoth[c*x])^(n-1)*PolyLog[p+1,u]/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e,p},x] && EqQ[c^2*d+e] && RationalQ[n] && n>0 && EqQ[u^2-(1-2/(1-c*x))^2]
-
-
-Int[1/((d_+e_.*x_^2)*(a_.+b_.*ArcCoth[c_.*x_])*(a_.+b_.*ArcTanh[c_.*x_])),x_Symbol] :=
-  (-Log[a+b*ArcCoth[c*x]]+Log[a+b*ArcTanh[c*x]])/(b^2*c*d*(ArcCoth[c*x]-ArcTanh[c*x])) /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e]
-
-
-Int[(a_.+b_.*ArcCoth[c_.*x_])^m_.*(a_.+b_.*ArcTanh[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcCoth[c*x])^(m+1)*(a+b*ArcTanh[c*x])^n/(b*c*d*(m+1)) -
-  n/(m+1)*Int[(a+b*ArcCoth[c*x])^(m+1)*(a+b*ArcTanh[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n] && 0<n<=m
-
-
-Int[(a_.+b_.*ArcTanh[c_.*x_])^m_.*(a_.+b_.*ArcCoth[c_.*x_])^n_./(d_+e_.*x_^2),x_Symbol] :=
-  (a+b*ArcTanh[c*x])^(m+1)*(a+b*ArcCoth[c*x])^n/(b*c*d*(m+1)) -
-  n/(m+1)*Int[(a+b*ArcTanh[c*x])^(m+1)*(a+b*ArcCoth[c*x])^(n-1)/(d+e*x^2),x] /;
-FreeQ[{a,b,c,d,e},x] && EqQ[c^2*d+e] && IntegersQ[m,n] && 0<n<m
-
-
-Int[ArcTanh[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  1/2*Int[Log[1+a*x]/(c+d*x^n),x] -
-  1/2*Int[Log[1-a*x]/(c+d*x^n),x] /;
-FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[a^2*c+d]]
-
-
-Int[ArcCoth[a_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  1/2*Int[Log[1+1/(a*x)]/(c+d*x^n),x] -
-  1/2*Int[Log[1-1/(a*x)]/(c+d*x^n),x] /;
-FreeQ[{a,c,d},x] && IntegerQ[n] && Not[n==2 && EqQ[a^2*c+d]]
-
-
-Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  x*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x]) - 
-  2*e*g*Int[x^2*(a+b*ArcTanh[c*x])/(f+g*x^2),x] - 
-  b*c*Int[x*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x]
-
-
-Int[(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  x*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x]) - 
-  2*e*g*Int[x^2*(a+b*ArcCoth[c*x])/(f+g*x^2),x] - 
-  b*c*Int[x*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x])/(m+1) - 
-  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcTanh[c*x])/(f+g*x^2),x] - 
-  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x])/(m+1) - 
-  2*e*g/(m+1)*Int[x^(m+2)*(a+b*ArcCoth[c*x])/(f+g*x^2),x] - 
-  b*c/(m+1)*Int[x^(m+1)*(d+e*Log[f+g*x^2])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && NegativeIntegerQ[m/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
-  Dist[a+b*ArcTanh[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*Log[f+g*x^2]),x]},  
-  Dist[a+b*ArcCoth[c*x],u,x] - b*c*Int[ExpandIntegrand[u/(1-c^2*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && PositiveIntegerQ[(m+1)/2]
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(a+b*ArcTanh[c*x]),x]},  
-  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
-
-
-Int[x_^m_.*(d_.+e_.*Log[f_.+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(a+b*ArcCoth[c*x]),x]},  
-  Dist[d+e*Log[f+g*x^2],u,x] - 2*e*g*Int[ExpandIntegrand[x*u/(f+g*x^2),x],x]] /;
-FreeQ[{a,b,c,d,e,f,g},x] && IntegerQ[m] && m!=-1
-
-
-Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcTanh[c_.*x_])^2,x_Symbol] :=
-  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x])^2/(2*g) - 
-  e*x^2*(a+b*ArcTanh[c*x])^2/2 + 
-  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcTanh[c*x]),x] + 
-  b*c*e*Int[x^2*(a+b*ArcTanh[c*x])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*f+g]
-
-
-Int[x_*(d_.+e_.*Log[f_+g_.*x_^2])*(a_.+b_.*ArcCoth[c_.*x_])^2,x_Symbol] :=
-  (f+g*x^2)*(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x])^2/(2*g) - 
-  e*x^2*(a+b*ArcCoth[c*x])^2/2 + 
-  b/c*Int[(d+e*Log[f+g*x^2])*(a+b*ArcCoth[c*x]),x] + 
-  b*c*e*Int[x^2*(a+b*ArcCoth[c*x])/(1-c^2*x^2),x] /;
-FreeQ[{a,b,c,d,e,f,g},x] && EqQ[c^2*f+g]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.2.2 Exponentials of inverse hyperbolic tangent*)
-
-
-Int[E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[((1+a*x)^((n+1)/2)/((1-a*x)^((n-1)/2)*Sqrt[1-a^2*x^2])),x] /;
-FreeQ[a,x] && OddQ[n]
-
-
-Int[x_^m_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[x^m*((1+a*x)^((n+1)/2)/((1-a*x)^((n-1)/2)*Sqrt[1-a^2*x^2])),x] /;
-FreeQ[{a,m},x] && OddQ[n]
-
-
-Int[E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
-FreeQ[{a,n},x] && Not[OddQ[n]]
-
-
-Int[x_^m_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[x^m*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
-FreeQ[{a,m,n},x] && Not[OddQ[n]]
-
-
-Int[(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^n*Int[(c+d*x)^(p-n)*(1-a^2*x^2)^(n/2),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[2*p]
-
-
-Int[(e_.+f_.*x_)^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^n*Int[(e+f*x)^m*(c+d*x)^(p-n)*(1-a^2*x^2)^(n/2),x] /;
-FreeQ[{a,c,d,e,f,m,p},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1]) && IntegerQ[2*p]
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1+d*x/c)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[u*(c+d*x)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  d^p*Int[u*(1+c*x/d)^p*E^(n*ArcTanh[a*x])/x^p,x] /;
-FreeQ[{a,c,d,n},x] && EqQ[c^2-a^2*d^2] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  (-1)^(n/2)*c^p*Int[u*(1+d/(c*x))^p*(1+1/(a*x))^(n/2)/(1-1/(a*x))^(n/2),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[n/2] && PositiveQ[c]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  Int[u*(c+d/x)^p*(1+a*x)^(n/2)/(1-a*x)^(n/2),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]] && IntegerQ[n/2] && Not[PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  x^p*(c+d/x)^p/(1+c*x/d)^p*Int[u*(1+c*x/d)^p*E^(n*ArcTanh[a*x])/x^p,x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[p]]
-
-
-Int[E^(n_*ArcTanh[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  (n-a*x)*E^(n*ArcTanh[a*x])/(a*c*(n^2-1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  (n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*c*(n^2-4*(p+1)^2)) - 
-  2*(p+1)*(2*p+3)/(c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && NeQ[n^2-4*(p+1)^2] && IntegerQ[2*p]
-
-
-Int[E^(n_.*ArcTanh[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
-  E^(n*ArcTanh[a*x])/(a*c*n) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[(1-a^2*x^2)^(p-n/2)*(1+a*x)^n,x] /;
-FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && IntegerQ[p] && PositiveIntegerQ[(n+1)/2] && Not[IntegerQ[p-n/2]]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[(1-a^2*x^2)^(p+n/2)/(1-a*x)^n,x] /;
-FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && IntegerQ[p] && NegativeIntegerQ[(n-1)/2] && Not[IntegerQ[p-n/2]]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^(n/2)*Int[(c+d*x^2)^(p-n/2)*(1+a*x)^n,x] /;
-FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[n/2]
-
-
-Int[(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  1/c^(n/2)*Int[(c+d*x^2)^(p+n/2)/(1-a*x)^n,x] /;
-FreeQ[{a,c,d,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[n/2]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[x_*E^(n_*ArcTanh[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  (1-a*n*x)*E^(n*ArcTanh[a*x])/(d*(n^2-1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
-
-
-Int[x_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  (c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(2*d*(p+1)) - a*c*n/(2*d*(p+1))*Int[(c+d*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && IntegerQ[2*p]
-
-
-(* Int[x_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  -(2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(d*(n^2-4*(p+1)^2)) - 
-  n*(2*p+3)/(a*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<=-1 && NeQ[n^2-4*(p+1)^2] && Not[IntegerQ[n]] *)
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  (1-a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*d*n*(n^2-1)) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && EqQ[n^2+2*(p+1)] && Not[IntegerQ[n]]
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  -(n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x])/(a*d*(n^2-4*(p+1)^2)) + 
-  (n^2+2*(p+1))/(d*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && RationalQ[p] && p<-1 && Not[IntegerQ[n]] && NeQ[n^2-4*(p+1)^2] && 
-  IntegerQ[2*p]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[x^m*(1-a^2*x^2)^(p-n/2)*(1+a*x)^n,x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c]) && PositiveIntegerQ[(n+1)/2] && Not[IntegerQ[p-n/2]]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[x^m*(1-a^2*x^2)^(p+n/2)/(1-a*x)^n,x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c]) && NegativeIntegerQ[(n-1)/2] && Not[IntegerQ[p-n/2]]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[x^m*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^(n/2)*Int[x^m*(c+d*x^2)^(p-n/2)*(1+a*x)^n,x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && PositiveIntegerQ[n/2]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_.*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  1/c^(n/2)*Int[x^m*(c+d*x^2)^(p+n/2)/(1-a*x)^n,x] /;
-FreeQ[{a,c,d,m,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && NegativeIntegerQ[n/2]
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[x^m*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[n/2]]
-
-
-Int[u_*(c_+d_.*x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[u_*(c_+d_.*x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/((1-a*x)^FracPart[p]*(1+a*x)^FracPart[p])*
-    Int[u*(1-a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && IntegerQ[n/2]
-
-
-Int[u_*(c_+d_.*x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d*x^2)^FracPart[p]/(1-a^2*x^2)^FracPart[p]*Int[u*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[p] || PositiveQ[c]] && Not[IntegerQ[n/2]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  d^p*Int[u/x^(2*p)*(1-a^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[c+a^2*d] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  c^p*Int[u*(1-1/(a*x))^p*(1+1/(a*x))^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && IntegerQ[n/2] && PositiveQ[c]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_*ArcTanh[a_.*x_]),x_Symbol] :=
-  x^(2*p)*(c+d/x^2)^p/((1-a*x)^p*(1+a*x)^p)*Int[u/x^(2*p)*(1-a*x)^p*(1+a*x)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && IntegerQ[n/2] && Not[PositiveQ[c]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcTanh[a_.*x_]),x_Symbol] :=
-  x^(2*p)*(c+d/x^2)^p/(1+c*x^2/d)^p*Int[u/x^(2*p)*(1+c*x^2/d)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[p]] && Not[IntegerQ[n/2]]
-
-
-Int[E^(n_.*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  Int[(1+a*c+b*c*x)^(n/2)/(1-a*c-b*c*x)^(n/2),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[x_^m_*E^(n_*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  4/(n*b^(m+1)*c^(m+1))*
-    Subst[Int[x^(2/n)*(-1-a*c+(1-a*c)*x^(2/n))^m/(1+x^(2/n))^(m+2),x],x,(1+c*(a+b*x))^(n/2)/(1-c*(a+b*x))^(n/2)] /;
-FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[n] && -1<n<1
-
-
-Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcTanh[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  Int[(d+e*x)^m*(1+a*c+b*c*x)^(n/2)/(1-a*c-b*c*x)^(n/2),x] /;
-FreeQ[{a,b,c,d,e,m,n},x]
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTanh[a_+b_.*x_]),x_Symbol] :=
-  (c/(1-a^2))^p*Int[u*(1-a-b*x)^(p-n/2)*(1+a+b*x)^(p+n/2),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && (IntegerQ[p] || PositiveQ[c/(1-a^2)])
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcTanh[a_+b_.*x_]),x_Symbol] :=
-  (c+d*x+e*x^2)^p/(1-a^2-2*a*b*x-b^2*x^2)^p*Int[u*(1-a^2-2*a*b*x-b^2*x^2)^p*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && Not[IntegerQ[p] || PositiveQ[c/(1-a^2)]]
-
-
-Int[u_.*E^(n_.*ArcTanh[c_./(a_.+b_.*x_)]),x_Symbol] :=
-  Int[u*E^(n*ArcCoth[a/c+b*x/c]),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[u_.*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
-  (-1)^(n/2)*Int[u*E^(n*ArcTanh[a*x]),x] /;
-FreeQ[a,x] && IntegerQ[n/2]
-
-
-Int[E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1+x/a)^((n+1)/2)/(x^2*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
-FreeQ[a,x] && OddQ[n]
-
-
-Int[x_^m_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1+x/a)^((n+1)/2)/(x^(m+2)*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
-FreeQ[a,x] && OddQ[n] && IntegerQ[m]
-
-
-Int[E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1+x/a)^(n/2)/(x^2*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,n},x] && Not[IntegerQ[n]]
-
-
-Int[x_^m_.*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
-  -Subst[Int[(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,n},x] && Not[IntegerQ[n]] && IntegerQ[m]
-
-
-Int[x_^m_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -x^m*(1/x)^m*Subst[Int[(1+x/a)^((n+1)/2)/(x^(m+2)*(1-x/a)^((n-1)/2)*Sqrt[1-x^2/a^2]),x],x,1/x] /;
-FreeQ[{a,m},x] && OddQ[n] && Not[IntegerQ[m]]
-
-
-Int[x_^m_*E^(n_*ArcCoth[a_.*x_]),x_Symbol] :=
-  -x^m*(1/x)^m*Subst[Int[(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,m,n},x] && Not[IntegerQ[n]] && Not[IntegerQ[m]]
-
-
-Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (1+a*x)*(c+d*x)^p*E^(n*ArcCoth[a*x])/(a*(p+1)) /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a*c+d] && EqQ[p-n/2] && Not[IntegerQ[n/2]]
-
-
-(* Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(-a)^n*c^n*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(p+2),x],x,1/x] /;
-FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[p] *)
-
-
-(* Int[x_^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(-a)^n*c^n*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+p+2),x],x,1/x] /;
-FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[m] && IntegerQ[p] *)
-
-
-(* Int[(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(-a)^n*c^n*Sqrt[c+d*x]/(Sqrt[x]*Sqrt[d+c/x])*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(p+2),x],x,1/x] /;
-FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[p-1/2] *)
-
-
-(* Int[x_^m_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(-a)^n*c^n*Sqrt[c+d*x]/(Sqrt[x]*Sqrt[d+c/x])*Subst[Int[(d+c*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+p+2),x],x,1/x] /;
-FreeQ[{a,c,d},x] && EqQ[a*c+d] && IntegerQ[(n-1)/2] && IntegerQ[m] && IntegerQ[p-1/2] *)
-
-
-Int[u_.*(c_+d_.*x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  d^p*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[n/2]] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (c+d*x)^p/(x^p*(1+c/(d*x))^p)*Int[u*x^p*(1+c/(d*x))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c^2-d^2] && Not[IntegerQ[n/2]] && Not[IntegerQ[p]]
-
-
-Int[(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^n*Subst[Int[(c+d*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^2,x],x,1/x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c+a*d] && IntegerQ[(n-1)/2] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1]) && IntegerQ[2*p]
-
-
-Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^n*Subst[Int[(c+d*x)^(p-n)*(1-x^2/a^2)^(n/2)/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,p},x] && EqQ[c+a*d] && IntegerQ[(n-1)/2] && IntegerQ[m] && (IntegerQ[p] || EqQ[p-n/2] || EqQ[p-n/2-1] || -5<m<-1) && 
-  IntegerQ[2*p]
-
-
-Int[(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^2*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c])
-
-
-Int[x_^m_.*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegerQ[m]
-
-
-Int[x_^m_*(c_+d_./x_)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*x^m*(1/x)^m*Subst[Int[(1+d*x/c)^p*(1+x/a)^(n/2)/(x^(m+2)*(1-x/a)^(n/2)),x],x,1/x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegerQ[m]]
-
-
-Int[u_.*(c_+d_./x_)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (c+d/x)^p/(1+d/(c*x))^p*Int[u*(1+d/(c*x))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c^2-a^2*d^2] && Not[IntegerQ[n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[E^(n_.*ArcCoth[a_.*x_])/(c_+d_.*x_^2),x_Symbol] :=
-  E^(n*ArcCoth[a*x])/(a*c*n) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]]
-
-
-Int[E^(n_*ArcCoth[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  (n-a*x)*E^(n*ArcCoth[a*x])/(a*c*(n^2-1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
-
-
-Int[(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (n+2*a*(p+1)*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a*c*(n^2-4*(p+1)^2)) - 
-  2*(p+1)*(2*p+3)/(c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<-1 && p!=-3/2 && NeQ[n^2-4*(p+1)^2] && 
-  (IntegerQ[p] || Not[IntegerQ[n]])
-
-
-Int[x_*E^(n_*ArcCoth[a_.*x_])/(c_+d_.*x_^2)^(3/2),x_Symbol] :=
-  -(1-a*n*x)*E^(n*ArcCoth[a*x])/(a^2*c*(n^2-1)*Sqrt[c+d*x^2]) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n]]
-
-
-Int[x_*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (2*(p+1)+a*n*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^2*c*(n^2-4*(p+1)^2)) - 
-  n*(2*p+3)/(a*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<=-1 && p!=-3/2 && NeQ[n^2-4*(p+1)^2] && 
-  (IntegerQ[p] || Not[IntegerQ[n]])
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^3*c*n^2*(n^2-1)) /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && EqQ[n^2+2*(p+1)] && NeQ[n^2-1]
-
-
-Int[x_^2*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (n+2*(p+1)*a*x)*(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x])/(a^3*c*(n^2-4*(p+1)^2)) - 
-  (n^2+2*(p+1))/(a^2*c*(n^2-4*(p+1)^2))*Int[(c+d*x^2)^(p+1)*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && RationalQ[p] && p<=-1 && NeQ[n^2+2*(p+1)] && 
-  NeQ[n^2-4*(p+1)^2] && (IntegerQ[p] || Not[IntegerQ[n]])
-
-
-Int[x_^m_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -(-c)^p/a^(m+1)*Subst[Int[E^(n*x)*Coth[x]^(m+2*(p+1))/Cosh[x]^(2*(p+1)),x],x,ArcCoth[a*x]] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && IntegerQ[m] && RationalQ[p] && 3<=m<=-2(p+1) && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  d^p*Int[u*x^(2*p)*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && IntegerQ[p]
-
-
-Int[u_.*(c_+d_.*x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  (c+d*x^2)^p/(x^(2*p)*(1-1/(a^2*x^2))^p)*Int[u*x^(2*p)*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[a^2*c+d] && Not[IntegerQ[n/2]] && Not[IntegerQ[p]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  c^p/a^(2*p)*Int[u/x^(2*p)*(-1+a*x)^(p-n/2)*(1+a*x)^(p+n/2),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && IntegersQ[2*p,p+n/2]
-
-
-Int[(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^2,x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]]
-
-
-Int[x_^m_.*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]] && 
-  IntegerQ[m]
-
-
-Int[x_^m_*(c_+d_./x_^2)^p_.*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  -c^p*x^m*(1/x)^m*Subst[Int[(1-x/a)^(p-n/2)*(1+x/a)^(p+n/2)/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,d,m,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && (IntegerQ[p] || PositiveQ[c]) && Not[IntegersQ[2*p,p+n/2]] && 
-  Not[IntegerQ[m]]
-
-
-Int[u_.*(c_+d_./x_^2)^p_*E^(n_.*ArcCoth[a_.*x_]),x_Symbol] :=
-  c^IntPart[p]*(c+d/x^2)^FracPart[p]/(1-1/(a^2*x^2))^FracPart[p]*Int[u*(1-1/(a^2*x^2))^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,c,d,n,p},x] && EqQ[c+a^2*d] && Not[IntegerQ[n/2]] && Not[IntegerQ[p] || PositiveQ[c]]
-
-
-Int[u_.*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (-1)^(n/2)*Int[u*E^(n*ArcTanh[c*(a+b*x)]),x] /;
-FreeQ[{a,b,c},x] && IntegerQ[n/2]
-
-
-Int[E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (c*(a+b*x))^(n/2)*(1+1/(c*(a+b*x)))^(n/2)/(1+a*c+b*c*x)^(n/2)*Int[(1+a*c+b*c*x)^(n/2)/(-1+a*c+b*c*x)^(n/2),x] /;
-FreeQ[{a,b,c,n},x] && Not[IntegerQ[n/2]]
-
-
-Int[x_^m_*E^(n_*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  -4/(n*b^(m+1)*c^(m+1))*
-    Subst[Int[x^(2/n)*(1+a*c+(1-a*c)*x^(2/n))^m/(-1+x^(2/n))^(m+2),x],x,(1+1/(c*(a+b*x)))^(n/2)/(1-1/(c*(a+b*x)))^(n/2)] /;
-FreeQ[{a,b,c},x] && NegativeIntegerQ[m] && RationalQ[n] && -1<n<1
-
-
-Int[(d_.+e_.*x_)^m_.*E^(n_.*ArcCoth[c_.*(a_+b_.*x_)]),x_Symbol] :=
-  (c*(a+b*x))^(n/2)*(1+1/(c*(a+b*x)))^(n/2)/(1+a*c+b*c*x)^(n/2)*Int[(d+e*x)^m*(1+a*c+b*c*x)^(n/2)/(-1+a*c+b*c*x)^(n/2),x] /;
-FreeQ[{a,b,c,d,e,m,n},x] && Not[IntegerQ[n/2]]
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCoth[a_+b_.*x_]),x_Symbol] :=
-  (c/(1-a^2))^p*((a+b*x)/(1+a+b*x))^(n/2)*((1+a+b*x)/(a+b*x))^(n/2)*((1-a-b*x)^(n/2)/(-1+a+b*x)^(n/2))*
-    Int[u*(1-a-b*x)^(p-n/2)*(1+a+b*x)^(p+n/2),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && (IntegerQ[p] || PositiveQ[c/(1-a^2)])
-
-
-Int[u_.*(c_+d_.*x_+e_.*x_^2)^p_.*E^(n_.*ArcCoth[a_+b_.*x_]),x_Symbol] :=
-  (c+d*x+e*x^2)^p/(1-a^2-2*a*b*x-b^2*x^2)^p*Int[u*(1-a^2-2*a*b*x-b^2*x^2)^p*E^(n*ArcCoth[a*x]),x] /;
-FreeQ[{a,b,c,d,e,n,p},x] && Not[IntegerQ[n/2]] && EqQ[b*d-2*a*e] && EqQ[b^2*c+e(1-a^2)] && 
-  Not[IntegerQ[p] || PositiveQ[c/(1-a^2)]]
-
-
-Int[u_.*E^(n_.*ArcCoth[c_./(a_.+b_.*x_)]),x_Symbol] :=
-  Int[u*E^(n*ArcTanh[a/c+b*x/c]),x] /;
-FreeQ[{a,b,c,n},x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.2.3 Miscellaneous inverse hyperbolic tangent*)
-(**)
-
-
-Int[(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[n]
-
-
-Int[(a_.+b_.*ArcTanh[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcTanh[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(a_.+b_.*ArcCoth[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(a+b*ArcCoth[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.+f_.*x_)^m_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PositiveIntegerQ[n]
-
-
-Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(e+f*x)^m*(a+b*ArcTanh[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(e_.+f_.*x_)^m_*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_,x_Symbol] :=
-  Defer[Int][(e+f*x)^m*(a+b*ArcCoth[c+d*x])^n,x] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && Not[PositiveIntegerQ[n]]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(-C/d^2+C/d^2*x^2)^p*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[(C/d^2+C/d^2*x^2)^p*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,A,B,C,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcTanh[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcTanh[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[(e_.+f_.*x_)^m_.*(A_.+B_.*x_+C_.*x_^2)^p_.*(a_.+b_.*ArcCoth[c_+d_.*x_])^n_.,x_Symbol] :=
-  1/d*Subst[Int[((d*e-c*f)/d+f*x/d)^m*(-C/d^2+C/d^2*x^2)^p*(a+b*ArcCoth[x])^n,x],x,c+d*x] /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n,p},x] && EqQ[B*(1-c^2)+2*A*c*d] && EqQ[2*c*C-B*d]
-
-
-Int[ArcTanh[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  1/2*Int[Log[1+a+b*x]/(c+d*x^n),x] -
-  1/2*Int[Log[1-a-b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[n]
-
-
-Int[ArcCoth[a_+b_.*x_]/(c_+d_.*x_^n_.),x_Symbol] :=
-  1/2*Int[Log[(1+a+b*x)/(a+b*x)]/(c+d*x^n),x] -
-  1/2*Int[Log[(-1+a+b*x)/(a+b*x)]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[n]
-
-
-Int[ArcTanh[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
-  Defer[Int][ArcTanh[a+b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
-
-
-Int[ArcCoth[a_+b_.*x_]/(c_+d_.*x_^n_),x_Symbol] :=
-  Defer[Int][ArcCoth[a+b*x]/(c+d*x^n),x] /;
-FreeQ[{a,b,c,d,n},x] && Not[RationalQ[n]]
-
-
-Int[ArcTanh[a_+b_.*x_^n_],x_Symbol] :=
-  x*ArcTanh[a+b*x^n] -
-  b*n*Int[x^n/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCoth[a_+b_.*x_^n_],x_Symbol] :=
-  x*ArcCoth[a+b*x^n] -
-  b*n*Int[x^n/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcTanh[a_.+b_.*x_^n_.]/x_,x_Symbol] :=
-  1/2*Int[Log[1+a+b*x^n]/x,x] -
-  1/2*Int[Log[1-a-b*x^n]/x,x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCoth[a_.+b_.*x_^n_.]/x_,x_Symbol] :=
-  1/2*Int[Log[1+1/(a+b*x^n)]/x,x] -
-  1/2*Int[Log[1-1/(a+b*x^n)]/x,x] /;
-FreeQ[{a,b,n},x]
-
-
-Int[x_^m_.*ArcTanh[a_+b_.*x_^n_],x_Symbol] :=
-  x^(m+1)*ArcTanh[a+b*x^n]/(m+1) - 
-  b*n/(m+1)*Int[x^(m+n)/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
-
-
-Int[x_^m_.*ArcCoth[a_+b_.*x_^n_],x_Symbol] :=
-  x^(m+1)*ArcCoth[a+b*x^n]/(m+1) - 
-  b*n/(m+1)*Int[x^(m+n)/(1-a^2-2*a*b*x^n-b^2*x^(2*n)),x] /;
-FreeQ[{a,b},x] && RationalQ[m,n] && m+1!=0 && m+1!=n
-
-
-Int[ArcTanh[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  1/2*Int[Log[1+a+b*f^(c+d*x)],x] - 
-  1/2*Int[Log[1-a-b*f^(c+d*x)],x] /;
-FreeQ[{a,b,c,d,f},x] 
-
-
-Int[ArcCoth[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  1/2*Int[Log[1+1/(a+b*f^(c+d*x))],x] - 
-  1/2*Int[Log[1-1/(a+b*f^(c+d*x))],x] /;
-FreeQ[{a,b,c,d,f},x] 
-
-
-Int[x_^m_.*ArcTanh[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  1/2*Int[x^m*Log[1+a+b*f^(c+d*x)],x] - 
-  1/2*Int[x^m*Log[1-a-b*f^(c+d*x)],x] /;
-FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
-
-
-Int[x_^m_.*ArcCoth[a_.+b_.*f_^(c_.+d_.*x_)],x_Symbol] :=
-  1/2*Int[x^m*Log[1+1/(a+b*f^(c+d*x))],x] - 
-  1/2*Int[x^m*Log[1-1/(a+b*f^(c+d*x))],x] /;
-FreeQ[{a,b,c,d,f},x] && IntegerQ[m] && m>0
-
-
-Int[u_.*ArcTanh[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCoth[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCoth[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcTanh[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[1/(Sqrt[a_.+b_.*x_^2]*ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
-  1/c*Log[ArcTanh[c*x/Sqrt[a+b*x^2]]] /;
-FreeQ[{a,b,c},x] && EqQ[b-c^2]
-
-
-Int[1/(Sqrt[a_.+b_.*x_^2]*ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]),x_Symbol] :=
-  -1/c*Log[ArcCoth[c*x/Sqrt[a+b*x^2]]] /;
-FreeQ[{a,b,c},x] && EqQ[b-c^2]
-
-
-Int[ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
-  ArcTanh[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
-FreeQ[{a,b,c,m},x] && EqQ[b-c^2] && NeQ[m+1]
-
-
-Int[ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[a_.+b_.*x_^2],x_Symbol] :=
-  -ArcCoth[c*x/Sqrt[a+b*x^2]]^(m+1)/(c*(m+1)) /;
-FreeQ[{a,b,c,m},x] && EqQ[b-c^2] && NeQ[m+1]
-
-
-Int[ArcTanh[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcTanh[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b-c^2] && EqQ[b*d-a*e]
-
-
-Int[ArcCoth[c_.*x_/Sqrt[a_.+b_.*x_^2]]^m_./Sqrt[d_.+e_.*x_^2],x_Symbol] :=
-  Sqrt[a+b*x^2]/Sqrt[d+e*x^2]*Int[ArcCoth[c*x/Sqrt[a+b*x^2]]^m/Sqrt[a+b*x^2],x] /;
-FreeQ[{a,b,c,d,e,m},x] && EqQ[b-c^2] && EqQ[b*d-a*e]
-
-
-Int[(c_.+d_.*x_^2)^n_*ArcTanh[a_.*x_],x_Symbol] :=
-  With[{u=IntHide[(c+d*x^2)^n,x]},  
-  Dist[ArcTanh[a*x],u,x] - 
-  a*Int[Dist[1/(1-a^2*x^2),u,x],x]] /;
-FreeQ[{a,c,d},x] && IntegerQ[2*n] && n<=-1
-
-
-Int[(c_.+d_.*x_^2)^n_*ArcCoth[a_.*x_],x_Symbol] :=
-  With[{u=IntHide[(c+d*x^2)^n,x]},  
-  Dist[ArcCoth[a*x],u,x] - 
-  a*Int[Dist[1/(1-a^2*x^2),u,x],x]] /;
-FreeQ[{a,c,d},x] && IntegerQ[2*n] && n<=-1
-
-
-If[ShowSteps,
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  ShowStep["","Int[f[x,ArcTanh[a+b*x]]/(1-(a+b*x)^2),x]",
-		   "Subst[Int[f[-a/b+Tanh[x]/b,x],x],x,ArcTanh[a+b*x]]/b",Hold[
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sech[x]^(2*(n+1)),x],x], x, tmp]]] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcTanh && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
-SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*Sech[x]^(2*(n+1)),x],x], x, tmp] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcTanh && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
-QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
-
-
-If[ShowSteps,
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  ShowStep["","Int[f[x,ArcCoth[a+b*x]]/(1-(a+b*x)^2),x]",
-		   "Subst[Int[f[-a/b+Coth[x]/b,x],x],x,ArcCoth[a+b*x]]/b",Hold[
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*(-Csch[x]^2)^(n+1),x],x], x, tmp]]] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcCoth && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
-SimplifyFlag && QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]],
-
-Int[u_*v_^n_.,x_Symbol] :=
-  With[{tmp=InverseFunctionOfLinear[u,x]},
-  (-Discriminant[v,x]/(4*Coefficient[v,x,2]))^n/Coefficient[tmp[[1]],x,1]*
-	Subst[Int[SimplifyIntegrand[SubstForInverseFunction[u,tmp,x]*(-Csch[x]^2)^(n+1),x],x], x, tmp] /;
- Not[FalseQ[tmp]] && Head[tmp]===ArcCoth && EqQ[Discriminant[v,x]*tmp[[1]]^2-D[v,x]^2]] /;
-QuadraticQ[v,x] && IntegerQ[n] && n<0 && PosQ[Discriminant[v,x]] && MatchQ[u,r_.*f_^w_ /; FreeQ[f,x]]]
-
-
-Int[ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Tanh[a+b*x]] + 
-  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Tanh[a+b*x]] + 
-  b*Int[x/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Coth[a+b*x]] + 
-  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Coth[a+b*x]] + 
-  b*Int[x/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Tanh[a+b*x]] + 
-  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
-  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Tanh[a+b*x]] + 
-  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
-  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Coth[a+b*x]] + 
-  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
-  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Coth[a+b*x]] + 
-  b*(1+c+d)*Int[x*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
-  b*(1-c-d)*Int[x*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d+c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-d-c*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
-  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tanh[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Tanh[a+b*x]]/(f*(m+1)) + 
-  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d+(1-c-d)*E^(2*a+2*b*x)),x] - 
-  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d+(1+c+d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
-  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Coth[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Coth[a+b*x]]/(f*(m+1)) + 
-  b*(1+c+d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1+c-d-(1+c+d)*E^(2*a+2*b*x)),x] - 
-  b*(1-c-d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*a+2*b*x)/(1-c+d-(1-c-d)*E^(2*a+2*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-d)^2-1]
-
-
-Int[ArcTanh[Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[Tan[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCoth[Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[Tan[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcTanh[Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[Cot[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCoth[Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[Cot[a+b*x]] - b*Int[x*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[Tan[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[Tan[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[Cot[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[Cot[a+b*x]]/(f*(m+1)) - b/(f*(m+1))*Int[(e+f*x)^(m+1)*Sec[2*a+2*b*x],x] /;
-FreeQ[{a,b,e,f},x] && PositiveIntegerQ[m]
-
-
-Int[ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Tan[a+b*x]] + 
-  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Tan[a+b*x]] + 
-  I*b*Int[x/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c+I*d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Cot[a+b*x]] + 
-  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Cot[a+b*x]] + 
-  I*b*Int[x/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && EqQ[(c-I*d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Tan[a+b*x]] + 
-  I*b*(1-c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
-  I*b*(1+c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Tan[a+b*x]] + 
-  I*b*(1-c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
-  I*b*(1+c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c+I*d)^2-1]
-
-
-Int[ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcTanh[c+d*Cot[a+b*x]] - 
-  I*b*(1-c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
-  I*b*(1+c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2-1]
-
-
-Int[ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  x*ArcCoth[c+d*Cot[a+b*x]] - 
-  I*b*(1-c-I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
-  I*b*(1+c+I*d)*Int[x*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d},x] && NeQ[(c-I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c+I*d+c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c+I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Cot[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Cot[a+b*x]]/(f*(m+1)) + 
-  I*b/(f*(m+1))*Int[(e+f*x)^(m+1)/(c-I*d-c*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && EqQ[(c-I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  I*b*(1-c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
-  I*b*(1+c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Tan[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Tan[a+b*x]]/(f*(m+1)) + 
-  I*b*(1-c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c-I*d+(1-c+I*d)*E^(2*I*a+2*I*b*x)),x] - 
-  I*b*(1+c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c+I*d+(1+c-I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c+I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcTanh[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcTanh[c+d*Cot[a+b*x]]/(f*(m+1)) - 
-  I*b*(1-c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
-  I*b*(1+c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2-1]
-
-
-Int[(e_.+f_.*x_)^m_.*ArcCoth[c_.+d_.*Cot[a_.+b_.*x_]],x_Symbol] :=
-  (e+f*x)^(m+1)*ArcCoth[c+d*Cot[a+b*x]]/(f*(m+1)) - 
-  I*b*(1-c-I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1-c+I*d-(1-c-I*d)*E^(2*I*a+2*I*b*x)),x] + 
-  I*b*(1+c+I*d)/(f*(m+1))*Int[(e+f*x)^(m+1)*E^(2*I*a+2*I*b*x)/(1+c-I*d-(1+c+I*d)*E^(2*I*a+2*I*b*x)),x] /;
-FreeQ[{a,b,c,d,e,f},x] && PositiveIntegerQ[m] && NeQ[(c-I*d)^2-1]
-
-
-Int[ArcTanh[u_],x_Symbol] :=
-  x*ArcTanh[u] - 
-  Int[SimplifyIntegrand[x*D[u,x]/(1-u^2),x],x] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[ArcCoth[u_],x_Symbol] :=
-  x*ArcCoth[u] - 
-  Int[SimplifyIntegrand[x*D[u,x]/(1-u^2),x],x] /;
-InverseFunctionFreeQ[u,x]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcTanh[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcTanh[u])/(d*(m+1)) - 
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1-u^2),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCoth[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCoth[u])/(d*(m+1)) - 
-  b/(d*(m+1))*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(1-u^2),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && FalseQ[PowerVariableExpn[u,m+1,x]]
-
-
-Int[v_*(a_.+b_.*ArcTanh[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcTanh[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1-u^2),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcTanh[u]),x]]
-
-
-Int[v_*(a_.+b_.*ArcCoth[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCoth[u]),w,x] - b*Int[SimplifyIntegrand[w*D[u,x]/(1-u^2),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]] && FalseQ[FunctionOfLinear[v*(a+b*ArcCoth[u]),x]]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*7.3.1 Miscellaneous inverse hyperbolic secant*)
-
-
-Int[ArcSech[c_.*x_],x_Symbol] :=
-  x*ArcSech[c*x] + Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[1/(Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[c,x]
-
-
-Int[ArcCsch[c_.*x_],x_Symbol] :=
-  x*ArcCsch[c*x] + 1/c*Int[1/(x*Sqrt[1+1/(c^2*x^2)]),x] /;
-FreeQ[c,x]
-
-
-Int[(a_.+b_.*ArcSech[c_.*x_])^n_,x_Symbol] :=
-  -1/c*Subst[Int[(a+b*x)^n*Sech[x]*Tanh[x],x],x,ArcSech[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcCsch[c_.*x_])^n_,x_Symbol] :=
-  -1/c*Subst[Int[(a+b*x)^n*Csch[x]*Coth[x],x],x,ArcCsch[c*x]] /;
-FreeQ[{a,b,c,n},x]
-
-
-Int[(a_.+b_.*ArcSech[c_.*x_])/x_,x_Symbol] :=
-  -Subst[Int[(a+b*ArcCosh[x/c])/x,x],x,1/x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[(a_.+b_.*ArcCsch[c_.*x_])/x_,x_Symbol] :=
-  -Subst[Int[(a+b*ArcSinh[x/c])/x,x],x,1/x] /;
-FreeQ[{a,b,c},x]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(a+b*ArcSech[c*x])/(m+1) + 
-  b*Sqrt[1+c*x]/(m+1)*Sqrt[1/(1+c*x)]*Int[x^m/(Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
-  x^(m+1)*(a+b*ArcCsch[c*x])/(m+1) + 
-  b/(c*(m+1))*Int[x^(m-1)/Sqrt[1+1/(c^2*x^2)],x] /;
-FreeQ[{a,b,c,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_])^n_,x_Symbol] :=
-  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Sech[x]^(m+1)*Tanh[x],x],x,ArcSech[c*x]] /;
-FreeQ[{a,b,c,n},x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_])^n_,x_Symbol] :=
-  -1/c^(m+1)*Subst[Int[(a+b*x)^n*Csch[x]^(m+1)*Coth[x],x],x,ArcCsch[c*x]] /;
-FreeQ[{a,b,c,n},x] && IntegerQ[m]
-
-
-Int[x_^m_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*ArcSech[c*x])^n,x] /;
-FreeQ[{a,b,c,m,n},x]
-
-
-Int[x_^m_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(a+b*ArcCsch[c*x])^n,x] /;
-FreeQ[{a,b,c,m,n},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcSech[c*x]),u,x] + b*Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[SimplifyIntegrand[u/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcCsch[c*x]),u,x] - b*c*x/Sqrt[-c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[-1-c^2*x^2]),x],x]] /;
-FreeQ[{a,b,c,d,e},x] && (PositiveIntegerQ[p] || NegativeIntegerQ[p+1/2])
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegerQ[p]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcSech[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][(d+e*x^2)^p*(a+b*ArcCsch[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,n,p},x]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcSech[c*x])/(2*e*(p+1)) + 
-  b*Sqrt[1+c*x]/(2*e*(p+1))*Sqrt[1/(1+c*x)]*Int[(d+e*x^2)^(p+1)/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
-  (d+e*x^2)^(p+1)*(a+b*ArcCsch[c*x])/(2*e*(p+1)) - 
-  b*c*x/(2*e*(p+1)*Sqrt[-c^2*x^2])*Int[(d+e*x^2)^(p+1)/(x*Sqrt[-1-c^2*x^2]),x] /;
-FreeQ[{a,b,c,d,e,p},x] && NeQ[p+1]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcSech[c*x]),u,x] + b*Sqrt[1+c*x]*Sqrt[1/(1+c*x)]*Int[SimplifyIntegrand[u/(x*Sqrt[1-c*x]*Sqrt[1+c*x]),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_]),x_Symbol] :=
-  With[{u=IntHide[x^m*(d+e*x^2)^p,x]},  
-  Dist[(a+b*ArcCsch[c*x]),u,x] - b*c*x/Sqrt[-c^2*x^2]*Int[SimplifyIntegrand[u/(x*Sqrt[-1-c^2*x^2]),x],x]] /;
-FreeQ[{a,b,c,d,e,m,p},x] && (
-  PositiveIntegerQ[p] && Not[NegativeIntegerQ[(m-1)/2] && m+2*p+3>0] || 
-  PositiveIntegerQ[(m+1)/2] && Not[NegativeIntegerQ[p] && m+2*p+3>0] || 
-  NegativeIntegerQ[(m+2*p+1)/2] && Not[NegativeIntegerQ[(m-1)/2]] )
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && IntegersQ[m,p]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[x^2]/x*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && PositiveQ[e] && Negative[d]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcCosh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[c^2*d+e] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  -Sqrt[d+e*x^2]/(x*Sqrt[e+d/x^2])*Subst[Int[(e+d*x^2)^p*(a+b*ArcSinh[x/c])^n/x^(m+2*(p+1)),x],x,1/x] /;
-FreeQ[{a,b,c,d,e,n},x] && EqQ[e-c^2*d] && IntegerQ[m] && IntegerQ[p+1/2] && Not[PositiveQ[e] && Negative[d]]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcSech[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcSech[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[x_^m_.*(d_.+e_.*x_^2)^p_.*(a_.+b_.*ArcCsch[c_.*x_])^n_.,x_Symbol] :=
-  Defer[Int][x^m*(d+e*x^2)^p*(a+b*ArcCsch[c*x])^n,x] /;
-FreeQ[{a,b,c,d,e,m,n,p},x]
-
-
-Int[ArcSech[a_+b_.*x_],x_Symbol] :=
-  (a+b*x)*ArcSech[a+b*x]/b + 
-  Int[Sqrt[(1-a-b*x)/(1+a+b*x)]/(1-a-b*x),x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCsch[a_+b_.*x_],x_Symbol] :=
-  (a+b*x)*ArcCsch[a+b*x]/b + 
-  Int[1/((a+b*x)*Sqrt[1+1/(a+b*x)^2]),x] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcSech[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b*Subst[Int[x^n*Sech[x]*Tanh[x],x],x,ArcSech[a+b*x]] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcCsch[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b*Subst[Int[x^n*Csch[x]*Coth[x],x],x,ArcCsch[a+b*x]] /;
-FreeQ[{a,b,n},x]
-
-
-Int[ArcSech[a_+b_.*x_]/x_,x_Symbol] :=
-  -ArcSech[a+b*x]*Log[1+E^(-2*ArcSech[a+b*x])] + 
-  ArcSech[a+b*x]*Log[1-(1-Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] + 
-  ArcSech[a+b*x]*Log[1-(1+Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] + 
-  1/2*PolyLog[2,-E^(-2*ArcSech[a+b*x])] - 
-  PolyLog[2,(1-Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] - 
-  PolyLog[2,(1+Sqrt[1-a^2])/(E^ArcSech[a+b*x]*a)] /;
-FreeQ[{a,b},x]
-
-
-Int[ArcCsch[a_+b_.*x_]/x_,x_Symbol] :=
-  -ArcCsch[a+b*x]^2 - 
-  ArcCsch[a+b*x]*Log[1-E^(-2*ArcCsch[a+b*x])] + 
-  ArcCsch[a+b*x]*Log[1+(1-Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
-  ArcCsch[a+b*x]*Log[1+(1+Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
-  1/2*PolyLog[2,E^(-2*ArcCsch[a+b*x])] + 
-  PolyLog[2,-(1-Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] + 
-  PolyLog[2,-(1+Sqrt[1+a^2])*E^ArcCsch[a+b*x]/a] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*ArcSech[a_+b_.*x_],x_Symbol] :=
-  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcSech[a+b*x]/(b^(m+1)*(m+1)) + 
-  1/(b^(m+1)*(m+1))*Subst[Int[((-a*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[-1+x]*Sqrt[1+x]),x],x,1/(a+b*x)] /;
-FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
-
-
-Int[x_^m_.*ArcCsch[a_+b_.*x_],x_Symbol] :=
-  -((-a)^(m+1)-b^(m+1)*x^(m+1))*ArcCsch[a+b*x]/(b^(m+1)*(m+1)) + 
-  1/(b^(m+1)*(m+1))*Subst[Int[((-a*x)^(m+1)-(1-a*x)^(m+1))/(x^(m+1)*Sqrt[1+x^2]),x],x,1/(a+b*x)] /;
-FreeQ[{a,b,m},x] && IntegerQ[m] && NeQ[m+1]
-
-
-Int[x_^m_.*ArcSech[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b^(m+1)*Subst[Int[x^n*(-a+Sech[x])^m*Sech[x]*Tanh[x],x],x,ArcSech[a+b*x]] /;
-FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*ArcCsch[a_+b_.*x_]^n_,x_Symbol] :=
-  -1/b^(m+1)*Subst[Int[x^n*(-a+Csch[x])^m*Csch[x]*Coth[x],x],x,ArcCsch[a+b*x]] /;
-FreeQ[{a,b,n},x] && PositiveIntegerQ[m]
-
-
-Int[u_.*ArcSech[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcCosh[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[u_.*ArcCsch[c_./(a_.+b_.*x_^n_.)]^m_.,x_Symbol] :=
-  Int[u*ArcSinh[a/c+b*x^n/c]^m,x] /;
-FreeQ[{a,b,c,n,m},x]
-
-
-Int[E^ArcSech[a_.*x_], x_Symbol] :=
-  x*E^ArcSech[a*x] + Log[x]/a + 1/a*Int[1/(x*(1-a*x))*Sqrt[(1-a*x)/(1+a*x)],x] /;
-FreeQ[a,x]
-
-
-Int[E^ArcSech[a_.*x_^p_], x_Symbol] :=
-  x*E^ArcSech[a*x^p] + 
-  p/a*Int[1/x^p,x] + 
-  p*Sqrt[1+a*x^p]/a*Sqrt[1/(1+a*x^p)]*Int[1/(x^p*Sqrt[1+a*x^p]*Sqrt[1-a*x^p]),x] /;
-FreeQ[{a,p},x]
-
-
-Int[E^ArcCsch[a_.*x_^p_.], x_Symbol] :=
-  1/a*Int[1/x^p,x] + Int[Sqrt[1+1/(a^2*x^(2*p))],x] /;
-FreeQ[{a,p},x]
-
-
-Int[E^(n_.*ArcSech[u_]), x_Symbol] :=
-  Int[(1/u + Sqrt[(1-u)/(1+u)] + 1/u*Sqrt[(1-u)/(1+u)])^n,x] /;
-IntegerQ[n]
-
-
-Int[E^(n_.*ArcCsch[u_]), x_Symbol] :=
-  Int[(1/u + Sqrt[1+1/u^2])^n,x] /;
-IntegerQ[n]
-
-
-Int[E^ArcSech[a_.*x_^p_.]/x_, x_Symbol] :=
-  -1/(a*p*x^p) + 
-  Sqrt[1+a*x^p]/a*Sqrt[1/(1+a*x^p)]*Int[Sqrt[1+a*x^p]*Sqrt[1-a*x^p]/x^(p+1),x] /;
-FreeQ[{a,p},x]
-
-
-Int[x_^m_.*E^ArcSech[a_.*x_^p_.], x_Symbol] :=
-  x^(m+1)*E^ArcSech[a*x^p]/(m+1) + 
-  p/(a*(m+1))*Int[x^(m-p),x] + 
-  p*Sqrt[1+a*x^p]/(a*(m+1))*Sqrt[1/(1+a*x^p)]*Int[x^(m-p)/(Sqrt[1+a*x^p]*Sqrt[1-a*x^p]),x] /;
-FreeQ[{a,m,p},x] && NeQ[m+1]
-
-
-Int[x_^m_.*E^ArcCsch[a_.*x_^p_.], x_Symbol] :=
-  1/a*Int[x^(m-p),x] + Int[x^m*Sqrt[1+1/(a^2*x^(2*p))],x] /;
-FreeQ[{a,m,p},x]
-
-
-Int[x_^m_.*E^(n_.*ArcSech[u_]), x_Symbol] :=
-  Int[x^m*(1/u + Sqrt[(1-u)/(1+u)] + 1/u*Sqrt[(1-u)/(1+u)])^n,x] /;
-FreeQ[m,x] && IntegerQ[n]
-
-
-Int[x_^m_.*E^(n_.*ArcCsch[u_]), x_Symbol] :=
-  Int[x^m*(1/u + Sqrt[1+1/u^2])^n,x] /;
-FreeQ[m,x] && IntegerQ[n]
-
-
-Int[ArcSech[u_],x_Symbol] :=
-  x*ArcSech[u] +
-  Sqrt[1-u^2]/(u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[ArcCsch[u_],x_Symbol] :=
-  x*ArcCsch[u] -
-  u/Sqrt[-u^2]*Int[SimplifyIntegrand[x*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
-InverseFunctionFreeQ[u,x] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcSech[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcSech[u])/(d*(m+1)) + 
-  b*Sqrt[1-u^2]/(d*(m+1)*u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[(c_.+d_.*x_)^m_.*(a_.+b_.*ArcCsch[u_]),x_Symbol] :=
-  (c+d*x)^(m+1)*(a+b*ArcCsch[u])/(d*(m+1)) - 
-  b*u/(d*(m+1)*Sqrt[-u^2])*Int[SimplifyIntegrand[(c+d*x)^(m+1)*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
-FreeQ[{a,b,c,d,m},x] && NeQ[m+1] && InverseFunctionFreeQ[u,x] && Not[FunctionOfQ[(c+d*x)^(m+1),u,x]] && Not[FunctionOfExponentialQ[u,x]]
-
-
-Int[v_*(a_.+b_.*ArcSech[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcSech[u]),w,x] + b*Sqrt[1-u^2]/(u*Sqrt[-1+1/u]*Sqrt[1+1/u])*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[1-u^2]),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-Int[v_*(a_.+b_.*ArcCsch[u_]),x_Symbol] :=
-  With[{w=IntHide[v,x]},  
-  Dist[(a+b*ArcCsch[u]),w,x] - b*u/Sqrt[-u^2]*Int[SimplifyIntegrand[w*D[u,x]/(u*Sqrt[-1-u^2]),x],x] /;
- InverseFunctionFreeQ[w,x]] /;
-FreeQ[{a,b},x] && InverseFunctionFreeQ[u,x] && Not[MatchQ[v, (c_.+d_.*x)^m_. /; FreeQ[{c,d,m},x]]]
-
-
-
-`)
 
-func resourcesRubi7InverseHyperbolicFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi7InverseHyperbolicFunctionsM, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[u_+v_,test2_]],test1_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list,F[u+v,test2]],test1]],{{2,1,2,1,1}->FixRhsIntRule[u,x],{2,1,2,1,2}->FixRhsIntRule[v,x]}] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-func resourcesRubi7InverseHyperbolicFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi7InverseHyperbolicFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
+FixIntRule[RuleDelayed[lhs_,G_[list_,F_[u_+v_,test2_]]],x_] :=
+  ReplacePart[RuleDelayed[lhs,G[list,F[u+v,test2]]],{{2,2,1,1}->FixRhsIntRule[u,x],{2,2,1,2}->FixRhsIntRule[v,x]}] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-	info := bindataFileInfo{name: "resources/rubi/7 Inverse hyperbolic functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list_,u_+v_],test_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list,u+v],test]],{{2,1,2,1}->FixRhsIntRule[u,x],{2,1,2,2}->FixRhsIntRule[v,x]}] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-var _resourcesRubi8SpecialFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Section:: *)
-(*Special Function Rules*)
-
-
-(* ::Subsection::Closed:: *)
-(*8.1 Error functions*)
-
-
-Int[Erf[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*Erf[a+b*x]/b + 1/(b*Sqrt[Pi]*E^(a+b*x)^2) /;
-FreeQ[{a,b},x]
-
-
-Int[Erfc[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*Erfc[a+b*x]/b - 1/(b*Sqrt[Pi]*E^(a+b*x)^2) /;
-FreeQ[{a,b},x]
-
-
-Int[Erfi[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*Erfi[a+b*x]/b - E^(a+b*x)^2/(b*Sqrt[Pi]) /;
-FreeQ[{a,b},x]
-
-
-Int[Erf[b_.*x_]/x_,x_Symbol] :=
-  2*b*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-b^2*x^2] /;
-FreeQ[b,x]
-
-
-Int[Erfc[b_.*x_]/x_,x_Symbol] :=
-  Log[x] - Int[Erf[b*x]/x,x] /;
-FreeQ[b,x]
-
-
-Int[Erfi[b_.*x_]/x_,x_Symbol] :=
-  2*b*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},b^2*x^2] /;
-FreeQ[b,x]
-
-
-Int[x_^m_.*Erf[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*Erf[a+b*x]/(m+1) -
-  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)/E^(a+b*x)^2,x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*Erfc[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*Erfc[a+b*x]/(m+1) +
-  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)/E^(a+b*x)^2,x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*Erfi[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*Erfi[a+b*x]/(m+1) -
-  2*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(a+b*x)^2,x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
-  E^(c+d*x^2)*Erf[a+b*x]/(2*d) - 
-  b/(d*Sqrt[Pi])*Int[E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
-  E^(c+d*x^2)*Erfc[a+b*x]/(2*d) + 
-  b/(d*Sqrt[Pi])*Int[E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
-  E^(c+d*x^2)*Erfi[a+b*x]/(2*d) - 
-  b/(d*Sqrt[Pi])*Int[E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
-  x^(m-1)*E^(c+d*x^2)*Erf[a+b*x]/(2*d) - 
-  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
-  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erf[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
-  x^(m-1)*E^(c+d*x^2)*Erfc[a+b*x]/(2*d) + 
-  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
-  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erfc[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
-  x^(m-1)*E^(c+d*x^2)*Erfi[a+b*x]/(2*d) - 
-  b/(d*Sqrt[Pi])*Int[x^(m-1)*E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] - 
-  (m-1)/(2*d)*Int[x^(m-2)*E^(c+d*x^2)*Erfi[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>1
-
-
-Int[E^(c_.+d_.*x_^2)*Erf[b_.*x_]/x_,x_Symbol] :=
-  2*b*E^c*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1},{3/2,3/2},d*x^2] /;
-FreeQ[b,x] && EqQ[d-b^2]
-
-
-Int[E^(c_.+d_.*x_^2)*Erfc[b_.*x_]/x_,x_Symbol] :=
-  Int[E^(c+d*x^2)/x,x] - Int[E^(c+d*x^2)*Erf[b*x]/x,x] /;
-FreeQ[b,x] && EqQ[d-b^2]
-
-
-Int[E^(c_.+d_.*x_^2)*Erfi[b_.*x_]/x_,x_Symbol] :=
-  2*b*E^c*x/Sqrt[Pi]*HypergeometricPFQ[{1/2,1},{3/2,3/2},d*x^2] /;
-FreeQ[b,x] && EqQ[d+b^2]
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erf[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*E^(c+d*x^2)*Erf[a+b*x]/(m+1) - 
-  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
-  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erf[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erfc[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*E^(c+d*x^2)*Erfc[a+b*x]/(m+1) + 
-  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(-a^2+c-2*a*b*x-(b^2-d)*x^2),x] - 
-  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erfc[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_*E^(c_.+d_.*x_^2)*Erfi[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*E^(c+d*x^2)*Erfi[a+b*x]/(m+1) - 
-  2*b/((m+1)*Sqrt[Pi])*Int[x^(m+1)*E^(a^2+c+2*a*b*x+(b^2+d)*x^2),x] - 
-  2*d/(m+1)*Int[x^(m+2)*E^(c+d*x^2)*Erfi[a+b*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[Erf[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*Erf[a+b*x]^2/b -
-  4/Sqrt[Pi]*Int[(a+b*x)*Erf[a+b*x]/E^(a+b*x)^2,x] /;
-FreeQ[{a,b},x]
-
-
-Int[Erfc[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*Erfc[a+b*x]^2/b +
-  4/Sqrt[Pi]*Int[(a+b*x)*Erfc[a+b*x]/E^(a+b*x)^2,x] /;
-FreeQ[{a,b},x]
-
-
-Int[Erfi[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*Erfi[a+b*x]^2/b -
-  4/Sqrt[Pi]*Int[(a+b*x)*E^(a+b*x)^2*Erfi[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*Erf[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*Erf[b*x]^2/(m+1) -
-  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(-b^2*x^2)*Erf[b*x],x] /;
-FreeQ[b,x] && IntegerQ[m] && m!=-1 && (m>0 || OddQ[m])
-
-
-Int[x_^m_.*Erfc[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*Erfc[b*x]^2/(m+1) +
-  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(-b^2*x^2)*Erfc[b*x],x] /;
-FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 || OddQ[m])
-
-
-Int[x_^m_.*Erfi[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*Erfi[b*x]^2/(m+1) -
-  4*b/(Sqrt[Pi]*(m+1))*Int[x^(m+1)*E^(b^2*x^2)*Erfi[b*x],x] /;
-FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 || OddQ[m])
-
-
-Int[x_^m_.*Erf[a_+b_.*x_]^2,x_Symbol] :=
-  1/b*Subst[Int[(-a/b+x/b)^m*Erf[x]^2,x],x,a+b*x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Erfc[a_+b_.*x_]^2,x_Symbol] :=
-  1/b*Subst[Int[(-a/b+x/b)^m*Erfc[x]^2,x],x,a+b*x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Erfi[a_+b_.*x_]^2,x_Symbol] :=
-  1/b*Subst[Int[(-a/b+x/b)^m*Erfi[x]^2,x],x,a+b*x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.2 Fresnel integral functions*)
-
-
-Int[FresnelS[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*FresnelS[a+b*x]/b + Cos[Pi/2*(a+b*x)^2]/(b*Pi) /;
-FreeQ[{a,b},x]
-
-
-Int[FresnelC[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*FresnelC[a+b*x]/b - Sin[Pi/2*(a+b*x)^2]/(b*Pi) /;
-FreeQ[{a,b},x]
-
-
-Int[FresnelS[b_.*x_]/x_,x_Symbol] :=
-  1/2*I*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-1/2*I*b^2*Pi*x^2] - 
-  1/2*I*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},1/2*I*b^2*Pi*x^2] /;
-FreeQ[b,x]
-
-
-Int[FresnelC[b_.*x_]/x_,x_Symbol] :=
-  1/2*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},-1/2*I*b^2*Pi*x^2] + 
-  1/2*b*x*HypergeometricPFQ[{1/2,1/2},{3/2,3/2},1/2*I*b^2*Pi*x^2] /;
-FreeQ[b,x]
-
-
-Int[x_^m_.*FresnelS[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*FresnelS[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Sin[Pi/2*(a+b*x)^2],x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*FresnelC[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*FresnelC[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Cos[Pi/2*(a+b*x)^2],x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[FresnelS[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*FresnelS[a+b*x]^2/b -
-  2*Int[(a+b*x)*Sin[Pi/2*(a+b*x)^2]*FresnelS[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[FresnelC[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*FresnelC[a+b*x]^2/b -
-  2*Int[(a+b*x)*Cos[Pi/2*(a+b*x)^2]*FresnelC[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_*FresnelS[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*FresnelS[b*x]^2/(m+1) -
-  2*b/(m+1)*Int[x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
-FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 && EvenQ[m] || Mod[m,4]==3)
-
-
-Int[x_^m_*FresnelC[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*FresnelC[b*x]^2/(m+1) -
-  2*b/(m+1)*Int[x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
-FreeQ[b,x] && IntegerQ[m] && m+1!=0 && (m>0 && EvenQ[m] || Mod[m,4]==3)
-
-
-(* Int[x_^m_.*FresnelS[a_+b_.*x_]^2,x_Symbol] :=
-  1/b*Subst[Int[(-a/b+x/b)^m*FresnelS[x]^2,x],x,a+b*x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m>0 *)
-
-
-(* Int[x_^m_.*FresnelC[a_+b_.*x_]^2,x_Symbol] :=
-  1/b*Subst[Int[(-a/b+x/b)^m*FresnelC[x]^2,x],x,a+b*x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m>0 *)
-
-
-Int[x_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  -Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) +
-  1/(2*Pi*b)*Int[Sin[Pi*b^2*x^2],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
-
-
-Int[x_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) -
-  1/(2*Pi*b)*Int[Sin[Pi*b^2*x^2],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
-
-
-Int[x_^m_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  -x^(m-1)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) +
-  1/(2*Pi*b)*Int[x^(m-1)*Sin[Pi*b^2*x^2],x] +
-  (m-1)/(Pi*b^2)*Int[x^(m-2)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==2]
-
-
-Int[x_^m_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  x^(m-1)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) -
-  1/(2*Pi*b)*Int[x^(m-1)*Sin[Pi*b^2*x^2],x] -
-  (m-1)/(Pi*b^2)*Int[x^(m-2)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==2]
-
-
-Int[x_^m_*Sin[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(m+1) - b*x^(m+2)/(2*(m+1)*(m+2)) +
-  b/(2*(m+1))*Int[x^(m+1)*Cos[Pi*b^2*x^2],x] -
-  Pi*b^2/(m+1)*Int[x^(m+2)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-2 && Mod[m,4]==0
-
-
-Int[x_^m_*Cos[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(m+1) - b*x^(m+2)/(2*(m+1)*(m+2)) -
-  b/(2*(m+1))*Int[x^(m+1)*Cos[Pi*b^2*x^2],x] +
-  Pi*b^2/(m+1)*Int[x^(m+2)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-2 && Mod[m,4]==0
-
-
-Int[x_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) - x/(2*Pi*b) +
-  1/(2*Pi*b)*Int[Cos[Pi*b^2*x^2],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
-
-
-Int[x_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  -Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) + x/(2*Pi*b) +
-  1/(2*Pi*b)*Int[Cos[Pi*b^2*x^2],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2]
-
-
-Int[x_^m_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  x^(m-1)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x]/(Pi*b^2) - x^m/(2*b*m*Pi) +
-  1/(2*Pi*b)*Int[x^(m-1)*Cos[Pi*b^2*x^2],x] -
-  (m-1)/(Pi*b^2)*Int[x^(m-2)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==0]
-
-
-Int[x_^m_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  -x^(m-1)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x]/(Pi*b^2) + x^m/(2*b*m*Pi) +
-  1/(2*Pi*b)*Int[x^(m-1)*Cos[Pi*b^2*x^2],x] +
-  (m-1)/(Pi*b^2)*Int[x^(m-2)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m>1 && Not[Mod[m,4]==0]
-
-
-Int[x_^m_*Cos[c_.*x_^2]*FresnelS[b_.*x_],x_Symbol] :=
-  x^(m+1)*Cos[Pi/2*b^2*x^2]*FresnelS[b*x]/(m+1) -
-  b/(2*(m+1))*Int[x^(m+1)*Sin[Pi*b^2*x^2],x] +
-  Pi*b^2/(m+1)*Int[x^(m+2)*Sin[Pi/2*b^2*x^2]*FresnelS[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-1 && Mod[m,4]==2
-
-
-Int[x_^m_*Sin[c_.*x_^2]*FresnelC[b_.*x_],x_Symbol] :=
-  x^(m+1)*Sin[Pi/2*b^2*x^2]*FresnelC[b*x]/(m+1) -
-  b/(2*(m+1))*Int[x^(m+1)*Sin[Pi*b^2*x^2],x] -
-  Pi*b^2/(m+1)*Int[x^(m+2)*Cos[Pi/2*b^2*x^2]*FresnelC[b*x],x] /;
-FreeQ[{b,c},x] && EqQ[c-Pi/2*b^2] && IntegerQ[m] && m<-1 && Mod[m,4]==2
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.3 Exponential integral functions*)
-
-
-Int[ExpIntegralE[n_,a_.+b_.*x_],x_Symbol] :=
-  -ExpIntegralE[n+1,a+b*x]/b /;
-FreeQ[{a,b,n},x]
-
-
-Int[x_^m_.*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
-  -x^m*ExpIntegralE[n+1,b*x]/b + 
-  m/b*Int[x^(m-1)*ExpIntegralE[n+1,b*x],x] /;
-FreeQ[b,x] && EqQ[m+n] && PositiveIntegerQ[m]
-
-
-Int[ExpIntegralE[1,b_.*x_]/x_,x_Symbol] :=
-  b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] - EulerGamma*Log[x] - 1/2*Log[b*x]^2 /;
-FreeQ[b,x]
-
-
-Int[x_^m_*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
-  x^(m+1)*ExpIntegralE[n,b*x]/(m+1) +
-  b/(m+1)*Int[x^(m+1)*ExpIntegralE[n-1,b*x],x] /;
-FreeQ[b,x] && EqQ[m+n] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
-  x^m*Gamma[m+1]*Log[x]/(b*(b*x)^m) - x^(m+1)*HypergeometricPFQ[{m+1,m+1},{m+2,m+2},-b*x]/(m+1)^2 /;
-FreeQ[{b,m,n},x] && EqQ[m+n] && Not[IntegerQ[m]]
-
-
-Int[x_^m_.*ExpIntegralE[n_,b_.*x_],x_Symbol] :=
-  x^(m+1)*ExpIntegralE[n,b*x]/(m+n) - x^(m+1)*ExpIntegralE[-m,b*x]/(m+n) /;
-FreeQ[{b,m,n},x] && NeQ[m+n]
-
-
-Int[x_^m_.*ExpIntegralE[n_,a_+b_.*x_],x_Symbol] :=
-  -x^m*ExpIntegralE[n+1,a+b*x]/b +
-  m/b*Int[x^(m-1)*ExpIntegralE[n+1,a+b*x],x] /;
-FreeQ[{a,b,m,n},x] && (PositiveIntegerQ[m] || NegativeIntegerQ[n] || RationalQ[m,n] && m>0 && n<-1)
-
-
-Int[x_^m_.*ExpIntegralE[n_,a_+b_.*x_],x_Symbol] :=
-  x^(m+1)*ExpIntegralE[n,a+b*x]/(m+1) +
-  b/(m+1)*Int[x^(m+1)*ExpIntegralE[n-1,a+b*x],x] /;
-FreeQ[{a,b,m},x] && (PositiveIntegerQ[n] || RationalQ[m,n] && m<-1 && n>0) && NeQ[m+1]
-
-
-Int[ExpIntegralEi[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*ExpIntegralEi[a+b*x]/b - E^(a+b*x)/b /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*ExpIntegralEi[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*ExpIntegralEi[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*E^(a+b*x)/(a+b*x),x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[ExpIntegralEi[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*ExpIntegralEi[a+b*x]^2/b -
-  2*Int[E^(a+b*x)*ExpIntegralEi[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*ExpIntegralEi[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*ExpIntegralEi[b*x]^2/(m+1) -
-  2/(m+1)*Int[x^m*E^(b*x)*ExpIntegralEi[b*x],x] /;
-FreeQ[b,x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*ExpIntegralEi[a_+b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*ExpIntegralEi[a+b*x]^2/(m+1) +
-  a*x^m*ExpIntegralEi[a+b*x]^2/(b*(m+1)) -
-  2/(m+1)*Int[x^m*E^(a+b*x)*ExpIntegralEi[a+b*x],x] -
-  a*m/(b*(m+1))*Int[x^(m-1)*ExpIntegralEi[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-(* Int[x_^m_.*ExpIntegralEi[a_+b_.*x_]^2,x_Symbol] :=
-  b*x^(m+2)*ExpIntegralEi[a+b*x]^2/(a*(m+1)) +
-  x^(m+1)*ExpIntegralEi[a+b*x]^2/(m+1) -
-  2*b/(a*(m+1))*Int[x^(m+1)*E^(a+b*x)*ExpIntegralEi[a+b*x],x] -
-  b*(m+2)/(a*(m+1))*Int[x^(m+1)*ExpIntegralEi[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
-
-
-Int[E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
-  E^(a+b*x)*ExpIntegralEi[c+d*x]/b -
-  d/b*Int[E^(a+c+(b+d)*x)/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_.*E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
-  x^m*E^(a+b*x)*ExpIntegralEi[c+d*x]/b -
-  d/b*Int[x^m*E^(a+c+(b+d)*x)/(c+d*x),x] -
-  m/b*Int[x^(m-1)*E^(a+b*x)*ExpIntegralEi[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_*E^(a_.+b_.*x_)*ExpIntegralEi[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*E^(a+b*x)*ExpIntegralEi[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*E^(a+c+(b+d)*x)/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*E^(a+b*x)*ExpIntegralEi[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[LogIntegral[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*LogIntegral[a+b*x]/b - ExpIntegralEi[2*Log[a+b*x]]/b /;
-FreeQ[{a,b},x]
-
-
-Int[LogIntegral[b_.*x_]/x_,x_Symbol] :=
-  -b*x + Log[b*x]*LogIntegral[b*x] /;
-FreeQ[b,x]
-
-
-Int[x_^m_.*LogIntegral[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*LogIntegral[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)/Log[a+b*x],x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.4 Trig integral functions*)
-
-
-Int[SinIntegral[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*SinIntegral[a+b*x]/b + Cos[a+b*x]/b/;
-FreeQ[{a,b},x]
-
-
-Int[CosIntegral[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*CosIntegral[a+b*x]/b - Sin[a+b*x]/b /;
-FreeQ[{a,b},x]
-
-
-Int[SinIntegral[b_.*x_]/x_,x_Symbol] :=
-  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-I*b*x] + 
-  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},I*b*x] /;
-FreeQ[b,x]
-
-
-Int[CosIntegral[b_.*x_]/x_,x_Symbol] :=
-  -1/2*I*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-I*b*x] + 
-  1/2*I*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},I*b*x] + 
-  EulerGamma*Log[x] + 
-  1/2*Log[b*x]^2 /;
-FreeQ[b,x]
-
-
-Int[x_^m_.*SinIntegral[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*SinIntegral[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]/(a+b*x),x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*CosIntegral[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*CosIntegral[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]/(a+b*x),x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[SinIntegral[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*SinIntegral[a+b*x]^2/b -
-  2*Int[Sin[a+b*x]*SinIntegral[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[CosIntegral[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*CosIntegral[a+b*x]^2/b -
-  2*Int[Cos[a+b*x]*CosIntegral[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*SinIntegral[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*SinIntegral[b*x]^2/(m+1) -
-  2/(m+1)*Int[x^m*Sin[b*x]*SinIntegral[b*x],x] /;
-FreeQ[b,x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*CosIntegral[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*CosIntegral[b*x]^2/(m+1) -
-  2/(m+1)*Int[x^m*Cos[b*x]*CosIntegral[b*x],x] /;
-FreeQ[b,x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*SinIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*SinIntegral[a+b*x]^2/(m+1) +
-  a*x^m*SinIntegral[a+b*x]^2/(b*(m+1)) -
-  2/(m+1)*Int[x^m*Sin[a+b*x]*SinIntegral[a+b*x],x] -
-  a*m/(b*(m+1))*Int[x^(m-1)*SinIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*CosIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*CosIntegral[a+b*x]^2/(m+1) +
-  a*x^m*CosIntegral[a+b*x]^2/(b*(m+1)) -
-  2/(m+1)*Int[x^m*Cos[a+b*x]*CosIntegral[a+b*x],x] -
-  a*m/(b*(m+1))*Int[x^(m-1)*CosIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-(* Int[x_^m_.*SinIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  b*x^(m+2)*SinIntegral[a+b*x]^2/(a*(m+1)) +
-  x^(m+1)*SinIntegral[a+b*x]^2/(m+1) -
-  2*b/(a*(m+1))*Int[x^(m+1)*Sin[a+b*x]*SinIntegral[a+b*x],x] -
-  b*(m+2)/(a*(m+1))*Int[x^(m+1)*SinIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
-
-
-(* Int[x_^m_.*CosIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  b*x^(m+2)*CosIntegral[a+b*x]^2/(a*(m+1)) +
-  x^(m+1)*CosIntegral[a+b*x]^2/(m+1) -
-  2*b/(a*(m+1))*Int[x^(m+1)*Cos[a+b*x]*CosIntegral[a+b*x],x] -
-  b*(m+2)/(a*(m+1))*Int[x^(m+1)*CosIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
-
-
-Int[Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  -Cos[a+b*x]*SinIntegral[c+d*x]/b +
-  d/b*Int[Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  Sin[a+b*x]*CosIntegral[c+d*x]/b -
-  d/b*Int[Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  -x^m*Cos[a+b*x]*SinIntegral[c+d*x]/b +
-  d/b*Int[x^m*Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] +
-  m/b*Int[x^(m-1)*Cos[a+b*x]*SinIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Sin[a+b*x]*CosIntegral[c+d*x]/b -
-  d/b*Int[x^m*Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Sin[a+b*x]*CosIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_*Sin[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Sin[a+b*x]*SinIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]*SinIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Cos[a+b*x]*CosIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] +
-  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]*CosIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  Sin[a+b*x]*SinIntegral[c+d*x]/b -
-  d/b*Int[Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  -Cos[a+b*x]*CosIntegral[c+d*x]/b +
-  d/b*Int[Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Sin[a+b*x]*SinIntegral[c+d*x]/b -
-  d/b*Int[x^m*Sin[a+b*x]*Sin[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Sin[a+b*x]*SinIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  -x^m*Cos[a+b*x]*CosIntegral[c+d*x]/b +
-  d/b*Int[x^m*Cos[a+b*x]*Cos[c+d*x]/(c+d*x),x] +
-  m/b*Int[x^(m-1)*Cos[a+b*x]*CosIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Cos[a_.+b_.*x_]*SinIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Cos[a+b*x]*SinIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Cos[a+b*x]*Sin[c+d*x]/(c+d*x),x] +
-  b/(m+1)*Int[x^(m+1)*Sin[a+b*x]*SinIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_*Sin[a_.+b_.*x_]*CosIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Sin[a+b*x]*CosIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Sin[a+b*x]*Cos[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Cos[a+b*x]*CosIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.5 Hyperbolic integral functions*)
-
-
-Int[SinhIntegral[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*SinhIntegral[a+b*x]/b - Cosh[a+b*x]/b/;
-FreeQ[{a,b},x]
-
-
-Int[CoshIntegral[a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*CoshIntegral[a+b*x]/b - Sinh[a+b*x]/b /;
-FreeQ[{a,b},x]
-
-
-Int[SinhIntegral[b_.*x_]/x_,x_Symbol] :=
-  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] + 
-  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},b*x] /;
-FreeQ[b,x]
-
-
-Int[CoshIntegral[b_.*x_]/x_,x_Symbol] :=
-  -1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},-b*x] + 
-  1/2*b*x*HypergeometricPFQ[{1,1,1},{2,2,2},b*x] + 
-  EulerGamma*Log[x] + 
-  1/2*Log[b*x]^2 /;
-FreeQ[b,x]
-
-
-Int[x_^m_.*SinhIntegral[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*SinhIntegral[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]/(a+b*x),x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[x_^m_.*CoshIntegral[a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*CoshIntegral[a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]/(a+b*x),x] /;
-FreeQ[{a,b,m},x] && NeQ[m+1]
-
-
-Int[SinhIntegral[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*SinhIntegral[a+b*x]^2/b -
-  2*Int[Sinh[a+b*x]*SinhIntegral[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[CoshIntegral[a_.+b_.*x_]^2,x_Symbol] :=
-  (a+b*x)*CoshIntegral[a+b*x]^2/b -
-  2*Int[Cosh[a+b*x]*CoshIntegral[a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*SinhIntegral[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*SinhIntegral[b*x]^2/(m+1) -
-  2/(m+1)*Int[x^m*Sinh[b*x]*SinhIntegral[b*x],x] /;
-FreeQ[b,x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*CoshIntegral[b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*CoshIntegral[b*x]^2/(m+1) -
-  2/(m+1)*Int[x^m*Cosh[b*x]*CoshIntegral[b*x],x] /;
-FreeQ[b,x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*SinhIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*SinhIntegral[a+b*x]^2/(m+1) +
-  a*x^m*SinhIntegral[a+b*x]^2/(b*(m+1)) -
-  2/(m+1)*Int[x^m*Sinh[a+b*x]*SinhIntegral[a+b*x],x] -
-  a*m/(b*(m+1))*Int[x^(m-1)*SinhIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*CoshIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  x^(m+1)*CoshIntegral[a+b*x]^2/(m+1) +
-  a*x^m*CoshIntegral[a+b*x]^2/(b*(m+1)) -
-  2/(m+1)*Int[x^m*Cosh[a+b*x]*CoshIntegral[a+b*x],x] -
-  a*m/(b*(m+1))*Int[x^(m-1)*CoshIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m]
-
-
-(* Int[x_^m_.*SinhIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  b*x^(m+2)*SinhIntegral[a+b*x]^2/(a*(m+1)) +
-  x^(m+1)*SinhIntegral[a+b*x]^2/(m+1) -
-  2*b/(a*(m+1))*Int[x^(m+1)*Sinh[a+b*x]*SinhIntegral[a+b*x],x] -
-  b*(m+2)/(a*(m+1))*Int[x^(m+1)*SinhIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
-
-
-(* Int[x_^m_.*CoshIntegral[a_+b_.*x_]^2,x_Symbol] :=
-  b*x^(m+2)*CoshIntegral[a+b*x]^2/(a*(m+1)) +
-  x^(m+1)*CoshIntegral[a+b*x]^2/(m+1) -
-  2*b/(a*(m+1))*Int[x^(m+1)*Cosh[a+b*x]*CoshIntegral[a+b*x],x] -
-  b*(m+2)/(a*(m+1))*Int[x^(m+1)*CoshIntegral[a+b*x]^2,x] /;
-FreeQ[{a,b},x] && IntegerQ[m] && m<-2 *)
-
-
-Int[Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  Cosh[a+b*x]*SinhIntegral[c+d*x]/b -
-  d/b*Int[Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  Sinh[a+b*x]*CoshIntegral[c+d*x]/b -
-  d/b*Int[Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Cosh[a+b*x]*SinhIntegral[c+d*x]/b -
-  d/b*Int[x^m*Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Cosh[a+b*x]*SinhIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>0
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Sinh[a+b*x]*CoshIntegral[c+d*x]/b -
-  d/b*Int[x^m*Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Sinh[a+b*x]*CoshIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m>0
-
-
-Int[x_^m_*Sinh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Sinh[a+b*x]*SinhIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*SinhIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Cosh[a+b*x]*CoshIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*CoshIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  Sinh[a+b*x]*SinhIntegral[c+d*x]/b -
-  d/b*Int[Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  Cosh[a+b*x]*CoshIntegral[c+d*x]/b -
-  d/b*Int[Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] /;
-FreeQ[{a,b,c,d},x]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Sinh[a+b*x]*SinhIntegral[c+d*x]/b -
-  d/b*Int[x^m*Sinh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Sinh[a+b*x]*SinhIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^m*Cosh[a+b*x]*CoshIntegral[c+d*x]/b -
-  d/b*Int[x^m*Cosh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
-  m/b*Int[x^(m-1)*Cosh[a+b*x]*CoshIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*Cosh[a_.+b_.*x_]*SinhIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Cosh[a+b*x]*SinhIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*Sinh[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*SinhIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-Int[x_^m_*Sinh[a_.+b_.*x_]*CoshIntegral[c_.+d_.*x_],x_Symbol] :=
-  x^(m+1)*Sinh[a+b*x]*CoshIntegral[c+d*x]/(m+1) -
-  d/(m+1)*Int[x^(m+1)*Sinh[a+b*x]*Cosh[c+d*x]/(c+d*x),x] -
-  b/(m+1)*Int[x^(m+1)*Cosh[a+b*x]*CoshIntegral[c+d*x],x] /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && m<-1
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.6 Gamma functions*)
-
-
-Int[Gamma[n_,a_.+b_.*x_],x_Symbol] :=
-  (a+b*x)*Gamma[n,a+b*x]/b -
-  Gamma[n+1,a+b*x]/b /;
-FreeQ[{a,b},x]
-
-
-Int[Gamma[n_,b_*x_]/x_,x_Symbol] :=
-  Gamma[n]*Log[x] - (b*x)^n/n^2*HypergeometricPFQ[{n,n},{1+n,1+n},-b*x] /;
-FreeQ[{b,n},x] && Not[IntegerQ[n] && n<=0]
-
-
-Int[x_^m_.*Gamma[n_,b_*x_],x_Symbol] :=
-  x^(m+1)*Gamma[n,b*x]/(m+1) - 
-  x^m*Gamma[m+n+1,b*x]/(b*(m+1)*(b*x)^m) /;
-FreeQ[{b,m,n},x] && NeQ[m+1]
-
-
-Int[x_^m_.*Gamma[n_,a_+b_.*x_],x_Symbol] :=
-  Block[{$UseGamma=True},
-    x^(m+1)*Gamma[n,a+b*x]/(m+1) + 
-    b/(m+1)*Int[x^(m+1)*(a+b*x)^(n-1)/E^(a+b*x),x]] /;
-FreeQ[{a,b,m,n},x] && (PositiveIntegerQ[m] || PositiveIntegerQ[n] || IntegersQ[m,n]) && NeQ[m+1]
-
-
-(* Int[x_^m_.*Gamma[n_,a_+b_.*x_],x_Symbol] :=
-  x^m*(a+b*x)*Gamma[n,a+b*x]/(b*(m+1)) -
-  x^m*Gamma[n+1,a+b*x]/(b*(m+1)) -
-  a*m/(b*(m+1))*Int[x^(m-1)*Gamma[n,a+b*x],x] +
-  m/(b*(m+1))*Int[x^(m-1)*Gamma[n+1,a+b*x],x] /;
-FreeQ[{a,b,n},x] && RationalQ[m] && m>0 *)
-
-
-Int[LogGamma[a_.+b_.*x_],x_Symbol] :=
-  PolyGamma[-2,a+b*x]/b /;
-FreeQ[{a,b},x]
-
-
-Int[x_^m_.*LogGamma[a_.+b_.*x_],x_Symbol] :=
-  x^m*PolyGamma[-2,a+b*x]/b -
-  m/b*Int[x^(m-1)*PolyGamma[-2,a+b*x],x] /;
-FreeQ[{a,b},x] && RationalQ[m] && m>0
-
-
-Int[PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
-  PolyGamma[n-1,a+b*x]/b /;
-FreeQ[{a,b,n},x]
-
-
-Int[x_^m_.*PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
-  x^m*PolyGamma[n-1,a+b*x]/b -
-  m/b*Int[x^(m-1)*PolyGamma[n-1,a+b*x],x] /;
-FreeQ[{a,b,n},x] && RationalQ[m] && m>0
-
-
-Int[x_^m_.*PolyGamma[n_,a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*PolyGamma[n,a+b*x]/(m+1) -
-  b/(m+1)*Int[x^(m+1)*PolyGamma[n+1,a+b*x],x] /;
-FreeQ[{a,b,n},x] && RationalQ[m] && m<-1
-
-
-Int[Gamma[a_.+b_.*x_]^n_.*PolyGamma[0,a_.+b_.*x_],x_Symbol] :=
-  Gamma[a+b*x]^n/(b*n) /;
-FreeQ[{a,b,n},x]
-
-
-Int[((a_.+b_.*x_)!)^n_.*PolyGamma[0,c_.+b_.*x_],x_Symbol] :=
-  ((a+b*x)!)^n/(b*n) /;
-FreeQ[{a,b,c,n},x] && EqQ[a-c+1]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.7 Zeta function*)
-
-
-Int[Zeta[2,a_.+b_.*x_],x_Symbol] :=
-  Int[PolyGamma[1,a+b*x],x] /;
-FreeQ[{a,b},x]
-
-
-Int[Zeta[s_,a_.+b_.*x_],x_Symbol] :=
-  -Zeta[s-1,a+b*x]/(b*(s-1)) /;
-FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2]
-
-
-Int[x_^m_.*Zeta[2,a_.+b_.*x_],x_Symbol] :=
-  Int[x^m*PolyGamma[1,a+b*x],x] /;
-FreeQ[{a,b},x] && RationalQ[m]
-
-
-Int[x_^m_.*Zeta[s_,a_.+b_.*x_],x_Symbol] :=
-  -x^m*Zeta[s-1,a+b*x]/(b*(s-1)) +
-  m/(b*(s-1))*Int[x^(m-1)*Zeta[s-1,a+b*x],x] /;
-FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2] && RationalQ[m] && m>0
-
-
-Int[x_^m_.*Zeta[s_,a_.+b_.*x_],x_Symbol] :=
-  x^(m+1)*Zeta[s,a+b*x]/(m+1) +
-  b*s/(m+1)*Int[x^(m+1)*Zeta[s+1,a+b*x],x] /;
-FreeQ[{a,b,s},x] && NeQ[s-1] && NeQ[s-2] && RationalQ[m] && m<-1
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.8 Polylogarithm function*)
-
-
-Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
-  x*PolyLog[n,a*(b*x^p)^q] -
-  p*q*Int[PolyLog[n-1,a*(b*x^p)^q],x] /;
-FreeQ[{a,b,p,q},x] && RationalQ[n] && n>0
-
-
-Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
-  x*PolyLog[n+1,a*(b*x^p)^q]/(p*q) -
-  1/(p*q)*Int[PolyLog[n+1,a*(b*x^p)^q],x] /;
-FreeQ[{a,b,p,q},x] && RationalQ[n] && n<-1
-
-
-Int[PolyLog[n_,c_.*(a_.+b_.*x_)^p_.]/(d_.+e_.*x_),x_Symbol] :=
-  PolyLog[n+1,c*(a+b*x)^p]/(e*p) /;
-FreeQ[{a,b,c,d,e,n,p},x] && EqQ[b*d-a*e]
-
-
-Int[PolyLog[n_,a_.*(b_.*x_^p_.)^q_.]/x_,x_Symbol] :=
-  PolyLog[n+1,a*(b*x^p)^q]/(p*q) /;
-FreeQ[{a,b,n,p,q},x]
-
-
-Int[x_^m_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
-  x^(m+1)*PolyLog[n,a*(b*x^p)^q]/(m+1) -
-  p*q/(m+1)*Int[x^m*PolyLog[n-1,a*(b*x^p)^q],x] /;
-FreeQ[{a,b,m,p,q},x] && NeQ[m+1] && RationalQ[n] && n>0
-
-
-Int[x_^m_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.],x_Symbol] :=
-  x^(m+1)*PolyLog[n+1,a*(b*x^p)^q]/(p*q) -
-  (m+1)/(p*q)*Int[x^m*PolyLog[n+1,a*(b*x^p)^q],x] /;
-FreeQ[{a,b,m,p,q},x] && NeQ[m+1] && RationalQ[n] && n<-1
-
-
-Int[Log[c_.*x_^m_.]^r_.*PolyLog[n_,a_.*(b_.*x_^p_.)^q_.]/x_,x_Symbol] :=
-  Log[c*x^m]^r*PolyLog[n+1,a*(b*x^p)^q]/(p*q) - 
-  m*r/(p*q)*Int[Log[c*x^m]^(r-1)*PolyLog[n+1,a*(b*x^p)^q]/x,x] /;
-FreeQ[{a,b,c,m,n,q,r},x] && RationalQ[r] && r>0
-
-
-Int[PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
-  x*PolyLog[n,c*(a+b*x)^p] -
-  p*Int[PolyLog[n-1,c*(a+b*x)^p],x] +
-  a*p*Int[PolyLog[n-1,c*(a+b*x)^p]/(a+b*x),x] /;
-FreeQ[{a,b,c,p},x] && RationalQ[n] && n>0
-
-
-Int[PolyLog[2,c_.*(a_.+b_.*x_)]/(d_.+e_.*x_),x_Symbol] :=
-  Log[d+e*x]*PolyLog[2,c*(a+b*x)]/e + b/e*Int[Log[d+e*x]*Log[1-a*c-b*c*x]/(a+b*x),x] /;
-FreeQ[{a,b,c,d,e},x]
-
-
-Int[(d_.+e_.*x_)^m_.*PolyLog[2,c_.*(a_.+b_.*x_)],x_Symbol] :=
-  (d+e*x)^(m+1)*PolyLog[2,c*(a+b*x)]/(e*(m+1)) + b/(e*(m+1))*Int[(d+e*x)^(m+1)*Log[1-a*c-b*c*x]/(a+b*x),x] /;
-FreeQ[{a,b,c,d,e,m},x] && NeQ[m,-1]
-
-
-(* Int[x_^m_.*PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
-  x^(m+1)*PolyLog[n,c*(a+b*x)^p]/(m+1) -
-  b*p/(m+1)*Int[x^(m+1)*PolyLog[n-1,c*(a+b*x)^p]/(a+b*x),x] /;
-FreeQ[{a,b,c,m,p},x] && RationalQ[n] && n>0 && PositiveIntegerQ[m] *)
-
-
-Int[x_^m_.*PolyLog[n_,c_.*(a_.+b_.*x_)^p_.],x_Symbol] :=
-  -(a^(m+1)-b^(m+1)*x^(m+1))*PolyLog[n,c*(a+b*x)^p]/((m+1)*b^(m+1)) +
-  p/((m+1)*b^m)*Int[ExpandIntegrand[PolyLog[n-1,c*(a+b*x)^p],(a^(m+1)-b^(m+1)*x^(m+1))/(a+b*x),x],x] /;
-FreeQ[{a,b,c,p},x] && GtQ[n,0] && IntegerQ[m] && Not[EqQ[m,-1]]
-
-
-Int[PolyLog[n_,d_.*(F_^(c_.*(a_.+b_.*x_)))^p_.],x_Symbol] :=
-  PolyLog[n+1,d*(F^(c*(a+b*x)))^p]/(b*c*p*Log[F]) /;
-FreeQ[{F,a,b,c,d,n,p},x]
-
-
-Int[(e_.+f_.*x_)^m_.*PolyLog[n_,d_.*(F_^(c_.*(a_.+b_.*x_)))^p_.],x_Symbol] :=
-  (e+f*x)^m*PolyLog[n+1,d*(F^(c*(a+b*x)))^p]/(b*c*p*Log[F]) - 
-  f*m/(b*c*p*Log[F])*Int[(e+f*x)^(m-1)*PolyLog[n+1,d*(F^(c*(a+b*x)))^p],x] /;
-FreeQ[{F,a,b,c,d,e,f,n,p},x] && RationalQ[m] && m>0
-
-
-Int[u_*PolyLog[n_,v_],x_Symbol] :=
-  With[{w=DerivativeDivides[v,u*v,x]},
-  w*PolyLog[n+1,v] /;
- Not[FalseQ[w]]] /;
-FreeQ[n,x]
-
-
-Int[u_*Log[w_]*PolyLog[n_,v_],x_Symbol] :=
-  With[{z=DerivativeDivides[v,u*v,x]},
-  z*Log[w]*PolyLog[n+1,v] - 
-  Int[SimplifyIntegrand[z*D[w,x]*PolyLog[n+1,v]/w,x],x] /;
- Not[FalseQ[z]]] /;
-FreeQ[n,x] && InverseFunctionFreeQ[w,x]
-
-
-
-
-
-(* ::Subsection::Closed:: *)
-(*8.9 Product logarithm function*)
-
-
-Int[(c_.*ProductLog[a_.+b_.*x_])^p_,x_Symbol] :=
-  (a+b*x)*(c*ProductLog[a+b*x])^p/(b*(p+1)) +
-  p/(c*(p+1))*Int[(c*ProductLog[a+b*x])^(p+1)/(1+ProductLog[a+b*x]),x] /;
-FreeQ[{a,b,c},x] && RationalQ[p] && p<-1
-
-
-Int[(c_.*ProductLog[a_.+b_.*x_])^p_.,x_Symbol] :=
-  (a+b*x)*(c*ProductLog[a+b*x])^p/b -
-  p*Int[(c*ProductLog[a+b*x])^p/(1+ProductLog[a+b*x]),x] /;
-FreeQ[{a,b,c},x] && Not[RationalQ[p] && p<-1]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_+b_.*x_])^p_.,x_Symbol] :=
-  1/b*Subst[Int[ExpandIntegrand[(c*ProductLog[x])^p,(-a/b+x/b)^m,x],x],x,a+b*x] /;
-FreeQ[{a,b,c,p},x] && PositiveIntegerQ[m]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
-  x*(c*ProductLog[a*x^n])^p -
-  n*p*Int[(c*ProductLog[a*x^n])^p/(1+ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,n,p},x] && (EqQ[n*(p-1)+1] || IntegerQ[p-1/2] && EqQ[n*(p-1/2)+1])
-
-
-Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
-  x*(c*ProductLog[a*x^n])^p/(n*p+1) +
-  n*p/(c*(n*p+1))*Int[(c*ProductLog[a*x^n])^(p+1)/(1+ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,n},x] && (IntegerQ[p] && EqQ[n*(p+1)+1] || IntegerQ[p-1/2] && EqQ[n*(p+1/2)+1])
-
-
-Int[(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/x^2,x],x,1/x] /;
-FreeQ[{a,c,p},x] && NegativeIntegerQ[n]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_.,x_Symbol] :=
-  x^(m+1)*(c*ProductLog[a*x^n])^p/(m+1) -
-  n*p/(m+1)*Int[x^m*(c*ProductLog[a*x^n])^p/(1+ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,m,n,p},x] && NeQ[m+1] &&
-(IntegerQ[p-1/2] && IntegerQ[2*Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>0 ||
- Not[IntegerQ[p-1/2]] && IntegerQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>=0)
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_.,x_Symbol] :=
-  x^(m+1)*(c*ProductLog[a*x^n])^p/(m+n*p+1) +
-  n*p/(c*(m+n*p+1))*Int[x^m*(c*ProductLog[a*x^n])^(p+1)/(1+ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,m,n,p},x] &&
-(EqQ[m+1] ||
- IntegerQ[p-1/2] && IntegerQ[Simplify[p+(m+1)/n]-1/2] && Simplify[p+(m+1)/n]<0 ||
- Not[IntegerQ[p-1/2]] && IntegerQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]<0)
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_])^p_.,x_Symbol] :=
-  Int[x^m*(c*ProductLog[a*x])^p/(1+ProductLog[a*x]),x] +
-  1/c*Int[x^m*(c*ProductLog[a*x])^(p+1)/(1+ProductLog[a*x]),x] /;
-FreeQ[{a,c,m},x]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_])^p_.,x_Symbol] :=
-  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/x^(m+2),x],x,1/x] /;
-FreeQ[{a,c,p},x] && IntegersQ[m,n] && n<0 && NeQ[m+1]
-
-
-Int[1/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
-  (a+b*x)/(b*d*ProductLog[a+b*x]) /;
-FreeQ[{a,b,d},x]
-
-
-Int[ProductLog[a_.+b_.*x_]/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
-  d*x - 
-  Int[1/(d+d*ProductLog[a+b*x]),x] /;
-FreeQ[{a,b,d},x]
-
-
-Int[(c_.*ProductLog[a_.+b_.*x_])^p_/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
-  c*(a+b*x)*(c*ProductLog[a+b*x])^(p-1)/(b*d) -
-  c*p*Int[(c*ProductLog[a+b*x])^(p-1)/(d+d*ProductLog[a+b*x]),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[p] && p>0
-
-
-Int[1/(ProductLog[a_.+b_.*x_]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
-  ExpIntegralEi[ProductLog[a+b*x]]/(b*d) /;
-FreeQ[{a,b,d},x]
-
-
-Int[1/(Sqrt[c_.*ProductLog[a_.+b_.*x_]]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
-  Rt[Pi*c,2]*Erfi[Sqrt[c*ProductLog[a+b*x]]/Rt[c,2]]/(b*c*d) /;
-FreeQ[{a,b,c,d},x] && PosQ[c]
-
-
-Int[1/(Sqrt[c_.*ProductLog[a_.+b_.*x_]]*(d_+d_.*ProductLog[a_.+b_.*x_])),x_Symbol] :=
-  Rt[-Pi*c,2]*Erf[Sqrt[c*ProductLog[a+b*x]]/Rt[-c,2]]/(b*c*d) /;
-FreeQ[{a,b,c,d},x] && NegQ[c]
-
-
-Int[(c_.*ProductLog[a_.+b_.*x_])^p_/(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
-  (a+b*x)*(c*ProductLog[a+b*x])^p/(b*d*(p+1)) -
-  1/(c*(p+1))*Int[(c*ProductLog[a+b*x])^(p+1)/(d+d*ProductLog[a+b*x]),x] /;
-FreeQ[{a,b,c,d},x] && RationalQ[p] && p<-1
-
-
-Int[(c_.*ProductLog[a_.+b_.*x_])^p_./(d_+d_.*ProductLog[a_.+b_.*x_]),x_Symbol] :=
-  Gamma[p+1,-ProductLog[a+b*x]]*(c*ProductLog[a+b*x])^p/(b*d*(-ProductLog[a+b*x])^p) /;
-FreeQ[{a,b,c,d,p},x]
-
-
-Int[x_^m_./(d_+d_.*ProductLog[a_+b_.*x_]),x_Symbol] :=
-  1/b*Subst[Int[ExpandIntegrand[1/(d+d*ProductLog[x]),(-a/b+x/b)^m,x],x],x,a+b*x] /;
-FreeQ[{a,b,d},x] && PositiveIntegerQ[m]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_+b_.*x_])^p_./(d_+d_.*ProductLog[a_+b_.*x_]),x_Symbol] :=
-  1/b*Subst[Int[ExpandIntegrand[(c*ProductLog[x])^p/(d+d*ProductLog[x]),(-a/b+x/b)^m,x],x],x,a+b*x] /;
-FreeQ[{a,b,c,d,p},x] && PositiveIntegerQ[m]
-
-
-Int[1/(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
-  -Subst[Int[1/(x^2*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
-FreeQ[{a,d},x] && NegativeIntegerQ[n]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  c*x*(c*ProductLog[a*x^n])^(p-1)/d /;
-FreeQ[{a,c,d,n,p},x] && EqQ[n*(p-1)+1]
-
-
-Int[ProductLog[a_.*x_^n_.]^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  a^p*ExpIntegralEi[-p*ProductLog[a*x^n]]/(d*n) /;
-FreeQ[{a,d},x] && IntegerQ[1/n] && EqQ[p+1/n]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  Rt[Pi*c*n,2]/(d*n*a^(1/n)*c^(1/n))*Erfi[Sqrt[c*ProductLog[a*x^n]]/Rt[c*n,2]] /;
-FreeQ[{a,c,d},x] && IntegerQ[1/n] && EqQ[p-1/2+1/n] && PosQ[c*n]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  Rt[-Pi*c*n,2]/(d*n*a^(1/n)*c^(1/n))*Erf[Sqrt[c*ProductLog[a*x^n]]/Rt[-c*n,2]] /;
-FreeQ[{a,c,d},x] && IntegerQ[1/n] && EqQ[p-1/2+1/n] && NegQ[c*n]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  c*x*(c*ProductLog[a*x^n])^(p-1)/d -
-  c*(n*(p-1)+1)*Int[(c*ProductLog[a*x^n])^(p-1)/(d+d*ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,d},x] && RationalQ[n,p] && n>0 && n*(p-1)+1>0
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  x*(c*ProductLog[a*x^n])^p/(d*(n*p+1)) -
-  1/(c*(n*p+1))*Int[(c*ProductLog[a*x^n])^(p+1)/(d+d*ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,d},x] && RationalQ[n,p] && n>0 && n*p+1<0
-
-
-Int[(c_.*ProductLog[a_.*x_^n_])^p_./(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
-  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/(x^2*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
-FreeQ[{a,c,d,p},x] && NegativeIntegerQ[n]
-
-
-Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
-  x^(m+1)/(d*(m+1)*ProductLog[a*x]) -
-  m/(m+1)*Int[x^m/(ProductLog[a*x]*(d+d*ProductLog[a*x])),x] /;
-FreeQ[{a,d},x] && RationalQ[m] && m>0
-
-
-Int[1/(x_*(d_+d_.*ProductLog[a_.*x_])),x_Symbol] :=
-  Log[ProductLog[a*x]]/d /;
-FreeQ[{a,d},x]
-
-
-Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
-  x^(m+1)/(d*(m+1)) -
-  Int[x^m*ProductLog[a*x]/(d+d*ProductLog[a*x]),x] /;
-FreeQ[{a,d},x] && RationalQ[m] && m<-1
-
-
-Int[x_^m_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
-  x^m*Gamma[m+1,-(m+1)*ProductLog[a*x]]/
-	(a*d*(m+1)*E^(m*ProductLog[a*x])*(-(m+1)*ProductLog[a*x])^m) /;
-FreeQ[{a,d,m},x] && Not[IntegerQ[m]]
-
-
-Int[1/(x_*(d_+d_.*ProductLog[a_.*x_^n_.])),x_Symbol] :=
-  Log[ProductLog[a*x^n]]/(d*n) /;
-FreeQ[{a,d,n},x]
-
-
-Int[x_^m_./(d_+d_.*ProductLog[a_.*x_^n_]),x_Symbol] :=
-  -Subst[Int[1/(x^(m+2)*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
-FreeQ[{a,d},x] && IntegersQ[m,n] && n<0 && NeQ[m+1]
-
-
-Int[(c_.*ProductLog[a_.*x_^n_.])^p_./(x_*(d_+d_.*ProductLog[a_.*x_^n_.])),x_Symbol] :=
-  (c*ProductLog[a*x^n])^p/(d*n*p) /;
-FreeQ[{a,c,d,n,p},x]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  c*x^(m+1)*(c*ProductLog[a*x^n])^(p-1)/(d*(m+1)) /;
-FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && EqQ[m+n*(p-1)+1]
-
-
-Int[x_^m_.*ProductLog[a_.*x_^n_.]^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  a^p*ExpIntegralEi[-p*ProductLog[a*x^n]]/(d*n) /;
-FreeQ[{a,d,m,n},x] && IntegerQ[p] && EqQ[m+n*p+1]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  a^(p-1/2)*c^(p-1/2)*Rt[Pi*c/(p-1/2),2]*Erf[Sqrt[c*ProductLog[a*x^n]]/Rt[c/(p-1/2),2]]/(d*n) /;
-FreeQ[{a,c,d,m,n},x] && NeQ[m+1] && IntegerQ[p-1/2] && EqQ[m+n*(p-1/2)+1] && PosQ[c/(p-1/2)]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_/(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  a^(p-1/2)*c^(p-1/2)*Rt[-Pi*c/(p-1/2),2]*Erfi[Sqrt[c*ProductLog[a*x^n]]/Rt[-c/(p-1/2),2]]/(d*n) /;
-FreeQ[{a,c,d,m,n},x] && NeQ[m+1] && IntegerQ[p-1/2] && EqQ[m+n*(p-1/2)+1] && NegQ[c/(p-1/2)]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  c*x^(m+1)*(c*ProductLog[a*x^n])^(p-1)/(d*(m+1)) -
-  c*(m+n*(p-1)+1)/(m+1)*Int[x^m*(c*ProductLog[a*x^n])^(p-1)/(d+d*ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && RationalQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]>1
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  x^(m+1)*(c*ProductLog[a*x^n])^p/(d*(m+n*p+1)) -
-  (m+1)/(c*(m+n*p+1))*Int[x^m*(c*ProductLog[a*x^n])^(p+1)/(d+d*ProductLog[a*x^n]),x] /;
-FreeQ[{a,c,d,m,n,p},x] && NeQ[m+1] && RationalQ[Simplify[p+(m+1)/n]] && Simplify[p+(m+1)/n]<0
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_])^p_./(d_+d_.*ProductLog[a_.*x_]),x_Symbol] :=
-  x^m*Gamma[m+p+1,-(m+1)*ProductLog[a*x]]*(c*ProductLog[a*x])^p/
-	(a*d*(m+1)*E^(m*ProductLog[a*x])*(-(m+1)*ProductLog[a*x])^(m+p)) /;
-FreeQ[{a,c,d,m,p},x] && NeQ[m+1]
-
-
-Int[x_^m_.*(c_.*ProductLog[a_.*x_^n_.])^p_./(d_+d_.*ProductLog[a_.*x_^n_.]),x_Symbol] :=
-  -Subst[Int[(c*ProductLog[a*x^(-n)])^p/(x^(m+2)*(d+d*ProductLog[a*x^(-n)])),x],x,1/x] /;
-FreeQ[{a,c,d,p},x] && NeQ[m+1] && IntegersQ[m,n] && n<0
-
-
-Int[u_,x_Symbol] :=
-  Subst[Int[SimplifyIntegrand[(x+1)*E^x*SubstFor[ProductLog[x],u,x],x],x],x,ProductLog[x]] /;
-FunctionOfQ[ProductLog[x],u,x]
-
-
-
-`)
+FixIntRule[RuleDelayed[lhs_,G_[list_,u_+v_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,G[list,u+v]],{{2,2,1}->FixRhsIntRule[u,x],{2,2,2}->FixRhsIntRule[v,x]}] /;
+(G===With || G===Module || G===Block)
 
-func resourcesRubi8SpecialFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi8SpecialFunctionsM, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[u_+v_,test_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[u+v,test]],{{2,1,1}->FixRhsIntRule[u,x],{2,1,2}->FixRhsIntRule[v,x]}] /;
+F===Condition
 
-func resourcesRubi8SpecialFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi8SpecialFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
+FixIntRule[RuleDelayed[lhs_,u_+v_],x_] :=
+  ReplacePart[RuleDelayed[lhs,u+v],{{2,1}->FixRhsIntRule[u,x],{2,2}->FixRhsIntRule[v,x]}]
 
-	info := bindataFileInfo{name: "resources/rubi/8 Special functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi91IntegrandSimplificationRulesM = []byte(`(* ::Package:: *)
-
-(************************************************************************)
-(* This file was generated automatically by the Mathematica front end.  *)
-(* It contains Initialization cells from a Notebook file, which         *)
-(* typically will have the same name as this file except ending in      *)
-(* ".nb" instead of ".m".                                               *)
-(*                                                                      *)
-(* This file is intended to be loaded into the Mathematica kernel using *)
-(* the package loading commands Get or Needs.  Doing so is equivalent   *)
-(* to using the Evaluate Initialization Cells menu command in the front *)
-(* end.                                                                 *)
-(*                                                                      *)
-(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
-(* automatically each time the parent Notebook file is saved in the     *)
-(* Mathematica front end.  Any changes you make to this file will be    *)
-(* overwritten.                                                         *)
-(************************************************************************)
-
-
-
-(* ::Code:: *)
-(* Int[u_.*(v_+w_)^p_.,x_Symbol] :=
-  Int[u*w^p,x] /;
-FreeQ[p,x] && EqQ[v] *)
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[u*(b*x^n)^p,x] /;
-FreeQ[{a,b,n,p},x] && EqQ[a]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^n_.)^p_.,x_Symbol] :=
-  Int[u*a^p,x] /;
-FreeQ[{a,b,n,p},x] && EqQ[b]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  Int[u*(b*x^n+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[a]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  Int[u*(a+c*x^(2*n))^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[b]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^n_.+c_.*x_^j_.)^p_.,x_Symbol] :=
-  Int[u*(a+b*x^n)^p,x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[j-2*n] && EqQ[c]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_+b_.*v_+w_.)^p_.,x_Symbol] :=
-  Int[u*((a+b)*v+w)^p,x] /;
-FreeQ[{a,b},x] && Not[FreeQ[v,x]]
-
-
-(* ::Code:: *)
-Int[u_.*Pm_^p_,x_Symbol] :=
-  Int[u*Pm^Simplify[p],x] /;
-PolyQ[Pm,x] && Not[RationalQ[p]] && FreeQ[p,x] && RationalQ[Simplify[p]]
-
-
-(* ::Code:: *)
-Int[a_,x_Symbol] :=
-   a*x /;
-FreeQ[a,x]
-
-
-(* ::Code:: *)
-Int[a_*(b_+c_.*x_),x_Symbol] :=
-  a*(b+c*x)^2/(2*c) /;
-FreeQ[{a,b,c},x]
-
-
-(* ::Code:: *)
-Int[-u_,x_Symbol] :=
-  Identity[-1]*Int[u,x]
-
-
-(* ::Code:: *)
-Int[Complex[0,a_]*u_,x_Symbol] :=
-  Complex[Identity[0],a]*Int[u,x] /;
-FreeQ[a,x] && EqQ[a^2,1]
-
-
-(* ::Code:: *)
-Int[a_*u_,x_Symbol] :=
-  a*Int[u,x] /;
-FreeQ[a,x] && Not[MatchQ[u, b_*v_ /; FreeQ[b,x]]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  ShowStep["","Int[a*u + b*v + \[CenterEllipsis],x]","a*Integrate[u,x] + b*Integrate[v,x] + \[CenterEllipsis]",Hold[
-  IntSum[u,x]]] /;
-SimplifyFlag && SumQ[u],
-
-Int[u_,x_Symbol] :=
-  IntSum[u,x] /;
-SumQ[u]]
-
-
-(* ::Code:: *)
-Int[(c_.*x_)^m_.*u_,x_Symbol] :=
-  Int[ExpandIntegrand[(c*x)^m*u,x],x] /;
-FreeQ[{c,m},x] && SumQ[u] && Not[LinearQ[u,x]] && Not[MatchQ[u,a_+b_.*v_ /; FreeQ[{a,b},x] && InverseFunctionQ[v]]]
-
-
-(* ::Code:: *)
-Int[u_.*v_^m_.*(b_*v_)^n_,x_Symbol] :=
-  1/b^m*Int[u*(b*v)^(m+n),x] /;
-FreeQ[{b,n},x] && IntegerQ[m]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  a^(m+1/2)*b^(n-1/2)*Sqrt[b*v]/Sqrt[a*v]*Int[u*v^(m+n),x] /;
-FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && PositiveIntegerQ[n+1/2] && IntegerQ[m+n]
-
-
-(* ::Code:: *)
-(* Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  b^(n-1/2)*Sqrt[b*v]/(a^(n-1/2)*Sqrt[a*v])*Int[u*(a*v)^(m+n),x] /;
-FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && PositiveIntegerQ[n+1/2] && Not[IntegerQ[m+n]] *)
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  a^(m-1/2)*b^(n+1/2)*Sqrt[a*v]/Sqrt[b*v]*Int[u*v^(m+n),x] /;
-FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && NegativeIntegerQ[n-1/2] && IntegerQ[m+n]
-
-
-(* ::Code:: *)
-(* Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  b^(n+1/2)*Sqrt[a*v]/(a^(n+1/2)*Sqrt[b*v])*Int[u*(a*v)^(m+n),x] /;
-FreeQ[{a,b,m},x] && Not[IntegerQ[m]] && NegativeIntegerQ[n-1/2] && Not[IntegerQ[m+n]] *)
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  a^(m+n)*(b*v)^n/(a*v)^n*Int[u*v^(m+n),x] /;
-FreeQ[{a,b,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && IntegerQ[m+n]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_)^m_*(b_.*v_)^n_,x_Symbol] :=
-  b^IntPart[n]*(b*v)^FracPart[n]/(a^IntPart[n]*(a*v)^FracPart[n])*Int[u*(a*v)^(m+n),x] /;
-FreeQ[{a,b,m,n},x] && Not[IntegerQ[m]] && Not[IntegerQ[n]] && Not[IntegerQ[m+n]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*v_)^m_.*(c_+d_.*v_)^n_.,x_Symbol] :=
-  (b/d)^m*Int[u*(c+d*v)^(m+n),x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[b*c-a*d] && IntegerQ[m] && (Not[IntegerQ[n]] || SimplerQ[c+d*x,a+b*x])
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^n_,x_Symbol] :=
-  (b/d)^m*Int[u*(c+d*v)^(m+n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[b*c-a*d] && PositiveQ[b/d] && Not[IntegerQ[m] || IntegerQ[n]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^n_,x_Symbol] :=
-  (a+b*v)^m/(c+d*v)^m*Int[u*(c+d*v)^(m+n),x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[b*c-a*d] && Not[IntegerQ[m] || IntegerQ[n] || PositiveQ[b/d]]
-
-
-(* ::Code:: *)
-(* Int[u_.*(a_+b_.*v_)^m_.*(c_+d_.*v_)^m_.,x_Symbol] :=
-  Int[u*(a*c+b*d*v^2)^m,x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d] && (IntegerQ[m] || PositiveQ[a] && PositiveQ[c]) && 
-  (Not[AlgebraicFunctionQ[u,x]] || Not[MatchQ[v,e_.*x^n_. /; FreeQ[{e,n},x]]]) *)
-
-
-(* ::Code:: *)
-(* Int[u_.*(a_+b_.*v_)^m_*(c_+d_.*v_)^m_,x_Symbol] :=
-  (a+b*v)^FracPart[m]*(c+d*v)^FracPart[m]/(a*c+b*d*v^2)^FracPart[m]*Int[u*(a*c+b*d*v^2)^m,x] /;
-FreeQ[{a,b,c,d,m},x] && EqQ[b*c+a*d] && Not[IntegerQ[m]] && 
-  (Not[AlgebraicFunctionQ[u,x]] || Not[MatchQ[v,e_.*x^n_. /; FreeQ[{e,n},x]]]) *)
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_)^m_*(b_.*v_+c_.*v_^2),x_Symbol] :=
-  1/a*Int[u*(a*v)^(m+1)*(b+c*v),x] /;
-FreeQ[{a,b,c},x] && RationalQ[m] && m<=-1
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*v_)^m_*(A_.+B_.*v_+C_.*v_^2),x_Symbol] :=
-  1/b^2*Int[u*(a+b*v)^(m+1)*Simp[b*B-a*C+b*C*v,x],x] /;
-FreeQ[{a,b,A,B,C},x] && EqQ[A*b^2-a*b*B+a^2*C] && RationalQ[m] && m<=-1
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_^n_.)^m_.*(c_+d_.*x_^q_.)^p_.,x_Symbol] :=
-  (d/a)^p*Int[u*(a+b*x^n)^(m+p)/x^(n*p),x] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[n+q] && IntegerQ[p] && EqQ[a*c-b*d] && Not[IntegerQ[m] && NegQ[n]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_^n_.)^m_.*(c_+d_.*x_^j_)^p_.,x_Symbol] :=
-  (-b^2/d)^m*Int[u*(a-b*x^n)^(-m),x] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[j-2*n] && EqQ[m+p] && EqQ[b^2*c+a^2*d] && PositiveQ[a] && NegativeQ[d]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_+c_.*x_^2)^p_.,x_Symbol] :=
-  Int[u*Cancel[(b/2+c*x)^(2*p)/c^p],x] /;
-FreeQ[{a,b,c},x] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*x_^n_+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/c^p*Int[u*(b/2+c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p]
-
-
-(* ::Code:: *)
-Int[Qr_/Pq_,x_Symbol] :=
-  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
-  Coeff[Qr,x,r]*Log[RemoveContent[Pq,x]]/(q*Coeff[Pq,x,q]) /;
- EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
-PolyQ[Pq,x] && PolyQ[Qr,x]
-
-
-(* ::Code:: *)
-Int[Qr_*Pq_^p_.,x_Symbol] :=
-  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
-  Coeff[Qr,x,r]*Pq^(p+1)/(q*(p+1)*Coeff[Pq,x,q]) /;
- EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
-FreeQ[p,x] && PolyQ[Pq,x] && PolyQ[Qr,x] && NeQ[p,-1]
-
-
-(* ::Code:: *)
-Int[x_^m_.*(a1_+b1_.*x_^n_.)^p_*(a2_+b2_.*x_^n_.)^p_,x_Symbol] :=
-  (a1+b1*x^n)^(p+1)*(a2+b2*x^n)^(p+1)/(2*b1*b2*n*(p+1)) /;
-FreeQ[{a1,b1,a2,b2,m,n,p},x] && EqQ[a2*b1+a1*b2,0] && EqQ[m-2*n+1,0] && NeQ[p,-1]
-
-
-(* ::Code:: *)
-Int[Qr_*(a_.+b_.*Pq_^n_.)^p_.,x_Symbol] :=
-  With[{q=Expon[Pq,x],r=Expon[Qr,x]},
-  Coeff[Qr,x,r]/(q*Coeff[Pq,x,q])*Subst[Int[(a+b*x^n)^p,x],x,Pq] /;
- EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
-FreeQ[{a,b,n,p},x] && PolyQ[Pq,x] && PolyQ[Qr,x]
-
-
-(* ::Code:: *)
-Int[Qr_*(a_.+b_.*Pq_^n_.+c_.*Pq_^n2_.)^p_.,x_Symbol] :=
-  Module[{q=Expon[Pq,x],r=Expon[Qr,x]},
-  Coeff[Qr,x,r]/(q*Coeff[Pq,x,q])*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,Pq] /;
- EqQ[r,q-1] && EqQ[Coeff[Qr,x,r]*D[Pq,x],q*Coeff[Pq,x,q]*Qr]] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2,2*n] && PolyQ[Pq,x] && PolyQ[Qr,x]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*x_^p_.+b_.*x_^q_.)^m_.,x_Symbol] :=
-  Int[u*x^(m*p)*(a+b*x^(q-p))^m,x] /;
-FreeQ[{a,b,p,q},x] && IntegerQ[m] && PosQ[q-p]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*x_^p_.+b_.*x_^q_.+c_.*x_^r_.)^m_.,x_Symbol] :=
-  Int[u*x^(m*p)*(a+b*x^(q-p)+c*x^(r-p))^m,x] /;
-FreeQ[{a,b,c,p,q,r},x] && IntegerQ[m] && PosQ[q-p] && PosQ[r-p]
-
-
-(* ::Code:: *)
-Int[u_.*Pq_^m_*Qr_^p_,x_Symbol] :=
-  Module[{gcd=PolyGCD[Pq,Qr,x]},
-  Int[u*gcd^(m+p)*PolynomialQuotient[Pq,gcd,x]^m*PolynomialQuotient[Qr,gcd,x]^p,x] /;
- NeQ[gcd-1]] /;
-PositiveIntegerQ[m] && NegativeIntegerQ[p] && PolyQ[Pq,x] && PolyQ[Qr,x]
-
-
-(* ::Code:: *)
-Int[u_.*Pq_*Qr_^p_,x_Symbol] :=
-  Module[{gcd=PolyGCD[Pq,Qr,x]},
-  Int[u*gcd^(p+1)*PolynomialQuotient[Pq,gcd,x]*PolynomialQuotient[Qr,gcd,x]^p,x] /;
- NeQ[gcd-1]] /;
-NegativeIntegerQ[p] && PolyQ[Pq,x] && PolyQ[Qr,x]
-
-
-
-`)
+FixIntRule[RuleDelayed[lhs_,F_[G_[list1_,F_[H_[list2_,u_],test2_]],test1_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list1,F[H[list2,u],test2]],test1]],{2,1,2,1,2}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block) && (H===With || H===Module || H===Block)
 
-func resourcesRubi91IntegrandSimplificationRulesMBytes() ([]byte, error) {
-	return _resourcesRubi91IntegrandSimplificationRulesM, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list1_,H_[list2_,u_]],test1_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list1,H[list2,u]],test1]],{2,1,2,2}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block) && (H===With || H===Module || H===Block)
 
-func resourcesRubi91IntegrandSimplificationRulesM() (*asset, error) {
-	bytes, err := resourcesRubi91IntegrandSimplificationRulesMBytes()
-	if err != nil {
-		return nil, err
-	}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[H_[str1_,str2_,str3_,J_[u_]],test2_]],test1_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list,F[H[str1,str2,str3,J[u]],test2]],test1]],{2,1,2,1,4,1}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block) && H===ShowStep && J===Hold
 
-	info := bindataFileInfo{name: "resources/rubi/9.1 Integrand simplification rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[u_,test2_]],test1_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list,F[u,test2]],test1]],{2,1,2,1}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-var _resourcesRubi92DerivativeIntegrationRulesM = []byte(`(* ::Package:: *)
-
-(************************************************************************)
-(* This file was generated automatically by the Mathematica front end.  *)
-(* It contains Initialization cells from a Notebook file, which         *)
-(* typically will have the same name as this file except ending in      *)
-(* ".nb" instead of ".m".                                               *)
-(*                                                                      *)
-(* This file is intended to be loaded into the Mathematica kernel using *)
-(* the package loading commands Get or Needs.  Doing so is equivalent   *)
-(* to using the Evaluate Initialization Cells menu command in the front *)
-(* end.                                                                 *)
-(*                                                                      *)
-(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
-(* automatically each time the parent Notebook file is saved in the     *)
-(* Mathematica front end.  Any changes you make to this file will be    *)
-(* overwritten.                                                         *)
-(************************************************************************)
-
-
-
-(* ::Code:: *)
-Int[Derivative[n_][f_][x_],x_Symbol] :=
-  Derivative[n-1][f][x] /;
-FreeQ[{f,n},x]
-
-
-(* ::Code:: *)
-Int[(c_.*F_^(a_.+b_.*x_))^p_.*Derivative[n_][f_][x_],x_Symbol] :=
-  (c*F^(a+b*x))^p*Derivative[n-1][f][x] - b*p*Log[F]*Int[(c*F^(a+b*x))^p*Derivative[n-1][f][x],x] /;
-FreeQ[{a,b,c,f,F,p},x] && PositiveIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[(c_.*F_^(a_.+b_.*x_))^p_.*Derivative[n_][f_][x_],x_Symbol] :=
-  (c*F^(a+b*x))^p*Derivative[n][f][x]/(b*p*Log[F]) - 1/(b*p*Log[F])*Int[(c*F^(a+b*x))^p*Derivative[n+1][f][x],x] /;
-FreeQ[{a,b,c,f,F,p},x] && NegativeIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[Sin[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
-  Sin[a+b*x]*Derivative[n-1][f][x] - b*Int[Cos[a+b*x]*Derivative[n-1][f][x],x] /;
-FreeQ[{a,b,f},x] && PositiveIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[Cos[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
-  Cos[a+b*x]*Derivative[n-1][f][x] + b*Int[Sin[a+b*x]*Derivative[n-1][f][x],x] /;
-FreeQ[{a,b,f},x] && PositiveIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[Sin[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
-  -Cos[a+b*x]*Derivative[n][f][x]/b + 1/b*Int[Cos[a+b*x]*Derivative[n+1][f][x],x] /;
-FreeQ[{a,b,f},x] && NegativeIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[Cos[a_.+b_.*x_]*Derivative[n_][f_][x_],x_Symbol] :=
-  Sin[a+b*x]*Derivative[n][f][x]/b - 1/b*Int[Sin[a+b*x]*Derivative[n+1][f][x],x] /;
-FreeQ[{a,b,f},x] && NegativeIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[u_*Derivative[n_][f_][x_],x_Symbol] :=
-  Subst[Int[SimplifyIntegrand[SubstFor[Derivative[n-1][f][x],u,x],x],x],x,Derivative[n-1][f][x]] /;
-FreeQ[{f,n},x] && FunctionOfQ[Derivative[n-1][f][x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*Derivative[1][f_][x_]*g_[x_]+a_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  a*Subst[Int[SimplifyIntegrand[SubstFor[f[x]*g[x],u,x],x],x],x,f[x]*g[x]] /;
-FreeQ[{a,f,g},x] && FunctionOfQ[f[x]*g[x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*Derivative[m_][f_][x_]*g_[x_]+a_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*g[x],u,x],x],x],x,Derivative[m-1][f][x]*g[x]] /;
-FreeQ[{a,f,g,m},x] && EqQ[m1-m+1] && FunctionOfQ[Derivative[m-1][f][x]*g[x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+a_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
-  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*Derivative[n-1][g][x],u,x],x],x],x,Derivative[m-1][f][x]*Derivative[n-1][g][x]] /;
-FreeQ[{a,f,g,m,n},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && FunctionOfQ[Derivative[m-1][f][x]*Derivative[n-1][g][x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*f_[x_]^p_.*(a_.*Derivative[1][f_][x_]*g_[x_]+b_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  b*Subst[Int[SimplifyIntegrand[SubstFor[f[x]^(p+1)*g[x],u,x],x],x],x,f[x]^(p+1)*g[x]] /;
-FreeQ[{a,b,f,g,p},x] && EqQ[a-b*(p+1)] && FunctionOfQ[f[x]^(p+1)*g[x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*Derivative[m1_][f_][x_]^p_.*
-    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  b*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*g[x],u,x],x],x],x,
-    Derivative[m-1][f][x]^(p+1)*g[x]] /;
-FreeQ[{a,b,f,g,m,p},x] && EqQ[m1-m+1] && EqQ[a-b*(p+1)] && FunctionOfQ[Derivative[m-1][f][x]^(p+1)*g[x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*g_[x_]^q_.*
-    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  a*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]*g[x]^(q+1),u,x],x],x],x,
-    Derivative[m-1][f][x]*g[x]^(q+1)] /;
-FreeQ[{a,b,f,g,m,q},x] && EqQ[m1-m+1] && EqQ[a*(q+1)-b] && FunctionOfQ[Derivative[m-1][f][x]*g[x]^(q+1),u,x]
-
-
-(* ::Code:: *)
-Int[u_*Derivative[m1_][f_][x_]^p_.*
-    (a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+b_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
-  b*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x],u,x],x],x],x,
-    Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]] /;
-FreeQ[{a,b,f,g,m,n,p},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && EqQ[a-b*(p+1)] && 
-  FunctionOfQ[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x],u,x]
-
-
-(* ::Code:: *)
-Int[u_*f_[x_]^p_.*g_[x_]^q_.*(a_.*Derivative[1][f_][x_]*g_[x_]+b_.*f_[x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[f[x]^(p+1)*g[x]^(q+1),u,x],x],x],x,f[x]^(p+1)*g[x]^(q+1)] /;
-FreeQ[{a,b,f,g,p,q},x] && EqQ[a*(q+1)-b*(p+1)] && FunctionOfQ[f[x]^(p+1)*g[x]^(q+1),u,x]
-
-
-(* ::Code:: *)
-Int[u_*Derivative[m1_][f_][x_]^p_.*g_[x_]^q_.*
-    (a_.*Derivative[m_][f_][x_]*g_[x_]+b_.*Derivative[m1_][f_][x_]*Derivative[1][g_][x_]),x_Symbol] :=
-  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*g[x]^(q+1),u,x],x],x],x,
-    Derivative[m-1][f][x]^(p+1)*g[x]^(q+1)] /;
-FreeQ[{a,b,f,g,m,p,q},x] && EqQ[m1-m+1] && EqQ[a*(q+1)-b*(p+1)] && FunctionOfQ[Derivative[m-1][f][x]^(p+1)*g[x]^(q+1),u,x]
-
-
-(* ::Code:: *)
-Int[u_*Derivative[m1_][f_][x_]^p_.*Derivative[n1_][g_][x_]^q_.*
-    (a_.*Derivative[m_][f_][x_]*Derivative[n1_][g_][x_]+b_.*Derivative[m1_][f_][x_]*Derivative[n_][g_][x_]),x_Symbol] :=
-  a/(p+1)*Subst[Int[SimplifyIntegrand[SubstFor[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1),u,x],x],x],x,
-    Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1)] /;
-FreeQ[{a,b,f,g,m,n,p,q},x] && EqQ[m1-m+1] && EqQ[n1-n+1] && EqQ[a*(q+1)-b*(p+1)] && 
-  FunctionOfQ[Derivative[m-1][f][x]^(p+1)*Derivative[n-1][g][x]^(q+1),u,x]
-
-
-(* ::Code:: *)
-Int[f_'[x_]*g_[x_] + f_[x_]*g_'[x_],x_Symbol] :=
-  f[x]*g[x] /;
-FreeQ[{f,g},x]
-
-
-(* ::Code:: *)
-Int[(f_'[x_]*g_[x_] - f_[x_]*g_'[x_])/g_[x_]^2,x_Symbol] :=
-  f[x]/g[x] /;
-FreeQ[{f,g},x]
-
-
-(* ::Code:: *)
-Int[(f_'[x_]*g_[x_] - f_[x_]*g_'[x_])/(f_[x_]*g_[x_]),x_Symbol] :=
-  Log[f[x]/g[x]] /;
-FreeQ[{f,g},x]
-
-
-
-`)
+FixIntRule[RuleDelayed[lhs_,G_[list_,F_[u_,test2_]]],x_] :=
+  ReplacePart[RuleDelayed[lhs,G[list,F[u,test2]]],{2,2,1}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-func resourcesRubi92DerivativeIntegrationRulesMBytes() ([]byte, error) {
-	return _resourcesRubi92DerivativeIntegrationRulesM, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[G_[list_,u_],test_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[G[list,u],test]],{2,1,2}->FixRhsIntRule[u,x]] /;
+F===Condition && (G===With || G===Module || G===Block)
 
-func resourcesRubi92DerivativeIntegrationRulesM() (*asset, error) {
-	bytes, err := resourcesRubi92DerivativeIntegrationRulesMBytes()
-	if err != nil {
-		return nil, err
-	}
+FixIntRule[RuleDelayed[lhs_,G_[list_,u_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,G[list,u]],{2,2}->FixRhsIntRule[u,x]] /;
+(G===With || G===Module || G===Block)
 
-	info := bindataFileInfo{name: "resources/rubi/9.2 Derivative integration rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+FixIntRule[RuleDelayed[lhs_,F_[u_,test_]],x_] :=
+  ReplacePart[RuleDelayed[lhs,F[u,test]],{2,1}->FixRhsIntRule[u,x]] /;
+F===Condition
 
-var _resourcesRubi93PiecewiseLinearFunctionsM = []byte(`(* ::Package:: *)
-
-(************************************************************************)
-(* This file was generated automatically by the Mathematica front end.  *)
-(* It contains Initialization cells from a Notebook file, which         *)
-(* typically will have the same name as this file except ending in      *)
-(* ".nb" instead of ".m".                                               *)
-(*                                                                      *)
-(* This file is intended to be loaded into the Mathematica kernel using *)
-(* the package loading commands Get or Needs.  Doing so is equivalent   *)
-(* to using the Evaluate Initialization Cells menu command in the front *)
-(* end.                                                                 *)
-(*                                                                      *)
-(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
-(* automatically each time the parent Notebook file is saved in the     *)
-(* Mathematica front end.  Any changes you make to this file will be    *)
-(* overwritten.                                                         *)
-(************************************************************************)
-
-
-
-(* ::Code:: *)
-Int[u_^m_.,x_Symbol] :=
-  Module[{c=Simplify[D[u,x]]},
-  1/c*Subst[Int[x^m,x],x,u]] /;
-FreeQ[m,x] && PiecewiseLinearQ[u,x]
-
-
-(* ::Code:: *)
-Int[v_/u_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  b*x/a - (b*u-a*v)/a*Int[1/u,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[v_^n_/u_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  v^n/(a*n) - (b*u-a*v)/a*Int[v^(n-1)/u,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && RationalQ[n] && n>0 && n!=1
-
-
-(* ::Code:: *)
-Int[1/(u_*v_),x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  b/(b*u-a*v)*Int[1/v,x] - a/(b*u-a*v)*Int[1/u,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[1/(u_*Sqrt[v_]),x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  2*ArcTan[Sqrt[v]/Rt[(b*u-a*v)/a,2]]/(a*Rt[(b*u-a*v)/a,2]) /;
- NeQ[b*u-a*v] && PosQ[(b*u-a*v)/a]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[1/(u_*Sqrt[v_]),x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  -2*ArcTanh[Sqrt[v]/Rt[-(b*u-a*v)/a,2]]/(a*Rt[-(b*u-a*v)/a,2]) /;
- NeQ[b*u-a*v] && NegQ[(b*u-a*v)/a]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[v_^n_/u_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  v^(n+1)/((n+1)*(b*u-a*v)) - 
-  a*(n+1)/((n+1)*(b*u-a*v))*Int[v^(n+1)/u,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && RationalQ[n] && n<-1
-
-
-(* ::Code:: *)
-Int[v_^n_/u_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  v^(n+1)/((n+1)*(b*u-a*v))*Hypergeometric2F1[1,n+1,n+2,-a*v/(b*u-a*v)] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && Not[IntegerQ[n]]
-
-
-(* ::Code:: *)
-Int[1/(Sqrt[u_]*Sqrt[v_]),x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  2/Rt[a*b,2]*ArcTanh[Rt[a*b,2]*Sqrt[u]/(a*Sqrt[v])] /;
- NeQ[b*u-a*v] && PosQ[a*b]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[1/(Sqrt[u_]*Sqrt[v_]),x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  2/Rt[-a*b,2]*ArcTan[Rt[-a*b,2]*Sqrt[u]/(a*Sqrt[v])] /;
- NeQ[b*u-a*v] && NegQ[a*b]] /;
-PiecewiseLinearQ[u,v,x]
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) /;
- NeQ[b*u-a*v]] /;
-FreeQ[{m,n},x] && PiecewiseLinearQ[u,v,x] && EqQ[m+n+2] && NeQ[m+1]
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_.,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  u^(m+1)*v^n/(a*(m+1)) - 
-  b*n/(a*(m+1))*Int[u^(m+1)*v^(n-1),x] /;
- NeQ[b*u-a*v]] /;
-FreeQ[{m,n},x] && PiecewiseLinearQ[u,v,x] (* && NeQ[m+n+2] *) && NeQ[m+1] && (
-  RationalQ[m,n] && m<-1 && n>0 && Not[IntegerQ[m+n] && m+n+2<0 && (FractionQ[m] || 2*n+m+1>=0)] || 
-  PositiveIntegerQ[n,m] && n<=m ||
-(*NegativeIntegerQ[n,m] && n<=m || *)
-  PositiveIntegerQ[n] && Not[IntegerQ[m]] ||
-  NegativeIntegerQ[m] && Not[IntegerQ[n]])
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_.,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  u^(m+1)*v^n/(a*(m+n+1)) - 
-  n*(b*u-a*v)/(a*(m+n+1))*Int[u^m*v^(n-1),x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && NeQ[m+n+2] && RationalQ[n] && n>0 && NeQ[m+n+1] && 
-  Not[PositiveIntegerQ[m] && (Not[IntegerQ[n]] || 0<m<n)] && 
-  Not[IntegerQ[m+n] && m+n+2<0]
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  u^(m+1)*v^n/(a*(m+n+1)) - 
-  n*(b*u-a*v)/(a*(m+n+1))*Int[u^m*v^Simplify[n-1],x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && NeQ[m+n+1] && Not[RationalQ[n]] && SumSimplerQ[n,-1]
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) + 
-  b*(m+n+2)/((m+1)*(b*u-a*v))*Int[u^(m+1)*v^n,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && NeQ[m+n+2] && RationalQ[m] && m<-1
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  -u^(m+1)*v^(n+1)/((m+1)*(b*u-a*v)) + 
-  b*(m+n+2)/((m+1)*(b*u-a*v))*Int[u^Simplify[m+1]*v^n,x] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && Not[RationalQ[m]] && SumSimplerQ[m,1]
-
-
-(* ::Code:: *)
-Int[u_^m_*v_^n_,x_Symbol] :=
-  Module[{a=Simplify[D[u,x]],b=Simplify[D[v,x]]},
-  u^m*v^(n+1)/(b*(n+1)*(b*u/(b*u-a*v))^m)*Hypergeometric2F1[-m,n+1,n+2,-a*v/(b*u-a*v)] /;
- NeQ[b*u-a*v]] /;
-PiecewiseLinearQ[u,v,x] && Not[IntegerQ[m]] && Not[IntegerQ[n]]
-
-
-(* ::Code:: *)
-Int[u_^n_.*Log[a_.+b_.*x_],x_Symbol] :=
-  Module[{c=Simplify[D[u,x]]},
-  u^n*(a+b*x)*Log[a+b*x]/b - 
-  Int[u^n,x] - 
-  c*n/b*Int[u^(n-1)*(a+b*x)*Log[a+b*x],x]] /;
-FreeQ[{a,b},x] && PiecewiseLinearQ[u,x] && Not[LinearQ[u,x]] && RationalQ[n] && n>0
-
-
-(* ::Code:: *)
-(* Int[u_^n_.*Log[a_.+b_.*x_]/(a_.+b_.*x_),x_Symbol] :=
-  Module[{c=Simplify[D[u,x]]},
-  u^n*Log[a+b*x]^2/(2*b) - 
-  c*n/(2*b)*Int[u^(n-1)*Log[a+b*x]^2,x]] /;
-FreeQ[{a,b},x] && PiecewiseLinearQ[u,x] && RationalQ[n] && n>0 *)
-
-
-(* ::Code:: *)
-Int[u_^n_.*(a_.+b_.*x_)^m_.*Log[a_.+b_.*x_],x_Symbol] :=
-  Module[{c=Simplify[D[u,x]]},
-  u^n*(a+b*x)^(m+1)*Log[a+b*x]/(b*(m+1)) - 
-  1/(m+1)*Int[u^n*(a+b*x)^m,x] - 
-  c*n/(b*(m+1))*Int[u^(n-1)*(a+b*x)^(m+1)*Log[a+b*x],x]] /;
-FreeQ[{a,b,m},x] && PiecewiseLinearQ[u,x] && Not[LinearQ[u,x]] && RationalQ[n] && n>0 && NeQ[m+1]
-
-
-
-`)
+FixIntRule[RuleDelayed[lhs_,u_],x_] :=
+  ReplacePart[RuleDelayed[lhs,u],{2}->FixRhsIntRule[u,x]]
 
-func resourcesRubi93PiecewiseLinearFunctionsMBytes() ([]byte, error) {
-	return _resourcesRubi93PiecewiseLinearFunctionsM, nil
-}
 
-func resourcesRubi93PiecewiseLinearFunctionsM() (*asset, error) {
-	bytes, err := resourcesRubi93PiecewiseLinearFunctionsMBytes()
-	if err != nil {
-		return nil, err
-	}
+(* ::Subsection::Closed:: *)
+(*FixRhsIntRule[rhs,x]*)
 
-	info := bindataFileInfo{name: "resources/rubi/9.3 Piecewise linear functions.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
 
-var _resourcesRubi94MiscellaneousIntegrationRulesM = []byte(`(* ::Package:: *)
-
-(************************************************************************)
-(* This file was generated automatically by the Mathematica front end.  *)
-(* It contains Initialization cells from a Notebook file, which         *)
-(* typically will have the same name as this file except ending in      *)
-(* ".nb" instead of ".m".                                               *)
-(*                                                                      *)
-(* This file is intended to be loaded into the Mathematica kernel using *)
-(* the package loading commands Get or Needs.  Doing so is equivalent   *)
-(* to using the Evaluate Initialization Cells menu command in the front *)
-(* end.                                                                 *)
-(*                                                                      *)
-(* DO NOT EDIT THIS FILE.  This entire file is regenerated              *)
-(* automatically each time the parent Notebook file is saved in the     *)
-(* Mathematica front end.  Any changes you make to this file will be    *)
-(* overwritten.                                                         *)
-(************************************************************************)
-
-
-
-(* ::Code:: *)
-(* Int[u_.*(c_.*x_^n_)^p_,x_Symbol] :=
-  c^FracPart[p]*(c*x^n)^FracPart[p]/x^(n*FracPart[p])*Int[u*x^(n*p),x] /;
-FreeQ[{c,n,p},x] && Not[IntegerQ[p]] *)
-
-
-(* ::Code:: *)
-Int[u_*(c_.*(a_.+b_.* x_)^n_)^p_,x_Symbol] :=
-  c^IntPart[p]*(c*(a+b*x)^n)^FracPart[p]/(a+b*x)^(n*FracPart[p])*Int[u*(a+b*x)^(n*p),x] /;
-FreeQ[{a,b,c,n,p},x] && Not[IntegerQ[p]] && Not[MatchQ[u, x^n1_.*v_. /; EqQ[Simplify[n-n1-1]]]]
-
-
-(* ::Code:: *)
-Int[u_.*(c_.*(d_*(a_.+b_.* x_))^p_)^q_,x_Symbol] :=
-  (c*(d*(a+b*x))^p)^q/(a+b*x)^(p*q)*Int[u*(a+b*x)^(p*q),x] /;
-FreeQ[{a,b,c,d,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[q]]
-
-
-(* ::Code:: *)
-Int[u_.*(c_.*(d_.*(a_.+b_.* x_)^n_)^p_)^q_,x_Symbol] :=
-  (c*(d*(a+b*x)^n)^p)^q/(a+b*x)^(n*p*q)*Int[u*(a+b*x)^(n*p*q),x] /;
-FreeQ[{a,b,c,d,n,p,q},x] && Not[IntegerQ[p]] && Not[IntegerQ[q]]
-
-
-(* ::Code:: *)
-Int[(a_.+b_.*F_[c_.*Sqrt[d_.+e_.*x_]/Sqrt[f_.+g_.*x_]])^n_./(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  g/C*Subst[Int[(a+b*F[c*x])^n/x,x],x,Sqrt[d+e*x]/Sqrt[f+g*x]] /;
-FreeQ[{a,b,c,d,e,f,g,A,B,C,F},x] && EqQ[e+g] && EqQ[d+f-2] && EqQ[A*e^2+C*d*f] && EqQ[2*C*(d-1)-B*e]
-
-
-(* ::Code:: *)
-Int[(a_.+b_.*F_[c_.*Sqrt[1+e_.*x_]/Sqrt[1+g_.*x_]])^n_./(A_.+C_.*x_^2),x_Symbol] :=
-  g/C*Subst[Int[(a+b*F[c*x])^n/x,x],x,Sqrt[1+e*x]/Sqrt[1+g*x]] /;
-FreeQ[{a,b,c,e,g,A,C,F},x] && EqQ[e+g] && EqQ[A*e^2+C]
-
-
-(* ::Code:: *)
-Int[(a_.+b_.*F_^(c_.*Sqrt[d_.+e_.*x_]/Sqrt[f_.+g_.*x_]))^n_./(A_.+B_.*x_+C_.*x_^2),x_Symbol] :=
-  g/C*Subst[Int[(a+b*F^(c*x))^n/x,x],x,Sqrt[d+e*x]/Sqrt[f+g*x]] /;
-FreeQ[{a,b,c,d,e,f,g,A,B,C,F},x] && EqQ[e+g] && EqQ[d+f-2] && EqQ[A*e^2+C*d*f] && EqQ[2*C*(d-1)-B*e]
-
-
-(* ::Code:: *)
-Int[(a_.+b_.*F_^(c_.*Sqrt[1+e_.*x_]/Sqrt[1+g_.*x_]))^n_./(A_.+C_.*x_^2),x_Symbol] :=
-  g/C*Subst[Int[(a+b*F^(c*x))^n/x,x],x,Sqrt[1+e*x]/Sqrt[1+g*x]] /;
-FreeQ[{a,b,c,e,g,A,C,F},x] && EqQ[e+g] && EqQ[A*e^2+C]
-
-
-(* ::Code:: *)
-Int[u_/y_,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-    q*Log[RemoveContent[y,x]] /;
- Not[FalseQ[q]]]
-
-
-(* ::Code:: *)
-Int[u_/(y_*w_),x_Symbol] :=
-  With[{q=DerivativeDivides[y*w,u,x]},
-    q*Log[RemoveContent[y*w,x]] /;
- Not[FalseQ[q]]]
-
-
-(* ::Code:: *)
-Int[u_*y_^m_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-   q*y^(m+1)/(m+1) /;
- Not[FalseQ[q]]] /;
-FreeQ[m,x] && NeQ[m+1]
-
-
-(* ::Code:: *)
-Int[u_*y_^m_.*z_^n_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y*z,u*z^(n-m),x]},
-   q*y^(m+1)*z^(m+1)/(m+1) /;
- Not[FalseQ[q]]] /;
-FreeQ[{m,n},x] && NeQ[m+1]
-
-
-(* ::Code:: *)
-Int[u_,x_Symbol] :=
-  With[{v=SimplifyIntegrand[u,x]},
-  Int[v,x] /;
- SimplerIntegrandQ[v,u,x]]
-
-
-(* ::Code:: *)
-Int[u_.*(e_.*Sqrt[a_.+b_.*x_^n_.]+f_.*Sqrt[c_.+d_.*x_^n_.])^m_,x_Symbol] :=
-  (a*e^2-c*f^2)^m*Int[ExpandIntegrand[u*(e*Sqrt[a+b*x^n]-f*Sqrt[c+d*x^n])^(-m),x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NegativeIntegerQ[m] && EqQ[b*e^2-d*f^2]
-
-
-(* ::Code:: *)
-Int[u_.*(e_.*Sqrt[a_.+b_.*x_^n_.]+f_.*Sqrt[c_.+d_.*x_^n_.])^m_,x_Symbol] :=
-  (b*e^2-d*f^2)^m*Int[ExpandIntegrand[u*x^(m*n)*(e*Sqrt[a+b*x^n]-f*Sqrt[c+d*x^n])^(-m),x],x] /;
-FreeQ[{a,b,c,d,e,f,n},x] && NegativeIntegerQ[m] && EqQ[a*e^2-c*f^2]
-
-
-(* ::Code:: *)
-Int[u_^m_.*(a_.*u_^n_+v_)^p_.*w_,x_Symbol] :=
-  Int[u^(m+n*p)*(a+u^(-n)*v)^p*w,x] /;
-FreeQ[{a,m,n},x] && IntegerQ[p] && Not[PositiveQ[n]] && Not[FreeQ[v,x]]
-
-
-(* ::Code:: *)
-Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-   q*Subst[Int[(a+b*x)^m*(c+d*x)^n,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,c,d,m,n},x] && EqQ[y-v]
-
-
-(* ::Code:: *)
-Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.*(e_.+f_.*w_)^p_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-   q*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && EqQ[y-v] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_*(a_.+b_.*y_)^m_.*(c_.+d_.*v_)^n_.*(e_.+f_.*w_)^p_.*(g_.+h_.*z_)^q_.,x_Symbol] :=
-  With[{r=DerivativeDivides[y,u,x]},
-   r*Subst[Int[(a+b*x)^m*(c+d*x)^n*(e+f*x)^p*(g+h*x)^q,x],x,y] /;
- Not[FalseQ[r]]] /;
-FreeQ[{a,b,c,d,e,f,g,h,m,n,p,q},x] && EqQ[y-v] && EqQ[y-w] && EqQ[y-z]
-
-
-(* ::Code:: *)
-Int[u_.*(a_+b_.*y_^n_),x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-   a*Int[u,x] + b*q*Subst[Int[x^n,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,n},x]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*y_^n_)^p_,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-   q*Subst[Int[(a+b*x^n)^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,n,p},x]
-
-
-(* ::Code:: *)
-Int[u_.*v_^m_.*(a_.+b_.*y_^n_)^p_.,x_Symbol] :=
-  Module[{q,r},
-    q*r*Subst[Int[x^m*(a+b*x^n)^p,x],x,y] /;
-  Not[FalseQ[r=Divides[y^m,v^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
-FreeQ[{a,b,m,n,p},x]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*y_^n_+c_.*v_^n2_.)^p_,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-  q*Subst[Int[(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[y-v]
-
-
-(* ::Code:: *)
-Int[u_.*(A_+B_.*y_^n_)(a_.+b_.*v_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-  q*Subst[Int[(A+B*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,c,A,B,n,p},x] && EqQ[n2-2*n] && EqQ[y-v] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_.*(A_+B_.*y_^n_)(a_.+c_.*w_^n2_.)^p_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-  q*Subst[Int[(A+B*x^n)*(a+c*x^(2*n))^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,c,A,B,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_.*v_^m_.*(a_.+b_.*y_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
-  Module[{q,r},
-    q*r*Subst[Int[x^m*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
-  Not[FalseQ[r=Divides[y^m,v^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
-FreeQ[{a,b,c,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_.*z_^m_.*(A_+B_.*y_^n_)*(a_.+b_.*v_^n_+c_.*w_^n2_.)^p_.,x_Symbol] :=
-  Module[{q,r},
-    q*r*Subst[Int[x^m*(A+B*x^n)*(a+b*x^n+c*x^(2*n))^p,x],x,y] /;
-  Not[FalseQ[r=Divides[y^m,z^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
-FreeQ[{a,b,c,A,B,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-v] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_.*z_^m_.*(A_+B_.*y_^n_)*(a_.+c_.*w_^n2_.)^p_.,x_Symbol] :=
-  Module[{q,r},
-    q*r*Subst[Int[x^m*(A+B*x^n)*(a+c*x^(2*n))^p,x],x,y] /;
-  Not[FalseQ[r=Divides[y^m,z^m,x]]] && Not[FalseQ[q=DerivativeDivides[y,u,x]]]] /;
-FreeQ[{a,c,A,B,m,n,p},x] && EqQ[n2-2*n] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*y_^n_)^m_.*(c_.+d_.*v_^n_)^p_.,x_Symbol] :=
-  With[{q=DerivativeDivides[y,u,x]},
-  q*Subst[Int[(a+b*x^n)^m*(c+d*x^n)^p,x],x,y] /;
- Not[FalseQ[q]]] /;
-FreeQ[{a,b,c,d,m,n,p},x] && EqQ[y-v]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*y_^n_)^m_.*(c_.+d_.*v_^n_)^p_.*(e_.+f_.*w_^n_)^q_.,x_Symbol] :=
-  With[{r=DerivativeDivides[y,u,x]},
-  r*Subst[Int[(a+b*x^n)^m*(c+d*x^n)^p*(e+f*x^n)^q,x],x,y] /;
- Not[FalseQ[r]]] /;
-FreeQ[{a,b,c,d,e,f,m,n,p,q},x] && EqQ[y-v] && EqQ[y-w]
-
-
-(* ::Code:: *)
-Int[u_*F_^v_,x_Symbol] :=
-  With[{q=DerivativeDivides[v,u,x]},
-   q*F^v/Log[F] /;
- Not[FalseQ[q]]] /;
-FreeQ[F,x]
-
-
-(* ::Code:: *)
-Int[u_*w_^m_.*F_^v_,x_Symbol] :=
-  With[{q=DerivativeDivides[v,u,x]},
-   q*Subst[Int[x^m*F^x,x],x,v] /;
- Not[FalseQ[q]]] /;
-FreeQ[{F,m},x] && EqQ[w-v]
-
-
-(* ::Code:: *)
-Int[u_*(a_+b_.*v_^p_.*w_^p_.)^m_.,x_Symbol] :=
-  With[{c=Simplify[u/(w*D[v,x]+v*D[w,x])]},
-  c*Subst[Int[(a+b*x^p)^m,x],x,v*w] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p},x] && IntegerQ[p]
-
-
-(* ::Code:: *)
-Int[u_*(a_+b_.*v_^p_.*w_^q_.)^m_.*v_^r_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]+q*v*D[w,x])]},
-  c*p/(r+1)*Subst[Int[(a+b*x^(p/(r+1)))^m,x],x,v^(r+1)*w] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q,r},x] && EqQ[p-q*(r+1)] && NeQ[r+1] && IntegerQ[p/(r+1)]
-
-
-(* ::Code:: *)
-Int[u_*(a_+b_.*v_^p_.*w_^q_.)^m_.*v_^r_.*w_^s_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]+q*v*D[w,x])]},
-  c*p/(r+1)*Subst[Int[(a+b*x^(p/(r+1)))^m,x],x,v^(r+1)*w^(s+1)] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q,r,s},x] && EqQ[p*(s+1)-q*(r+1)] && NeQ[r+1] && IntegerQ[p/(r+1)]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
-  c*p*Subst[Int[(b+a*x^p)^m,x],x,v*w^(m*q+1)] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q},x] && EqQ[p+q*(m*p+1)] && IntegerQ[p] && IntegerQ[m]
-
-
-(* ::Code:: *)
-(* Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
-  -c*q*Subst[Int[(a+b*x^q)^m,x],x,v^(m*p+1)*w] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q},x] && EqQ[p+q*(m*p+1)] && IntegerQ[q] && IntegerQ[m] *)
-
-
-(* ::Code:: *)
-Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*v_^r_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
-  -c*q*Subst[Int[(a+b*x^q)^m,x],x,v^(m*p+r+1)*w] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q,r},x] && EqQ[p+q*(m*p+r+1)] && IntegerQ[q] && IntegerQ[m]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*w_^s_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
-  -c*q/(s+1)*Subst[Int[(a+b*x^(q/(s+1)))^m,x],x,v^(m*p+1)*w^(s+1)] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q,s},x] && EqQ[p*(s+1)+q*(m*p+1)] && NeQ[s+1] && IntegerQ[q/(s+1)] && IntegerQ[m]
-
-
-(* ::Code:: *)
-Int[u_*(a_.*v_^p_.+b_.*w_^q_.)^m_.*v_^r_.*w_^s_.,x_Symbol] :=
-  With[{c=Simplify[u/(p*w*D[v,x]-q*v*D[w,x])]},
-  -c*q/(s+1)*Subst[Int[(a+b*x^(q/(s+1)))^m,x],x,v^(m*p+r+1)*w^(s+1)] /;
- FreeQ[c,x]] /;
-FreeQ[{a,b,m,p,q,r,s},x] && EqQ[p*(s+1)+q*(m*p+r+1)] && NeQ[s+1] && IntegerQ[q/(s+1)] && IntegerQ[m]
-
-
-(* ::Code:: *)
-Int[u_*x_^m_.,x_Symbol] :=
-  1/(m+1)*Subst[Int[SubstFor[x^(m+1),u,x],x],x,x^(m+1)] /;
-FreeQ[m,x] && NeQ[m+1] && FunctionOfQ[x^(m+1),u,x]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
-  ShowStep["","Int[F[(a+b*x)^(1/n),x],x]",
-			"n/b*Subst[Int[x^(n-1)*F[x,-a/b+x^n/b],x],x,(a+b*x)^(1/n)]",Hold[
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
- Not[FalseQ[lst]] && SubstForFractionalPowerQ[u,lst[[3]],x]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
- Not[FalseQ[lst]] && SubstForFractionalPowerQ[u,lst[[3]],x]]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfQuotientOfLinears[u,x]},
-  ShowStep["","Int[F[((a+b*x)/(c+d*x))^(1/n),x],x]",
-"n*(b*c-a*d)*Subst[Int[x^(n-1)*F[x,(-a+c*x^n)/(b-d*x^n)]/(b-d*x^n)^2,x],x,((a+b*x)/(c+d*x))^(1/n)]",Hold[
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
- Not[FalseQ[lst]]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfQuotientOfLinears[u,x]},
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
- Not[FalseQ[lst]]]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_^m_.*w_^n_.*z_^q_.)^p_,x_Symbol] :=
-  a^IntPart[p]*(a*v^m*w^n*z^q)^FracPart[p]/(v^(m*FracPart[p])*w^(n*FracPart[p])*z^(q*FracPart[p]))*Int[u*v^(m*p)*w^(n*p)*z^(p*q),x] /;
-FreeQ[{a,m,n,p,q},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[FreeQ[w,x]] && Not[FreeQ[z,x]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_^m_.*w_^n_.)^p_,x_Symbol] :=
-  a^IntPart[p]*(a*v^m*w^n)^FracPart[p]/(v^(m*FracPart[p])*w^(n*FracPart[p]))*Int[u*v^(m*p)*w^(n*p),x] /;
-FreeQ[{a,m,n,p},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[FreeQ[w,x]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*v_^m_.)^p_,x_Symbol] :=
-  a^IntPart[p]*(a*v^m)^FracPart[p]/v^(m*FracPart[p])*Int[u*v^(m*p),x] /;
-FreeQ[{a,m,p},x] && Not[IntegerQ[p]] && Not[FreeQ[v,x]] && Not[EqQ[a,1] && EqQ[m,1]] && Not[EqQ[v,x] && EqQ[m,1]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^n_)^p_,x_Symbol] :=
-  FullSimplify[Sqrt[a+b*x^n]/(x^(n/2)*Sqrt[b+a/x^n])]*Int[u*x^(n*p)*(b+a*x^(-n))^p,x] /;
-FreeQ[{a,b,p},x] && IntegerQ[p+1/2] && NegativeIntegerQ[n] && Not[RationalFunctionQ[u,x]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*v_^n_)^p_,x_Symbol] :=
-  (a+b*v^n)^FracPart[p]/(v^(n*FracPart[p])*(b+a*v^(-n))^FracPart[p])*Int[u*v^(n*p)*(b+a*v^(-n))^p,x] /;
-FreeQ[{a,b,p},x] && Not[IntegerQ[p]] && NegativeIntegerQ[n] && BinomialQ[v,x] && Not[LinearQ[v,x]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^m_.*v_^n_)^p_,x_Symbol] :=
-  (a+b*x^m*v^n)^FracPart[p]/(v^(n*FracPart[p])*(b*x^m+a*v^(-n))^FracPart[p])*Int[u*v^(n*p)*(b*x^m+a*v^(-n))^p,x] /;
-FreeQ[{a,b,m,p},x] && Not[IntegerQ[p]] && NegativeIntegerQ[n] && BinomialQ[v,x]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.*x_^r_.+b_.*x_^s_.)^m_,x_Symbol] :=
-  With[{v=(a*x^r+b*x^s)^FracPart[m]/(x^(r*FracPart[m])*(a+b*x^(s-r))^FracPart[m])},
-  v*Int[u*x^(m*r)*(a+b*x^(s-r))^m,x] /;
- Not[EqQ[Simplify[v],1]]] /;
-FreeQ[{a,b,m,r,s},x] && Not[IntegerQ[m]] && PosQ[s-r]
-
-
-(* ::Code:: *)
-Int[u_/(a_+b_.*x_^n_),x_Symbol] :=
-  With[{v=RationalFunctionExpand[u/(a+b*x^n),x]},
-  Int[v,x] /;
- SumQ[v]] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[u_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_.,x_Symbol] :=
-  1/(4^p*c^p)*Int[u*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p] && Not[AlgebraicFunctionQ[u,x]]
-
-
-(* ::Code:: *)
-Int[u_*(a_.+b_.*x_^n_.+c_.*x_^n2_.)^p_,x_Symbol] :=
-  (a+b*x^n+c*x^(2*n))^p/(b+2*c*x^n)^(2*p)*Int[u*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && Not[IntegerQ[p]] && Not[AlgebraicFunctionQ[u,x]]
-
-
-(* ::Code:: *)
-Int[u_/(a_.+b_.*x_^n_.+c_.*x_^n2_.),x_Symbol] :=
-  With[{v=RationalFunctionExpand[u/(a+b*x^n+c*x^(2*n)),x]},
-  Int[v,x] /;
- SumQ[v]] /;
-FreeQ[{a,b,c},x] && EqQ[n2-2*n] && PositiveIntegerQ[n]
-
-
-(* ::Code:: *)
-Int[u_./(a_.*x_^m_.+b_.*Sqrt[c_.*x_^n_]),x_Symbol] :=
-  Int[u*(a*x^m-b*Sqrt[c*x^n])/(a^2*x^(2*m)-b^2*c*x^n),x] /;
-FreeQ[{a,b,c,m,n},x]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfLinear[u,x]},
-  ShowStep["","Int[F[a+b*x],x]","Subst[Int[F[x],x],x,a+b*x]/b",Hold[
-  Dist[1/lst[[3]],Subst[Int[lst[[1]],x],x,lst[[2]]+lst[[3]]*x],x]]] /;
- Not[FalseQ[lst]]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfLinear[u,x]},
-  Dist[1/lst[[3]],Subst[Int[lst[[1]],x],x,lst[[2]]+lst[[3]]*x],x] /;
- Not[FalseQ[lst]]]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_/x_,x_Symbol] :=
-  With[{lst=PowerVariableExpn[u,0,x]},
-  ShowStep["","Int[F[(c*x)^n]/x,x]","Subst[Int[F[x]/x,x],x,(c*x)^n]/n",Hold[
-  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]]]] /;
- Not[FalseQ[lst]] && NeQ[lst[[2]]]] /;
-SimplifyFlag && NonsumQ[u] && Not[RationalFunctionQ[u,x]],
-
-Int[u_/x_,x_Symbol] :=
-  With[{lst=PowerVariableExpn[u,0,x]},
-  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]] /;
- Not[FalseQ[lst]] && NeQ[lst[[2]]]] /;
-NonsumQ[u] && Not[RationalFunctionQ[u,x]]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_*x_^m_.,x_Symbol] :=
-  With[{lst=PowerVariableExpn[u,m+1,x]},
-  ShowStep["If g=GCD[m+1,n]>1,","Int[x^m*F[x^n],x]",
-		"1/g*Subst[Int[x^((m+1)/g-1)*F[x^(n/g)],x],x,x^g]",Hold[
-  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]]]] /;
- Not[FalseQ[lst]] && NeQ[lst[[2]]-m-1]] /;
-SimplifyFlag && IntegerQ[m] && m!=-1 && NonsumQ[u] && (m>0 || Not[AlgebraicFunctionQ[u,x]]),
-
-Int[u_*x_^m_.,x_Symbol] :=
-  With[{lst=PowerVariableExpn[u,m+1,x]},
-  1/lst[[2]]*Subst[Int[NormalizeIntegrand[Simplify[lst[[1]]/x],x],x],x,(lst[[3]]*x)^lst[[2]]] /;
- Not[FalseQ[lst]] && NeQ[lst[[2]]-m-1]] /;
-IntegerQ[m] && m!=-1 && NonsumQ[u] && (m>0 || Not[AlgebraicFunctionQ[u,x]])]
-
-
-(* ::Code:: *)
-Int[x_^m_*u_,x_Symbol] :=
-  With[{k=Denominator[m]},
-  k*Subst[Int[x^(k*(m+1)-1)*ReplaceAll[u,x->x^k],x],x,x^(1/k)]] /;
-FractionQ[m]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
-			"2*Subst[Int[F[(c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2),(-b+2*Sqrt[a]*x)/(c-x^2)]*
-				(c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2)^2,x],x,(-Sqrt[a]+Sqrt[a+b*x+c*x^2])/x]",
-			Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
- Not[FalseQ[lst]] && lst[[3]]===1] /;
-SimplifyFlag && EulerIntegrandQ[u,x],
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
- Not[FalseQ[lst]]] /;
-EulerIntegrandQ[u,x]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
-			"2*Subst[Int[F[(a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x),(-a+x^2)/(b+2*Sqrt[c]*x)]*
-				(a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x)^2,x],x,Sqrt[c]*x+Sqrt[a+b*x+c*x^2]]",
-			Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
- Not[FalseQ[lst]] && lst[[3]]===2] /;
-SimplifyFlag && EulerIntegrandQ[u,x],
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
- Not[FalseQ[lst]]] /;
-EulerIntegrandQ[u,x]]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  ShowStep["","Int[F[Sqrt[a+b*x+c*x^2],x],x]",
-		   "-2*Sqrt[b^2-4*a*c]*Subst[Int[F[-Sqrt[b^2-4*a*c]*x/(c-x^2),
-			  (b*c+c*Sqrt[b^2-4*a*c]+(-b+Sqrt[b^2-4*a*c])*x^2)/(-2*c*(c-x^2))]*x/(c-x^2)^2,x],
-			   x,2*c*Sqrt[a+b*x+c*x^2]/(b-Sqrt[b^2-4*a*c]+2*c*x)]",
-		   Hold[2*Subst[Int[lst[[1]],x],x,lst[[2]]]]] /;
- Not[FalseQ[lst]] && lst[[3]]===3] /;
-SimplifyFlag && EulerIntegrandQ[u,x],
-
-Int[u_,x_Symbol] :=
-  With[{lst=FunctionOfSquareRootOfQuadratic[u,x]},
-  2*Subst[Int[lst[[1]],x],x,lst[[2]]] /;
- Not[FalseQ[lst]]] /;
-EulerIntegrandQ[u,x]]
-
-
-(* ::Code:: *)
-Int[1/(a_+b_.*v_^2),x_Symbol] :=
-(*1/(2*a)*Int[Together[1/(1-Rt[-b/a,2]*v)],x] + 1/(2*a)*Int[Together[1/(1+Rt[-b/a,2]*v)],x] /; *)
-  1/(2*a)*Int[Together[1/(1-v/Rt[-a/b,2])],x] + 1/(2*a)*Int[Together[1/(1+v/Rt[-a/b,2])],x] /;
-FreeQ[{a,b},x]
-
-
-(* ::Code:: *)
-Int[1/(a_+b_.*v_^n_),x_Symbol] :=
-  Dist[2/(a*n),Sum[Int[Together[1/(1-v^2/((-1)^(4*k/n)*Rt[-a/b,n/2]))],x],{k,1,n/2}],x] /;
-FreeQ[{a,b},x] && IGtQ[n/2,1]
-
-
-(* ::Code:: *)
-Int[1/(a_+b_.*v_^n_),x_Symbol] :=
-  Dist[1/(a*n),Sum[Int[Together[1/(1-v/((-1)^(2*k/n)*Rt[-a/b,n]))],x],{k,1,n}],x] /;
-FreeQ[{a,b},x] && IGtQ[(n-1)/2,0]
-
-
-(* ::Code:: *)
-Int[v_/(a_+b_.*u_^n_.),x_Symbol] :=
-  Int[ReplaceAll[ExpandIntegrand[PolynomialInSubst[v,u,x]/(a+b*x^n),x],x->u],x] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[n] && PolynomialInQ[v,u,x]
-
-
-(* ::Code:: *)
-Int[u_,x_Symbol] :=
-  With[{v=NormalizeIntegrand[u,x]},
-  Int[v,x] /;
- v=!=u]
-
-
-(* ::Code:: *)
-Int[u_,x_Symbol] :=
-  With[{v=ExpandIntegrand[u,x]},
-  Int[v,x] /;
- SumQ[v]]
-
-
-(* ::Code:: *)
-Int[u_.*(a_.+b_.*x_^m_.)^p_.*(c_.+d_.*x_^n_.)^q_., x_Symbol] :=
-  (a+b*x^m)^p*(c+d*x^n)^q/x^(m*p)*Int[u*x^(m*p),x] /;
-FreeQ[{a,b,c,d,m,n,p,q},x] && EqQ[a+d] && EqQ[b+c] && EqQ[m+n] && EqQ[p+q]
-
-
-(* ::Code:: *)
-Int[u_*(a_+b_.*x_^n_.+c_.*x_^n2_.)^p_, x_Symbol] :=
-  Sqrt[a+b*x^n+c*x^(2*n)]/((4*c)^(p-1/2)*(b+2*c*x^n))*Int[u*(b+2*c*x^n)^(2*p),x] /;
-FreeQ[{a,b,c,n,p},x] && EqQ[n2-2*n] && EqQ[b^2-4*a*c] && IntegerQ[p-1/2]
-
-
-(* ::Code:: *)
-If[ShowSteps,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
-  ShowStep["","Int[F[(a+b*x)^(1/n),x],x]",
-			"n/b*Subst[Int[x^(n-1)*F[x,-a/b+x^n/b],x],x,(a+b*x)^(1/n)]",Hold[
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])]]] /;
- Not[FalseQ[lst]]] /;
-SimplifyFlag,
-
-Int[u_,x_Symbol] :=
-  With[{lst=SubstForFractionalPowerOfLinear[u,x]},
-  lst[[2]]*lst[[4]]*Subst[Int[lst[[1]],x],x,lst[[3]]^(1/lst[[2]])] /;
- Not[FalseQ[lst]]]]
-
-
-(* ::Code:: *)
-Int[u_,x_] := Defer[Int][u,x]
-
-
-
-`)
+SetAttributes[FixRhsIntRule,HoldAll];
 
-func resourcesRubi94MiscellaneousIntegrationRulesMBytes() ([]byte, error) {
-	return _resourcesRubi94MiscellaneousIntegrationRulesM, nil
-}
+FixRhsIntRule[u_+v_,x_] :=
+  FixRhsIntRule[u,x]+FixRhsIntRule[v,x]
 
-func resourcesRubi94MiscellaneousIntegrationRulesM() (*asset, error) {
-	bytes, err := resourcesRubi94MiscellaneousIntegrationRulesMBytes()
-	if err != nil {
-		return nil, err
-	}
+FixRhsIntRule[u_-v_,x_] :=
+  FixRhsIntRule[u,x]-FixRhsIntRule[v,x]
 
-	info := bindataFileInfo{name: "resources/rubi/9.4 Miscellaneous integration rules.m", size: 0, mode: os.FileMode(0), modTime: time.Unix(0, 0)}
-	a := &asset{bytes: bytes, info: info}
-	return a, nil
-}
+FixRhsIntRule[-u_,x_] :=
+  -FixRhsIntRule[u,x]
+
+FixRhsIntRule[a_*u_,x_] :=
+  Dist[a,u,x] /;
+MemberQ[{Int,Subst},Head[Unevaluated[u]]]
 
-var _resourcesRubiIntegrationUtilityFunctionsM = []byte(`(* ::Package:: *)
-
-(* ::Title:: *)
-(*Integration Utility Functions*)
-
-
-(* $TimeLimit is the time constraint in seconds on some potentially expensive routines. *) 
-If[Not[NumberQ[$TimeLimit]], $TimeLimit=5.0];
-
-
-(* ::Section::Closed:: *)
-(*IntHide[u,x]*)
-
-
-IntHide[u_,x_Symbol] :=
-  Block[{ShowSteps=False,$StepCounter=Null}, Int[u,x]]
-
-
-(* ::Section::Closed:: *)
-(*Mapping functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*MapAnd[u,x]*)
-
-
-(* MapAnd[f,l] applies f to the elements of list l until False is returned; else returns True *)
-MapAnd[f_,lst_] :=
-  Catch[Scan[Function[If[f[#],Null,Throw[False]]],lst];True]
-
-MapAnd[f_,lst_,x_] :=
-  Catch[Scan[Function[If[f[#,x],Null,Throw[False]]],lst];True]
-
-
-(* ::Subsection::Closed:: *)
-(*Map2[func,lst1,lst2]*)
-
-
-Map2[func_,lst1_,lst2_] :=
-  Module[{i},
-    ReapList[Do[Sow[func[lst1[[i]],lst2[[i]]]],{i,Length[lst1]}]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ReapList[u]*)
-
-
-ReapList[u_] :=
-  With[{lst=Reap[u][[2]]},
-  If[lst==={}, lst, lst[[1]]]]
-
-SetAttributes[ReapList,HoldFirst]
-
-
-(* ::Section::Closed:: *)
-(*Numerical type predicates*)
-
-
-(* ::Subsection::Closed:: *)
-(*FalseQ[u]*)
-
-
-FalseQ[u_] := u===False
-
-
-(* ::Subsection::Closed:: *)
-(*IntegersQ[u]*)
-
-
-(* IntegersQ[m,n,...] returns True if m, n, ... are all explicit integers; else it returns False. *)
-IntegersQ[u__] := Catch[Scan[Function[If[IntegerQ[#],Null,Throw[False]]],{u}]; True];
-
-
-(* ::Subsection::Closed:: *)
-(*PositiveIntegerQ[u]*)
-
-
-(* PositiveIntegerQ[m,n,...] returns True if m, n, ... are all explicit positive integers; else it returns False. *)
-PositiveIntegerQ[u__] := Catch[Scan[Function[If[IntegerQ[#] && #>0,Null,Throw[False]]],{u}]; True];
-
-
-(* ::Subsection::Closed:: *)
-(*NegativeIntegerQ[u]*)
-
-
-(* NegativeIntegerQ[m,n,...] returns True if m, n, ... are all explicit negative integers; else it returns False. *)
-NegativeIntegerQ[u__] := Catch[Scan[Function[If[IntegerQ[#] && #<0,Null,Throw[False]]],{u}]; True];
-
-
-(* ::Subsection::Closed:: *)
-(*FractionQ[u]*)
-
-
-(* FractionQ[m,n,...] returns True if m, n, ... are all explicit fractions; else it returns False. *)
-FractionQ[u__] := Catch[Scan[Function[If[Head[#]===Rational,Null,Throw[False]]],{u}]; True]
-
-
-(* ::Subsection::Closed:: *)
-(*RationalQ[u]*)
-
-
-(* RationalQ[m,n,...] returns True if m, n, ... are all explicit integers or fractions; else it returns False. *)
-RationalQ[u__] := Catch[Scan[Function[If[IntegerQ[#] || Head[#]===Rational,Null,Throw[False]]],{u}]; True]
-
-
-(* ::Subsection::Closed:: *)
-(*ComplexNumberQ[u]*)
-
-
-(* ComplexNumberQ[u] returns True if u is an explicit complex number; else it returns False. *)
-ComplexNumberQ[u_] := Head[u]===Complex
-
-
-(* ::Subsection::Closed:: *)
-(*RealNumericQ[u]*)
-
-
-(* RealNumericQ[u] returns True if u is a real numeric quantity, else returns False. *)
-RealNumericQ[u_] := NumericQ[u] && (EqQ[Im[u],0] || EqQ[Im[N[u]],0])
-
-
-(* ::Subsection::Closed:: *)
-(*PositiveQ[u]*)
-
-
-(* PositiveQ[u] returns True if u is a positive numeric quantity, else returns False. *)
-PositiveQ[u_] :=
-  With[{v=Simplify[u]},
-  RealNumericQ[v] && Re[N[v]]>0]
-
-
-(* ::Subsection::Closed:: *)
-(*NegativeQ[u]*)
-
-
-(* NegativeQ[u] returns True if u is a negative numeric quantity, else returns False. *)
-NegativeQ[u_] :=
-  With[{v=Simplify[u]},
-  RealNumericQ[v] && Re[N[v]]<0]
-
-
-(* ::Subsection::Closed:: *)
-(*FractionOrNegativeQ[u]*)
-
-
-(* FractionOrNegativeQ[u] returns True if u is a fraction or negative number; else returns False *)
-FractionOrNegativeQ[u__] := Catch[Scan[Function[If[FractionQ[#] || IntegerQ[#] && #<0,Null,Throw[False]]],{u}]; True]
-
-
-(* ::Subsection::Closed:: *)
-(*SqrtNumberQ[u]*)
-
-
-(* SqrtNumberQ[u] returns True if u^2 is a rational number; else it returns False. *)
-SqrtNumberQ[m_^n_] :=
-  IntegerQ[n] && SqrtNumberQ[m] || IntegerQ[n-1/2] && RationalQ[m]
-
-
-SqrtNumberQ[u_*v_] :=
-  SqrtNumberQ[u] && SqrtNumberQ[v]
-
-
-SqrtNumberQ[u_] :=
-  RationalQ[u] || u===I
-
-
-(* ::Subsection::Closed:: *)
-(*SqrtNumberSumQ[u]*)
-
-
-SqrtNumberSumQ[u_] :=
-  SumQ[u] && SqrtNumberQ[First[u]] && SqrtNumberQ[Rest[u]] || 
-  ProductQ[u] && SqrtNumberQ[First[u]] && SqrtNumberSumQ[Rest[u]]
-
-
-(* ::Subsection::Closed:: *)
-(*IndependentQ[u,x]*)
-
-
-IndependentQ[u_,x_] :=
-  FreeQ[u,x]
-
-
-(* ::Subsection::Closed:: *)
-(*NotIntegrableQ[u,x]*)
-
-
-(* NotIntegrableQ[u,x] returns True if u is definitely not integrable wrt x; else it returns 
-	False if u is, or might be, integrable wrt x. *)
-NotIntegrableQ[u_,x_Symbol] :=
-  MatchQ[u,x^m_*Log[a_+b_.*x]^n_ /; FreeQ[{a,b},x] && IntegersQ[m,n] && m<0 && n<0] ||
-  MatchQ[u,f_[x^m_.*Log[a_.+b_.*x]] /; FreeQ[{a,b},x] && IntegerQ[m] && (TrigQ[f] || HyperbolicQ[f])]
-
-
-(* ::Section::Closed:: *)
-(*Expression type predicates*)
-
-
-(* ::Subsection::Closed:: *)
-(*PowerQ[u]*)
-
-
-(* If u is a power, SumQ[u] returns True; else it returns False. *)
-PowerQ[u_] := Head[u]===Power
-
-
-(* ::Subsection::Closed:: *)
-(*ProductQ[u]*)
-
-
-(* If u is a product, SumQ[u] returns True; else it returns False. *)
-ProductQ[u_] := Head[u]===Times
-
-
-(* ::Subsection::Closed:: *)
-(*SumQ[u]*)
-
-
-(* If u is a sum, SumQ[u] returns True; else it returns False. *)
-SumQ[u_] := Head[u]===Plus
-
-
-(* ::Subsection::Closed:: *)
-(*NonsumQ[u]*)
-
-
-(* If u is not a sum, NonsumQ[u] returns True; else it returns False. *)
-NonsumQ[u_] := Head[u]=!=Plus
-
-
-(* ::Subsection::Closed:: *)
-(*IntegerPowerQ[u]*)
-
-
-IntegerPowerQ[u_] :=
-  PowerQ[u] && IntegerQ[u[[2]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PositiveIntegerPowerQ[u]*)
-
-
-PositiveIntegerPowerQ[u_] :=
-  PowerQ[u] && IntegerQ[u[[2]]] && u[[2]]>0
-
-
-(* ::Subsection::Closed:: *)
-(*FractionalPowerQ[u]*)
-
-
-FractionalPowerQ[u_] :=
-  PowerQ[u] && FractionQ[u[[2]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FractionalPowerFreeQ[u]*)
-
-
-FractionalPowerFreeQ[u_] :=
-  If[AtomQ[u],
-    True,
-  If[FractionalPowerQ[u] && Not[AtomQ[u[[1]]]],
-    False,
-  Catch[Scan[Function[If[FractionalPowerFreeQ[#],Null,Throw[False]]],u];True]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ComplexFreeQ[u]*)
-
-
-ComplexFreeQ[u_] :=
-  If[AtomQ[u],
-    Not[ComplexNumberQ[u]],
-  Catch[Scan[Function[If[ComplexFreeQ[#],Null,Throw[False]]],u];True]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpQ[u]*)
-
-
-ExpQ[u_] := PowerQ[u] && u[[1]]===E
-
-
-(* ::Subsection::Closed:: *)
-(*LogQ[u]*)
-
-
-(* If u is an expression of the form Log[v], LogQ[u] returns True; else it returns False. *)
-LogQ[u_] := Head[u]===Log
-
-
-(* ::Subsection::Closed:: *)
-(*TrigQ[u]*)
-
-
-(* TrigQ[u] returns True if u or the head of u is a trig function; else returns False *)
-TrigQ[u_] :=
-  MemberQ[{Sin,Cos,Tan,Cot,Sec,Csc},If[AtomQ[u],u,Head[u]]]
-
-
-SinQ[u_] := Head[u]===Sin
-
-CosQ[u_] := Head[u]===Cos
-
-TanQ[u_] := Head[u]===Tan
-
-CotQ[u_] := Head[u]===Cot
-
-SecQ[u_] := Head[u]===Sec
-
-CscQ[u_] := Head[u]===Csc
-
-
-(* ::Subsection::Closed:: *)
-(*HyperbolicQ[u]*)
-
-
-(* HyperbolicQ[u] returns True if u or the head of u is a trig function; else returns False *)
-HyperbolicQ[u_] :=
-  MemberQ[{Sinh,Cosh,Tanh,Coth,Sech,Csch},If[AtomQ[u],u,Head[u]]]
-
-
-SinhQ[u_] := Head[u]===Sinh
-
-CoshQ[u_] := Head[u]===Cosh
-
-TanhQ[u_] := Head[u]===Tanh
-
-CothQ[u_] := Head[u]===Coth
-
-SechQ[u_] := Head[u]===Sech
-
-CschQ[u_] := Head[u]===Csch
-
-
-(* ::Subsection::Closed:: *)
-(*InverseTrigQ[u]*)
-
-
-(* InverseTrigQ[u] returns True if u or the head of u is an inverse trig function; else returns False *)
-InverseTrigQ[u_] :=
-  MemberQ[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc},If[AtomQ[u],u,Head[u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*InverseHyperbolicQ[u]*)
-
-
-(* InverseHyperbolicQ[u] returns True if u or the head of u is an inverse trig function; else returns False *)
-InverseHyperbolicQ[u_] :=
-  MemberQ[{ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},If[AtomQ[u],u,Head[u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SinCosQ[u]*)
-
-
-SinCosQ[f_] :=
-  MemberQ[{Sin,Cos,Sec,Csc},f]
-
-
-(* ::Subsection::Closed:: *)
-(*SinhCoshQ[u]*)
-
-
-SinhCoshQ[f_] :=
-  MemberQ[{Sinh,Cosh,Sech,Csch},f]
-
-
-(* ::Subsection::Closed:: *)
-(*CalculusQ[u]*)
-
-
-CalculusFunctions={D,Integrate,Sum,Product,Int,Dif,Subst};
-
-(* CalculusQ[u] returns True if the head of u is a calculus function; else returns False *)
-CalculusQ[u_] :=
-  MemberQ[CalculusFunctions,Head[u]]
-
-CalculusFreeQ[u_,x_] :=
-  If[AtomQ[u],
-    True,
-  If[CalculusQ[u] && u[[2]]===x || HeldFormQ[u],
-    False,
-  Catch[Scan[Function[If[CalculusFreeQ[#,x],Null,Throw[False]]],u];True]]]
-
-
-HeldFormQ[u_] :=
-  If[AtomQ[Head[u]],
-    MemberQ[{Hold,HoldForm,Defer,Pattern},Head[u]],
-  HeldFormQ[Head[u]]]
-
-
-(* InverseFunctionQ[u] returns True if u is a call on an inverse function; else returns False. *)
-InverseFunctionQ[u_] :=
-  LogQ[u] || InverseTrigQ[u] && Length[u]<=1 || InverseHyperbolicQ[u] || Head[u]===Mods  || Head[u]===PolyLog 
-
-
-(* If u is free of trig, hyperbolic and calculus functions involving x,
-	TrigHyperbolicFreeQ[u,x] returns true; else it returns False. *)
-TrigHyperbolicFreeQ[u_,x_Symbol] :=
-  If[AtomQ[u],
-    True,
-  If[TrigQ[u] || HyperbolicQ[u] || CalculusQ[u],
-    FreeQ[u,x],
-  Catch[Scan[Function[If[TrigHyperbolicFreeQ[#,x],Null,Throw[False]]],u];True]]]
-
-
-(* If u is free of inverse, calculus and hypergeometric functions involving x,
-	InverseFunctionFreeQ[u,x] returns true; else it returns False. *)
-InverseFunctionFreeQ[u_,x_Symbol] :=
-  If[AtomQ[u],
-    True,
-  If[InverseFunctionQ[u] || CalculusQ[u] || Head[u]===Hypergeometric2F1 || Head[u]===AppellF1,
-    FreeQ[u,x],
-  Catch[Scan[Function[If[InverseFunctionFreeQ[#,x],Null,Throw[False]]],u];True]]]
-
-
-(* ElementaryExpressionQ[u] returns True if u is a sum, product, or power and all the operands
-	are elementary expressions; or if u is a call on a trig, hyperbolic, or inverse function
-	and all the arguments are elementary expressions; else it returns False. *)
-(* ElementaryFunctionQ[u_] :=
-  If[AtomQ[u],
-    True,
-  If[SumQ[u] || ProductQ[u] || PowerQ[u] || TrigQ[u] || HyperbolicQ[u] || InverseFunctionQ[u],
-    Catch[Scan[Function[If[ElementaryFunctionQ[#],Null,Throw[False]]],u];True],
-  False]] *)
-
-
-(* ::Section::Closed:: *)
-(*Equality and inequality predicates*)
-
-
-(* ::Subsection::Closed:: *)
-(*Equality predicates*)
-
-
-(* If u-v equals 0, EqQ[u,v] returns True; else it returns False. *)
-EqQ[u_] := Quiet[PossibleZeroQ[u]]
-
-EqQ[u_,v_] := Quiet[PossibleZeroQ[u-v]]
-
-
-(* If u-v equals 0, EqQ[u,v] returns False; else it returns True. *)
-NeQ[u_] := Not[Quiet[PossibleZeroQ[u]]]
-
-NeQ[u_,v_] := Not[Quiet[PossibleZeroQ[u-v]]]
-
-
-(* ::Subsection::Closed:: *)
-(*Integer inequality predicates*)
-
-
-(* num is a rational.  If u is an integer and u>n, IGtQ[u,n] returns True; else it returns False. *)
-IGtQ[u_,n_] := IntegerQ[u] && u>n
-
-
-(* num is a rational.  If u is an integer and u<n, ILtQ[u,n] returns True; else it returns False. *)
-ILtQ[u_,n_] := IntegerQ[u] && u<n
-
-
-(* num is a rational.  If u is an integer and u>=n, IGeQ[u,n] returns True; else it returns False. *)
-IGeQ[u_,n_] := IntegerQ[u] && u>=n
-
-
-(* num is a rational.  If u is an integer and u<=n, ILeQ[u,n] returns True; else it returns False. *)
-ILeQ[u_,n_] := IntegerQ[u] && u<=n
-
-
-(* ::Subsection::Closed:: *)
-(*Numeric inequality predicates*)
-
-
-(* num is a rational.  If u is a rational and u>n, GtQ[u,n] returns True; else it returns False. *)
-GtQ[u_,n_] := RationalQ[u] && u>n
-
-
-(* num is a rational.  If u is a rational and u<n, LtQ[u,n] returns True; else it returns False. *)
-LtQ[u_,n_] := RationalQ[u] && u<n
-
-
-(* num is a rational.  If u is a rational and u>=n, GeQ[u,n] returns True; else it returns False. *)
-GeQ[u_,n_] := RationalQ[u] && u>=n
-
-
-(* num is a rational.  If u is a rational and u<=n, LeQ[u,n] returns True; else it returns False. *)
-LeQ[u_,n_] := RationalQ[u] && u<=n
-
-
-(* ::Section::Closed:: *)
-(*Multinomial predicates*)
-
-
-(* ::Subsection::Closed:: *)
-(*PolyQ[u,x]*)
-
-
-(* PolyQ[u,x,n] returns True iff u is a polynomial of degree n. *)
-PolyQ[u_,x_Symbol,n_Integer] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[PolyQ[#,x,n]],Throw[False]]],u]; True],
-  PolynomialQ[u,x] && Exponent[u,x]==n && Coefficient[u,x,n]=!=0]
-
-
-(* Mathematica's built-in PolynomialQ, Exponent and Coefficient functions can return erroneous results because they do not *)
-(* cancel the gcd in pseudo-rational functions that are actually polynomial. *)
-(* For some unfully expanded polynomials, the built-in Mathematica function Exponent sometimes returns erronously large degrees. *)
-(* For example, Exponent[3*(1+a)*x^4 + 3*x^5 + x^6 - (a+x+x^2)^3, x] incorrectly returns 4 instead of 3. *)
-(* Despite what the online help says, PolynomialQ[u,x] returns an error message if x is not a symbol or *)
-(* a symbol raised to a symbol power. *)
-
-
-(* If u is a polynomial in x,PolyQ[u,x] returns True; else it returns False. *)
-PolyQ[u_,x_Symbol] :=
-  PolynomialQ[u,x] || PolynomialQ[Together[u],x]
-
-PolyQ[u_,x_Symbol^n_] :=
-  If[PositiveIntegerQ[n],
-    PolyQ[u,x] && (PolynomialQ[u,x^n] || PolynomialQ[Together[u],x^n]),
-  If[AtomQ[n],
-    PolynomialQ[u,x^n] && FreeQ[CoefficientList[u,x^n],x],
-  False]] /;
-FreeQ[n,x]
-
-PolyQ[u_,u_] :=
-  False
-
-
-(* ::Subsection::Closed:: *)
-(*ProperPolyQ[u,x]*)
-
-
-(* If u is a polynomial in x and the constant term is nonzero, ProperPolyQ[u,x] returns True; else it returns False. *)
-ProperPolyQ[u_,x_Symbol] :=
-  PolyQ[u,x] && NeQ[Coeff[u,x,0],0]
-
-
-(* ::Subsection::Closed:: *)
-(*BinomialQ[u,x]*)
-
-
-(* If u is equivalent to an expression of the form a+b*x^n where n and b are not 0, *)
-(* BinomialQ[u,x] returns True; else it returns False. *)
-BinomialQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[BinomialQ[#,x]],Throw[False]]],u]; True],
-  ListQ[BinomialParts[u,x]]]
-
-
-(* If u is equivalent to an expression of the form a+b*x^n, BinomialQ[u,x,n] returns True; else it returns False. *)
-BinomialQ[u_,x_Symbol,n_] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[BinomialQ[#,x,n]],Throw[False]]],u]; True],
-  Function[ListQ[#] && #[[3]]===n][BinomialParts[u,x]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TrinomialQ[u,x]*)
-
-
-(* If u is equivalent to an expression of the form a+b*x^n+c*x^(2*n) where n, b and c are not 0, *)
-(* TrinomialQ[u,x] returns True; else it returns False. *)
-TrinomialQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[TrinomialQ[#,x]],Throw[False]]],u]; True],
-  ListQ[TrinomialParts[u,x]] && Not[QuadraticQ[u,x]] && Not[MatchQ[u,w_^2 /; BinomialQ[w,x]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*GeneralizedBinomialQ[u,x]*)
-
-
-(* If u is equivalent to an expression of the form a*x^q+b*x^n where n, q and b are not 0, *)
-(* GeneralizedBinomialQ[u,x] returns True; else it returns False. *)
-GeneralizedBinomialQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[GeneralizedBinomialQ[#,x]],Throw[False]]],u]; True],
-  ListQ[GeneralizedBinomialParts[u,x]]]
-
-
-(* ::Subsection::Closed:: *)
-(*GeneralizedTrinomialQ[u,x]*)
-
-
-(* If u is equivalent to an expression of the form a*x^q+b*x^n+c*x^(2*n-q) where n, q, b and c are not 0, *)
-(* GeneralizedTrinomialQ[u,x] returns True; else it returns False. *)
-GeneralizedTrinomialQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[GeneralizedTrinomialQ[#,x]],Throw[False]]],u]; True],
-  ListQ[GeneralizedTrinomialParts[u,x]]]
-
-
-(* ::Section::Closed:: *)
-(*Expression form predicates*)
-
-
-(* ::Subsection::Closed:: *)
-(*PosQ[u]*)
-
-
-(* If u is not 0 and has a positive form, PosQ[u] returns True, else it returns False. *)
-PosQ[u_] :=
-  PosAux[TogetherSimplify[u]]
-
-PosAux[u_] :=
-  If[RationalQ[u],
-    u>0,
-  If[NumberQ[u],
-    If[EqQ[Re[u],0],
-      Im[u]>0,
-    Re[u]>0],
-  If[PowerQ[u],
-    If[IntegerQ[u[[2]]],
-      EvenQ[u[[2]]] || PosAux[u[[1]]],
-    True],
-  If[ProductQ[u],
-    If[PosAux[First[u]],
-      PosAux[Rest[u]],
-    Not[PosAux[Rest[u]]]],
-  If[NumericQ[u],
-    With[{v=N[u]},
-    If[EqQ[Re[v],0],
-      Im[v]>0,
-    Re[v]>0]],
-  If[SumQ[u],
-    PosAux[First[u]],
-  True]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*NegQ[u]*)
-
-
-NegQ[u_] :=
-  Not[PosQ[u]] && NeQ[u,0]
-
-
-(* ::Subsection::Closed:: *)
-(*NiceSqrtQ[u]*)
-
-
-NiceSqrtQ[u_] :=
-  Not[NegativeQ[u]] && NiceSqrtAuxQ[u]
-
-NiceSqrtAuxQ[u_] :=
-  If[RationalQ[u],
-    u>0,
-  If[PowerQ[u],
-    EvenQ[u[[2]]],
-  If[ProductQ[u],
-    NiceSqrtAuxQ[First[u]] && NiceSqrtAuxQ[Rest[u]],
-  If[SumQ[u],
-    Function[NonsumQ[#] && NiceSqrtAuxQ[#]] [Simplify[u]],
-  False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PerfectSquareQ[u]*)
-
-
-(* If u is a rational number whose squareroot is rational or if u is of the form u1^n1 u2^n2 ... 
-	and n1, n2, ... are even, PerfectSquareQ[u] returns True; else it returns False. *)
-PerfectSquareQ[u_] :=
-  If[RationalQ[u],
-    u>0 && RationalQ[Sqrt[u]],
-  If[PowerQ[u],
-    EvenQ[u[[2]]],
-  If[ProductQ[u],
-    PerfectSquareQ[First[u]] && PerfectSquareQ[Rest[u]],
-  If[SumQ[u],
-    Function[NonsumQ[#] && PerfectSquareQ[#]] [Simplify[u]],
-  False]]]]
-
-
-(* ::Section::Closed:: *)
-(*Simpler functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*SimplerQ[u,v]*)
-
-
-(* If u is simpler than v, SimplerQ[u,v] returns True, else it returns False.  SimplerQ[u,u] returns False. *)
-SimplerQ[u_,v_] :=
-  If[IntegerQ[u],
-    If[IntegerQ[v],
-      If[u==v,
-        False,
-      If[u==-v,
-        v<0,
-      Abs[u]<Abs[v]]],
-    True],
-  If[IntegerQ[v],
-    False,
-  If[FractionQ[u],
-    If[FractionQ[v],
-      If[Denominator[u]==Denominator[v],
-        SimplerQ[Numerator[u],Numerator[v]],
-      Denominator[u]<Denominator[v]],
-    True],
-  If[FractionQ[v],
-    False,
-  If[(Re[u]===0 || Re[u]===0.0) && (Re[v]===0 || Re[v]===0.0),
-    SimplerQ[Im[u],Im[v]],
-  If[ComplexNumberQ[u],
-    If[ComplexNumberQ[v],
-      If[Re[u]==Re[v],
-        SimplerQ[Im[u],Im[v]],
-      SimplerQ[Re[u],Re[v]]],
-    False],
-  If[NumberQ[u],
-    If[NumberQ[v],
-      OrderedQ[{u,v}],
-    True],
-  If[NumberQ[v],
-    False,
-  If[AtomQ[u],
-    If[AtomQ[v],
-      OrderedQ[{u,v}],
-    True],
-  If[AtomQ[v],
-    False,
-  If[Head[u]===Head[v],
-    If[Length[u]==Length[v],
-      Catch[Do[If[u[[ii]]===v[[ii]],Null,Throw[SimplerQ[u[[ii]],v[[ii]]]]],{ii,Length[u]}]; False],
-    Length[u]<Length[v]],
-  If[LeafCount[u]<LeafCount[v],
-    True,
-  If[LeafCount[v]<LeafCount[u],
-    False,
-  Not[OrderedQ[{v,u}]]]]]]]]]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SimplerSqrtQ[u,v]*)
-
-
-(* If Rt[u,2] is simpler than Rt[v,2], SimplerSqrtQ[u,v] returns True, else it returns False.  SimplerSqrtQ[u,u] returns False. *)
-SimplerSqrtQ[u_,v_] :=
-  If[NegativeQ[v] && Not[NegativeQ[u]],
-    True,
-  If[NegativeQ[u] && Not[NegativeQ[v]],
-    False,
-  With[{sqrtu=Rt[u,2],sqrtv=Rt[v,2]},
-  If[IntegerQ[sqrtu],
-    If[IntegerQ[sqrtv],
-      sqrtu<sqrtv,
-    True],
-  If[IntegerQ[sqrtv],
-    False,
-  If[RationalQ[sqrtu],
-    If[RationalQ[sqrtv],
-      sqrtu<sqrtv,
-    True],
-  If[RationalQ[sqrtv],
-    False,
-  If[PosQ[u],
-    If[PosQ[v],
-      LeafCount[sqrtu]<LeafCount[sqrtv],
-    True],
-  If[PosQ[v],
-    False,
-  If[LeafCount[sqrtu]<LeafCount[sqrtv],
-    True,
-  If[LeafCount[sqrtv]<LeafCount[sqrtu],
-    False,
-  Not[OrderedQ[{v,u}]]]]]]]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SumSimplerQ[u,v]*)
-
-
-(* If u+v is simpler than u, SumSimplerQ[u,v] returns True, else it returns False. *)
-(* If for every term w of v there is a term of u equal to n*w where n<-1/2, u+v will be simpler than u. *)
-SumSimplerQ[u_,v_] :=
-  If[RationalQ[u,v],
-    If[v==0,
-      False,
-    If[v>0,
-      u<-1,
-    u>=-v]],
-  SumSimplerAuxQ[Expand[u],Expand[v]]]
-
-
-SumSimplerAuxQ[u_,v_] :=
-  (RationalQ[First[v]] || SumSimplerAuxQ[u,First[v]]) && 
-  (RationalQ[Rest[v]] || SumSimplerAuxQ[u,Rest[v]]) /;
-SumQ[v]
-
-SumSimplerAuxQ[u_,v_] :=
-  SumSimplerAuxQ[First[u],v] || SumSimplerAuxQ[Rest[u],v] /;
-SumQ[u]
-
-SumSimplerAuxQ[u_,v_] :=
-  v=!=0 && 
-  NonnumericFactors[u]===NonnumericFactors[v] && 
-  (NumericFactor[u]/NumericFactor[v]<-1/2 || NumericFactor[u]/NumericFactor[v]==-1/2 && NumericFactor[u]<0)  
-
-
-(* ::Subsection::Closed:: *)
-(*SimplerIntegrandQ[u,v,x]*)
-
-
-(* SimplerIntegrandQ[u,v,x] returns True iff u is simpler to integrate wrt x than v. *)
-SimplerIntegrandQ[u_,v_,x_Symbol] :=
-  Module[{lst=CancelCommonFactors[u,v],u1,v1},
-  u1=lst[[1]];
-  v1=lst[[2]];
-(*If[Head[u1]===Head[v1] && Length[u1]==Length[v1]==1,
-    SimplerIntegrandQ[u1[[1]],v1[[1]],x], *)
-  If[LeafCount[u1]<3/4*LeafCount[v1],
-    True,
-  If[RationalFunctionQ[u1,x],
-    If[RationalFunctionQ[v1,x],
-      Apply[Plus,RationalFunctionExponents[u1,x]]<Apply[Plus,RationalFunctionExponents[v1,x]],
-    True],
-  False]]]
-
-
-(* CancelCommonFactors[u,v] returns {u',v'} are the noncommon factors of u and v respectively. *)
-CancelCommonFactors[u_,v_] :=
-  If[ProductQ[u],
-    If[ProductQ[v],
-      If[MemberQ[v,First[u]],
-        CancelCommonFactors[Rest[u],DeleteCases[v,First[u],1,1]],
-      Function[{First[u]*#[[1]],#[[2]]}][CancelCommonFactors[Rest[u],v]]],
-    If[MemberQ[u,v],
-      {DeleteCases[u,v,1,1],1},
-    {u,v}]],
-  If[ProductQ[v],
-    If[MemberQ[v,u],
-      {1,DeleteCases[v,u,1,1]},
-    {u,v}],
-  {u,v}]]
-
-
-(* ::Section::Closed:: *)
-(*Parts functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*BinomialParts[u,x]*)
-
-
-(* u is a binomial. BinomialDegree[u,x] returns the degree of x in u. *)
-BinomialDegree[u_,x_Symbol] :=
-  BinomialParts[u,x][[3]]
-
-
-(* If u[x] is equivalent to an expression of the form a+b*x^n where n!=0 and b!=0,
-	BinomialParts[u,x] returns the list {a,b,n}; else it returns False. *)
-BinomialParts[u_,x_Symbol] :=
-  If[PolynomialQ[u,x],
-    If[Exponent[u,x]>0,
-      With[{lst=Exponent[u,x,List]},
-        If[Length[lst]==1,
-          {0, Coefficient[u,x,Exponent[u,x]], Exponent[u,x]},
-        If[Length[lst]==2 && lst[[1]]==0,
-          {Coefficient[u,x,0], Coefficient[u,x,Exponent[u,x]], Exponent[u,x]},
-        False]]],
-    False],
-  If[PowerQ[u],
-    If[u[[1]]===x && FreeQ[u[[2]],x],
-      {0,1,u[[2]]},
-    False],
-  If[ProductQ[u],
-    If[FreeQ[First[u],x],
-      With[{lst2=BinomialParts[Rest[u],x]},
-      If[AtomQ[lst2],
-        False,
-      {First[u]*lst2[[1]],First[u]*lst2[[2]],lst2[[3]]}]],
-    If[FreeQ[Rest[u],x],
-      With[{lst1=BinomialParts[First[u],x]},
-      If[AtomQ[lst1],
-        False,
-      {Rest[u]*lst1[[1]],Rest[u]*lst1[[2]],lst1[[3]]}]],
-    With[{lst1=BinomialParts[First[u],x]},
-    If[AtomQ[lst1],
-      False,
-    With[{lst2=BinomialParts[Rest[u],x]},
-    If[AtomQ[lst2],
-      False,
-    With[{a=lst1[[1]],b=lst1[[2]],m=lst1[[3]], c=lst2[[1]],d=lst2[[2]],n=lst2[[3]]},
-    If[EqQ[a,0],
-      If[EqQ[c,0],
-        {0,b*d,m+n},
-      If[EqQ[m+n,0],
-        {b*d,b*c,m},
-      False]],
-    If[EqQ[c,0],
-      If[EqQ[m+n,0],
-        {b*d,a*d,n},
-      False],
-    If[EqQ[m,n] && EqQ[a*d+b*c,0],
-      {a*c,b*d,2*m},
-    False]]]]]]]]]],
-  If[SumQ[u],
-    If[FreeQ[First[u],x],
-     With[{lst2=BinomialParts[Rest[u],x]},
-      If[AtomQ[lst2],
-        False,
-      {First[u]+lst2[[1]],lst2[[2]],lst2[[3]]}]],
-    If[FreeQ[Rest[u],x],
-      With[{lst1=BinomialParts[First[u],x]},
-      If[AtomQ[lst1],
-        False,
-      {Rest[u]+lst1[[1]],lst1[[2]],lst1[[3]]}]],
-    With[{lst1=BinomialParts[First[u],x]},
-    If[AtomQ[lst1],
-      False,
-    With[{lst2=BinomialParts[Rest[u],x]},
-    If[AtomQ[lst2],
-      False,
-    If[EqQ[lst1[[3]],lst2[[3]]],
-      {lst1[[1]]+lst2[[1]],lst1[[2]]+lst2[[2]],lst1[[3]]},
-    False]]]]]]],
-  False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TrinomialParts[u,x]*)
-
-
-(* If u is equivalent to a trinomial of the form a + b*x^n + c*x^(2*n) where n!=0, b!=0 and c!=0, 
-	TrinomialDegree[u,x] returns n. *)
-TrinomialDegree[u_,x_Symbol] :=
-  TrinomialParts[u,x][[4]]
-
-
-(* If u is equivalent to a trinomial of the form a + b*x^n + c*x^(2*n) where n!=0, b!=0 and c!=0,
-	TrinomialParts[u,x] returns the list {a,b,c,n}; else it returns False. *)
-TrinomialParts[u_,x_Symbol] :=
-  If[PolynomialQ[u,x],
-    With[{lst=CoefficientList[u,x]},
-    If[Length[lst]<3 || EvenQ[Length[lst]] || EqQ[lst[[(Length[lst]+1)/2]],0],
-      False,
-    Catch[
-      Scan[Function[If[EqQ[#,0],Null,Throw[False]]],Drop[Drop[Drop[lst,{(Length[lst]+1)/2}],1],-1]];
-      {First[lst],lst[[(Length[lst]+1)/2]],Last[lst],(Length[lst]-1)/2}]]],
-  If[PowerQ[u],
-    If[EqQ[u[[2]],2],
-      With[{lst=BinomialParts[u[[1]],x]},
-      If[AtomQ[lst] || EqQ[lst[[1]],0],
-        False,
-      {lst[[1]]^2,2*lst[[1]]*lst[[2]],lst[[2]]^2,lst[[3]]}]],
-    False],
-  If[ProductQ[u],
-    If[FreeQ[First[u],x],
-      With[{lst2=TrinomialParts[Rest[u],x]},
-      If[AtomQ[lst2],
-        False,
-      {First[u]*lst2[[1]],First[u]*lst2[[2]],First[u]*lst2[[3]],lst2[[4]]}]],
-    If[FreeQ[Rest[u],x],
-      With[{lst1=TrinomialParts[First[u],x]},
-      If[AtomQ[lst1],
-        False,
-      {Rest[u]*lst1[[1]],Rest[u]*lst1[[2]],Rest[u]*lst1[[3]],lst1[[4]]}]],
-    With[{lst1=BinomialParts[First[u],x]},
-    If[AtomQ[lst1],
-      False,
-    With[{lst2=BinomialParts[Rest[u],x]},
-    If[AtomQ[lst2],
-      False,
-    With[{a=lst1[[1]],b=lst1[[2]],m=lst1[[3]], c=lst2[[1]],d=lst2[[2]],n=lst2[[3]]},
-    If[EqQ[m,n] && NeQ[a*d+b*c,0],
-      {a*c,a*d+b*c,b*d,m},
-    False]]]]]]]],
-  If[SumQ[u],
-    If[FreeQ[First[u],x],
-      With[{lst2=TrinomialParts[Rest[u],x]},
-      If[AtomQ[lst2],
-        False,
-      {First[u]+lst2[[1]],lst2[[2]],lst2[[3]],lst2[[4]]}]],
-    If[FreeQ[Rest[u],x],
-      With[{lst1=TrinomialParts[First[u],x]},
-      If[AtomQ[lst1],
-        False,
-      {Rest[u]+lst1[[1]],lst1[[2]],lst1[[3]],lst1[[4]]}]],
-    With[{lst1=TrinomialParts[First[u],x]},
-    If[AtomQ[lst1],
-      With[{lst3=BinomialParts[First[u],x]},
-      If[AtomQ[lst3],
-        False,
-      With[{lst2=TrinomialParts[Rest[u],x]},
-      If[AtomQ[lst2],
-        With[{lst4=BinomialParts[Rest[u],x]},
-        If[AtomQ[lst4],
-          False,
-        If[EqQ[lst3[[3]],2*lst4[[3]]],
-          {lst3[[1]]+lst4[[1]],lst4[[2]],lst3[[2]],lst4[[3]]},
-        If[EqQ[lst4[[3]],2*lst3[[3]]],
-          {lst3[[1]]+lst4[[1]],lst3[[2]],lst4[[2]],lst3[[3]]},
-        False]]]],
-      If[EqQ[lst3[[3]],lst2[[4]]] && NeQ[lst3[[2]]+lst2[[2]],0],
-        {lst3[[1]]+lst2[[1]],lst3[[2]]+lst2[[2]],lst2[[3]],lst2[[4]]},
-      If[EqQ[lst3[[3]],2*lst2[[4]]] && NeQ[lst3[[2]]+lst2[[3]],0],
-        {lst3[[1]]+lst2[[1]],lst2[[2]],lst3[[2]]+lst2[[3]],lst2[[4]]},
-      False]]]]]],
-    With[{lst2=TrinomialParts[Rest[u],x]},
-    If[AtomQ[lst2],
-      With[{lst4=BinomialParts[Rest[u],x]},
-      If[AtomQ[lst4],
-        False,
-      If[EqQ[lst4[[3]],lst1[[4]]] && NeQ[lst1[[2]]+lst4[[2]],0],
-        {lst1[[1]]+lst4[[1]],lst1[[2]]+lst4[[2]],lst1[[3]],lst1[[4]]},
-      If[EqQ[lst4[[3]],2*lst1[[4]]] && NeQ[lst1[[3]]+lst4[[2]],0],
-        {lst1[[1]]+lst4[[1]],lst1[[2]],lst1[[3]]+lst4[[2]],lst1[[4]]},
-      False]]]],
-    If[EqQ[lst1[[4]],lst2[[4]]] && NeQ[lst1[[2]]+lst2[[2]],0] && NeQ[lst1[[3]]+lst2[[3]],0],
-      {lst1[[1]]+lst2[[1]],lst1[[2]]+lst2[[2]],lst1[[3]]+lst2[[3]],lst1[[4]]},
-    False]]]]]]],
-  False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*GeneralizedBinomialParts[u,x]*)
-
-
-(* If u is equivalent to a generalized binomial of the form a*x^q + b*x^n where a, b, n, and q not equal 0,
-	GeneralizedBinomialDegree[u,x] returns n-q. *)
-GeneralizedBinomialDegree[u_,x_Symbol] :=
-  Function[#[[3]]-#[[4]]][GeneralizedBinomialParts[u,x]]
-
-
-(* If u is equivalent to a generalized binomial of the form a*x^q + b*x^n where a, b, n, and q not equal 0,
-	GeneralizedBinomialParts[u,x] returns the list {a,b,n,q}; else it returns False. *)
-GeneralizedBinomialParts[a_.*x_^q_.+b_.*x_^n_.,x_Symbol] :=
-  {a,b,n,q} /;
-FreeQ[{a,b,n,q},x] && PosQ[n-q]
-
-GeneralizedBinomialParts[a_*u_,x_Symbol] :=
-  With[{lst=GeneralizedBinomialParts[u,x]},
-  {a*lst[[1]], a*lst[[2]], lst[[3]], lst[[4]]} /;
- ListQ[lst]] /;
-FreeQ[a,x]
-
-GeneralizedBinomialParts[x_^m_.*u_,x_Symbol] :=
-  With[{lst=GeneralizedBinomialParts[u,x]},
-  {lst[[1]], lst[[2]], m+lst[[3]], m+lst[[4]]} /;
- ListQ[lst] && NeQ[m+lst[[3]],0] && NeQ[m+lst[[4]],0]] /;
-FreeQ[m,x]
-
-GeneralizedBinomialParts[x_^m_.*u_,x_Symbol] :=
-  With[{lst=BinomialParts[u,x]},
-  {lst[[1]], lst[[2]], m+lst[[3]], m} /;
- ListQ[lst] && NeQ[m+lst[[3]],0]] /;
-FreeQ[m,x]
-
-GeneralizedBinomialParts[u_,x_Symbol] :=
-  False
-
-
-(* ::Subsection::Closed:: *)
-(*GeneralizedTrinomialParts[u,x]*)
-
-
-(* If u is equivalent to a generalized trinomial of the form a*x^q + b*x^n + c*x^(2*n-q) where n!=0, q!=0, b!=0 and c!=0, 
-	GeneralizedTrinomialDegree[u,x] returns n-q. *)
-GeneralizedTrinomialDegree[u_,x_Symbol] :=
-  Function[#[[4]]-#[[5]]][GeneralizedTrinomialParts[u,x]]
-
-
-(* If u is equivalent to a generalized trinomial of the form a*x^q + b*x^n + c*x^(2*n-q) where n!=0, q!=0, b!=0 and c!=0,
-	GeneralizedTrinomialParts[u,x] returns the list {a,b,c,n,q}; else it returns False. *)
-GeneralizedTrinomialParts[a_.*x_^q_.+b_.*x_^n_.+c_.*x_^r_.,x_Symbol] :=
-  {a,b,c,n,q} /;
-FreeQ[{a,b,c,n,q},x] && EqQ[r,2*n-q]
-
-GeneralizedTrinomialParts[a_*u_,x_Symbol] :=
-  With[{lst=GeneralizedTrinomialParts[u,x]},
-  {a*lst[[1]], a*lst[[2]], a*lst[[3]], lst[[4]], lst[[5]]} /;
- ListQ[lst]] /;
-FreeQ[a,x]
-
-GeneralizedTrinomialParts[u_,x_Symbol] :=
-  With[{lst=Expon[u,x,List]},
-  If[Length[lst]==3 && NeQ[lst[[0]],0] && EqQ[lst[[3]],2*lst[[2]]-lst[[1]]],
-    {Coeff[u,x,lst[[1]]],Coeff[u,x,lst[[2]]],Coeff[u,x,lst[[3]]],lst[[2]],lst[[1]]},
-  False]] /;
-PolyQ[u,x]
-
-GeneralizedTrinomialParts[x_^m_.*u_,x_Symbol] :=
-  With[{lst=GeneralizedTrinomialParts[u,x]},
-  {lst[[1]], lst[[2]], lst[[3]], m+lst[[4]], m+lst[[5]]} /;
- ListQ[lst] && NeQ[m+lst[[4]],0] && NeQ[m+lst[[5]],0]] /;
-FreeQ[m,x]
-
-GeneralizedTrinomialParts[x_^m_.*u_,x_Symbol] :=
-  With[{lst=TrinomialParts[u,x]},
-  {lst[[1]], lst[[2]], lst[[3]], m+lst[[4]], m} /;
- ListQ[lst] && NeQ[m+lst[[4]],0]] /;
-FreeQ[m,x]
-
-GeneralizedTrinomialParts[u_,x_Symbol] :=
-  False
-
-
-(* ::Section::Closed:: *)
-(*Selection functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*IntPart[u]*)
-
-
-(* IntPart[u] returns the sum of the integer terms of u. *) 
-IntPart[m_*u_,n_:1] :=
-  IntPart[u,m*n] /;
-RationalQ[m]
-
-IntPart[u_,n_:1] :=
-  If[RationalQ[u],
-    IntegerPart[n*u],
-  If[SumQ[u],
-    Map[Function[IntPart[#,n]],u],
-  0]]
-
-
-(* ::Subsection::Closed:: *)
-(*FracPart[u]*)
-
-
-(* IntPart[u] returns the sum of the non-integer terms of u. *) 
-FracPart[m_*u_,n_:1] :=
-  FracPart[u,m*n] /;
-RationalQ[m]
-
-FracPart[u_,n_:1] :=
-  If[RationalQ[u],
-    FractionalPart[n*u],
-  If[SumQ[u],
-    Map[Function[FracPart[#,n]],u],
-  n*u]]
-
-
-(* ::Subsection::Closed:: *)
-(*NumericFactor[u] *)
-
-
-(* NumericFactor[u] returns the real numeric factor of u. *)
-NumericFactor[u_] :=
-  If[NumberQ[u],
-    If[EqQ[Im[u],0],
-      u,
-    If[EqQ[Re[u],0],
-      Im[u],
-    1]],
-  If[PowerQ[u],
-    If[RationalQ[u[[1]]] && FractionQ[u[[2]]],
-      If[u[[2]]>0,
-        1/Denominator[u[[1]]],
-      1/Denominator[1/u[[1]]]],
-    1],
-  If[ProductQ[u],
-    Map[NumericFactor,u],
-  If[SumQ[u],
-    If[LeafCount[u]<50,             (* Eliminate this kludge! *)
-      Function[If[SumQ[#], 1, NumericFactor[#]]][ContentFactor[u]],
-    With[{m=NumericFactor[First[u]],n=NumericFactor[Rest[u]]},
-    If[m<0 && n<0,
-      -GCD[-m,-n],
-    GCD[m,n]]]],
-  1]]]]
-
-
-(* NonnumericFactors[u] returns the product of the factors of u that are not real numbers. *)
-NonnumericFactors[u_] :=
-  If[NumberQ[u],
-    If[EqQ[Im[u],0],
-      1,    
-    If[EqQ[Re[u],0],
-      I,
-    u]],
-  If[PowerQ[u],
-    If[RationalQ[u[[1]]] && FractionQ[u[[2]]],
-      u/NumericFactor[u],
-    u],
-  If[ProductQ[u],
-    Map[NonnumericFactors,u],
-  If[SumQ[u],
-    If[LeafCount[u]<50,             (* Eliminate this kludge! *)
-      Function[If[SumQ[#], u, NonnumericFactors[#]]][ContentFactor[u]],
-    With[{n=NumericFactor[u]},
-    Map[Function[#/n],u]]],
-  u]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*RemoveContent[u,x]*)
-
-
-(* RemoveContent[u,x] returns u with the content free of x removed. *)
-RemoveContent[u_,x_Symbol] :=
-  With[{v=NonfreeFactors[u,x]},
-  With[{w=Together[v]},
-  If[EqQ[FreeFactors[w,x],1],
-    RemoveContentAux[v,x],
-  RemoveContentAux[NonfreeFactors[w,x],x]]]]
-
-
-RemoveContentAux[a_^m_*u_.+b_*v_.,x_Symbol] :=
-  If[m>1,
-    RemoveContentAux[a^(m-1)*u-v,x],
-  RemoveContentAux[u-a^(1-m)*v,x]] /;
-IntegersQ[a,b] && a+b==0 && RationalQ[m]
-
-
-RemoveContentAux[a_^m_.*u_.+a_^n_.*v_.,x_Symbol] :=
-  RemoveContentAux[u+a^(n-m)*v,x] /;
-FreeQ[a,x] && RationalQ[m,n] && n-m>=0
-
-
-RemoveContentAux[a_^m_.*u_.+a_^n_.*v_.+a_^p_.*w_.,x_Symbol] :=
-  RemoveContentAux[u+a^(n-m)*v+a^(p-m)*w,x] /;
-FreeQ[a,x] && RationalQ[m,n,p] && n-m>=0 && p-m>=0
-
-
-RemoveContentAux[u_,x_Symbol] :=
-  If[SumQ[u] && NegQ[First[u]],
-    -u,
-  u]
-
-
-(* ::Subsection::Closed:: *)
-(*FreeFactors[u,x]*)
-
-
-(* FreeFactors[u,x] returns the product of the factors of u free of x. *)
-FreeFactors[u_,x_] :=
-  If[ProductQ[u],
-    Map[Function[If[FreeQ[#,x],#,1]],u],
-  If[FreeQ[u,x],
-    u,
-  1]]
-
-
-(* ::Subsection::Closed:: *)
-(*NonfreeFactors[u,x]*)
-
-
-(* NonfreeFactors[u,x] returns the product of the factors of u not free of x. *)
-NonfreeFactors[u_,x_] :=
-  If[ProductQ[u],
-    Map[Function[If[FreeQ[#,x],1,#]],u],
-  If[FreeQ[u,x],
-    1,
-  u]]
-
-
-(* ::Subsection::Closed:: *)
-(*FreeTerms[u,x]*)
-
-
-(* FreeTerms[u,x] returns the sum of the terms of u free of x. *)
-FreeTerms[u_,x_] :=
-  If[SumQ[u],
-    Map[Function[If[FreeQ[#,x],#,0]],u],
-  If[FreeQ[u,x],
-    u,
-  0]]
-
-
-(* ::Subsection::Closed:: *)
-(*NonfreeTerms[u,x]*)
-
-
-(* NonfreeTerms[u,x] returns the sum of the terms of u not free of x. *)
-NonfreeTerms[u_,x_] :=
-  If[SumQ[u],
-    Map[Function[If[FreeQ[#,x],0,#]],u],
-  If[FreeQ[u,x],
-    0,
-  u]]
-
-
-(* ::Subsection::Closed:: *)
-(*Polynomial functions*)
-
-
-Expon[expr_,form_] :=
-  Exponent[Together[expr],form]
-
-Expon[expr_,form_,h_] :=
-  Exponent[Together[expr],form,h]
-
-
-Coeff[expr_,form_] :=
-  Coefficient[Together[expr],form]
-
-Coeff[expr_,form_,n_] :=
-  With[{coef1=Coefficient[expr,form,n],coef2=Coefficient[Together[expr],form,n]},
-  If[Simplify[coef1-coef2]===0,
-    coef1,
-  coef2]]
-
-
-(* ::Subsection::Closed:: *)
-(*LeadTerm[u]*)
-
-
-LeadTerm[u_] :=
-  If[SumQ[u],
-    First[u],
-  u]
-
-
-(* ::Subsection::Closed:: *)
-(*RemainingTerms[u]*)
-
-
-RemainingTerms[u_] :=
-  If[SumQ[u],
-    Rest[u],
-  0]
-
-
-(* ::Subsection::Closed:: *)
-(*LeadFactor[u]*)
-
-
-(* LeadFactor[u] returns the leading factor of u. *)
-LeadFactor[u_] :=
-  If[ProductQ[u],
-    LeadFactor[First[u]],
-  If[ComplexNumberQ[u] && Re[u]===0,
-    If[Im[u]===1,
-      u,
-    LeadFactor[Im[u]]],
-  u]]
-
-
-(* ::Subsection::Closed:: *)
-(*RemainingFactors[u]*)
-
-
-(* RemainingFactors[u] returns the remaining factors of u. *)
-RemainingFactors[u_] :=
-  If[ProductQ[u],
-    RemainingFactors[First[u]]*Rest[u],
-  If[ComplexNumberQ[u] && Re[u]===0,
-    If[Im[u]===1,
-      1,
-    I*RemainingFactors[Im[u]]],
-  1]]
-
-
-(* ::Subsection::Closed:: *)
-(*LeadBase[u]*)
-
-
-(* LeadBase[u] returns the base of the leading factor of u. *)
-LeadBase[u_] :=
-  With[{v=LeadFactor[u]},
-  If[PowerQ[v],
-    v[[1]],
-  v]]
-
-
-(* ::Subsection::Closed:: *)
-(*LeadDegree[u]*)
-
-
-(* LeadDegree[u] returns the degree of the leading factor of u. *)
-LeadDegree[u_] :=
-  With[{v=LeadFactor[u]},
-  If[PowerQ[v],
-    v[[2]],
-  1]]
-
-
-(* ::Subsection::Closed:: *)
-(*Numer[u]*)
-
-
-(* Numer[u] returns the numerator of u. *)
-Numer[m_Integer^n_Rational] :=
-  1 /;
-n<0
-
-
-Numer[u_*v_] :=
-  Numer[u]*Numer[v]
-
-
-Numer[u_] := Numerator[u]
-
-
-(* ::Subsection::Closed:: *)
-(*Denom[u]*)
-
-
-(* Denom[u] returns the denominator of u. *)
-Denom[m_Integer^n_Rational] :=
-  m^-n /;
-n<0
-
-
-Denom[u_*v_] :=
-  Denom[u]*Denom[v]
-
-
-Denom[u_] := Denominator[u]
-
-
-(* ::Section::Closed:: *)
-(*Multinomial functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*Multinomial Recognizer functions*)
-
-
-(* ::Item:: *)
-(*LinearQ[u,x] returns True iff u is a polynomial of degree 1*)
-
-
-LinearQ[u_,x_Symbol] :=
-  PolyQ[u,x,1]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*PowerOfLinearQ[u,x] returns True iff u is equivalent to an expression of the form (a+b x)^m.*)
-
-
-PowerOfLinearQ[u_^m_.,x_Symbol] :=
-  FreeQ[m,x] && PolynomialQ[u,x] && If[IntegerQ[m], MatchQ[FactorSquareFree[u], w_^n_. /; FreeQ[n,x] && LinearQ[w,x]], LinearQ[u,x]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*QuadraticQ[u,x] returns True iff u is a polynomial of degree 2 and not a monomial of the form a x^2.*)
-
-
-QuadraticQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[QuadraticQ[#,x]],Throw[False]]],u]; True],
-  PolyQ[u,x,2] && Not[Coefficient[u,x,0]===0 && Coefficient[u,x,1]===0]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*LinearPairQ[u,v,x] returns True iff u and v are linear not equal x but u/v is a constant wrt x.*)
-
-
-LinearPairQ[u_,v_,x_Symbol] :=
-  LinearQ[u,x] && LinearQ[v,x] && NeQ[u,x] && EqQ[Coefficient[u,x,0]*Coefficient[v,x,1]-Coefficient[u,x,1]*Coefficient[v,x,0],0]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*If u is of the form a*x^n where n!=0 and a!=0, MonomialQ[u,x] returns True; else False.*)
-
-
-MonomialQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[MonomialQ[#,x],Null,Throw[False]]],u]; True],
-  MatchQ[u, a_.*x^n_. /; FreeQ[{a,n},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*f u[x] is a sum and each term is free of x or an expression of the form a*x^n, MonomialSumQ[u,x] returns True; else it returns False.*)
-
-
-MonomialSumQ[u_,x_Symbol] :=
-  SumQ[u] && Catch[
-	Scan[Function[If[FreeQ[#,x] || MonomialQ[#,x], Null, Throw[False]]],u];
-    True]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*u is sum whose terms are monomials.  MinimumExponent[u,x] returns the exponent of the term having the smallest exponent.*)
-
-
-MinimumMonomialExponent[u_,x_Symbol] :=
-  Module[{n=MonomialExponent[First[u],x]},
-  Scan[Function[If[PosQ[n-MonomialExponent[#,x]],n=MonomialExponent[#,x]]],u];
-  n]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*u is a monomial. MonomialExponent[u,x] returns the exponent of x in u.*)
-
-
-MonomialExponent[a_.*x_^n_.,x_Symbol] :=
-  n /; 
-FreeQ[{a,n},x]
-
-
-(* ::Subsection::Closed:: *)
-(*Multinomial Match functions*)
-
-
-(* ::Item:: *)
-(*LinearMatchQ[u,x] returns True iff u matches patterns of the form a+b x where a and b are free of x.*)
-
-
-LinearMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[LinearMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.+b_.*x /; FreeQ[{a,b},x]]]
-
-
-(* ::Input:: *)
-(**)
-
-
-(* ::Item:: *)
-(*PowerOfLinearMatchQ[u,x] returns True iff u matches patterns of the form (a+b x)^m where a, b and m are free of x.*)
-
-
-PowerOfLinearMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[PowerOfLinearMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, (a_.+b_.*x)^m_. /; FreeQ[{a,b,m},x]]]
-
-
-(* ::Input:: *)
-(**)
-
-
-(* ::Item:: *)
-(*QuadraticMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^2 or a+c x^2 where a, b and c are free of x.*)
-
-
-QuadraticMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[QuadraticMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.+b_.*x+c_.*x^2 /; FreeQ[{a,b,c},x]] || MatchQ[u, a_.+c_.*x^2 /; FreeQ[{a,c},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*CubicMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^2+d x^3, a+b x+d x^3, a+c x^2+d x^3 or a+d x^3 where a, b, c and d are free of x.*)
-
-
-CubicMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[CubicMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.+b_.*x+c_.*x^2+d_.*x^3 /; FreeQ[{a,b,c,d},x]] || 
-  MatchQ[u, a_.+b_.*x+d_.*x^3 /; FreeQ[{a,b,d},x]] ||
-  MatchQ[u, a_.+c_.*x^2+d_.*x^3 /; FreeQ[{a,c,d},x]] || 
-  MatchQ[u, a_.+d_.*x^3 /; FreeQ[{a,d},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*BinomialMatchQ[u,x] returns True iff u matches patterns of the form a+b x^n where a, b and n are free of x.*)
-
-
-BinomialMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[BinomialMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.+b_.*x^n_. /; FreeQ[{a,b,n},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*GeneralizedBinomialMatchQ[u,x] returns True iff u matches patterns of the form a x^q+b x^n where a, b, n and q are free of x.*)
-
-
-GeneralizedBinomialMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[GeneralizedBinomialMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.*x^q_.+b_.*x^n_. /; FreeQ[{a,b,n,q},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*TrinomialMatchQ[u,x] returns True iff u matches patterns of the form a+b x+c x^n or a+c x^(2 n) where a, b, c and n are free of x.*)
-
-
-TrinomialMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[TrinomialMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.+b_.*x^n_.+c_.*x^j_. /; FreeQ[{a,b,c,n},x] && EqQ[j-2*n,0]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*GeneralizedTrinomialMatchQ[u,x] returns True iff u matches patterns of the form a x^q+b x^n+c x^(2 n-q) where a, b, c, n and q are free of x.*)
-
-
-GeneralizedTrinomialMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[GeneralizedTrinomialMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, a_.*x^q_.+b_.*x^n_.+c_.*x^r_. /; FreeQ[{a,b,c,n,q},x] && EqQ[r-(2*n-q),0]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*QuotientOfLinearsMatchQ[u,x] returns True iff u matches patterns of the form e (a+b x)/(c+d x) where a, b, c and d are free of x.*)
-
-
-QuotientOfLinearsMatchQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[QuotientOfLinearsMatchQ[#,x]],Throw[False]]],u]; True],
-  MatchQ[u, e_.*(a_.+b_.*x)/(c_.+d_.*x) /; FreeQ[{a,b,c,d,e},x]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Subsection::Closed:: *)
-(*Polynomial Terms functions*)
-
-
-(* If u (x) is an expression of the form a*x^n where n is zero or a positive integer,
-	PolynomialTermQ[u,x] returns True; else it returns False. *)
-PolynomialTermQ[u_,x_Symbol] :=
-  FreeQ[u,x] || MatchQ[u,a_.*x^n_. /; FreeQ[a,x] && IntegerQ[n] && n>0]
-
-
-(* u (x) is a sum.  PolynomialTerms[u,x] returns the sum of the polynomial terms of u (x). *)
-PolynomialTerms[u_,x_Symbol] :=
-  Map[Function[If[PolynomialTermQ[#,x],#,0]],u]
-
-
-(* u (x) is a sum.  NonpolynomialTerms[u,x] returns the sum of the nonpolynomial terms of u (x). *)
-NonpolynomialTerms[u_,x_Symbol] :=
-  Map[Function[If[PolynomialTermQ[#,x],0,#]],u]
-
-
-(* ::Subsection::Closed:: *)
-(*PseudoBinomial Routines*)
-
-
-(* If u is equivalent to a polynomial of the form a+b*(c+d*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
-	PseudoBinomialQ[u,x] returns True; else it returns False. *)
-PseudoBinomialQ[u_,x_Symbol] :=
-  ListQ[PseudoBinomialParts[u,x]]
-
-
-(* If u is equivalent to a polynomial of the form a+b*(e+f*x)^n and v to a polynomial of the form c+d*(e+f*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
-	PseudoBinomialPairQ[u,v,x] returns True; else it returns False. *)
-PseudoBinomialPairQ[u_,v_,x_Symbol] :=
-  With[{lst1=PseudoBinomialParts[u,x]},
-  If[AtomQ[lst1],
-    False,
-  With[{lst2=PseudoBinomialParts[v,x]},
-  If[AtomQ[lst2],
-    False,
-  Drop[lst1,2]===Drop[lst2,2]]]]]
-
-
-(* u is pseudo-binomial in x, NormalizePseudoBinomial[u,x] returns u in the form a+b*(c+d*x)^n. *)
-NormalizePseudoBinomial[u_,x_Symbol] :=
-  With[{lst=PseudoBinomialParts[u,x]},
-  lst[[1]]+lst[[2]]*(lst[[3]]+lst[[4]]*x)^lst[[5]]]
-
-
-(* If u is equivalent to a polynomial of the form a+b*(c+d*x)^n where n\[Element]\[DoubleStruckCapitalZ] and n>2,
-	PseudoBinomialParts[u,x] returns the list {a,b,c,d,n}; else it returns False. *)
-PseudoBinomialParts[u_,x_Symbol] :=
-  If[PolynomialQ[u,x] && Expon[u,x]>2,
-    Module[{a,c,d,n},
-    n=Expon[u,x];
-    d=Rt[Coefficient[u,x,n],n];
-    c=Coefficient[u,x,n-1]/(n*d^(n-1));
-    a=Simplify[u-(c+d*x)^n];
-    If[NeQ[a,0] && FreeQ[a,x],
-      {a,1,c,d,n},
-    False]],
-  False]
-
-
-(* ::Subsection::Closed:: *)
-(*Perfect Power Test Function*)
-
-
-(* If u (x) is equivalent to a polynomial raised to an integer power greater than 1,
-	PerfectPowerTest[u,x] returns u (x) as an expanded polynomial raised to the power;
-	else it returns False. *)
-PerfectPowerTest[u_,x_Symbol] :=
-  If[PolynomialQ[u,x],
-    Module[{lst=FactorSquareFreeList[u],gcd=0,v=1},
-    If[lst[[1]]==={1,1},
-      lst=Rest[lst]];
-    Scan[Function[gcd=GCD[gcd,#[[2]]]],lst];
-    If[gcd>1,
-      Scan[Function[v=v*#[[1]]^(#[[2]]/gcd)],lst];
-      Expand[v]^gcd,
-    False]],
-  False]
-
-
-(* ::Subsection::Closed:: *)
-(*Square Free Factor Test Function*)
-
-
-(* If u (x) can be square free factored, SquareFreeFactorTest[u,x] returns u (x) in
-	factored form; else it returns False. *)
-(* SquareFreeFactorTest[u_,x_Symbol] :=
-  If[PolynomialQ[u,x],
-    With[{v=FactorSquareFree[u]},
-    If[PowerQ[v] || ProductQ[v],
-      v,
-    False]],
-  False] *)
-
-
-(* ::Section::Closed:: *)
-(*Rational function functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*RationalFunctionQ*)
-
-
-(* If u is a rational function of x, RationalFunctionQ[u,x] returns True; else it returns False. *)
-RationalFunctionQ[u_,x_Symbol] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    True,
-  If[IntegerPowerQ[u],
-    RationalFunctionQ[u[[1]],x],
-  If[ProductQ[u] || SumQ[u],
-    Catch[Scan[Function[If[Not[RationalFunctionQ[#,x]],Throw[False]]],u];True],
-  False]]]
-
-
-(* ::Subsection::Closed:: *)
-(*RationalFunctionFactors*)
-
-
-(* RationalFunctionFactors[u,x] returns the product of the factors of u that are rational functions of x. *)
-RationalFunctionFactors[u_,x_Symbol] :=
-  If[ProductQ[u],
-    Map[Function[If[RationalFunctionQ[#,x],#,1]],u],
-  If[RationalFunctionQ[u,x],
-    u,
-  1]]
-
-
-(* ::Subsection::Closed:: *)
-(*NonrationalFunctionFactors*)
-
-
-(* NonrationalFunctionFactors[u,x] returns the product of the factors of u that are not rational functions of x. *)
-NonrationalFunctionFactors[u_,x_Symbol] :=
-  If[ProductQ[u],
-    Map[Function[If[RationalFunctionQ[#,x],1,#]],u],
-  If[RationalFunctionQ[u,x],
-    1,
-  u]]
-
-
-(* ::Subsection::Closed:: *)
-(*RationalFunctionExponents*)
-
-
-(* u is a polynomial or rational function of x. *)
-(* RationalFunctionExponents[u,x] returns a list of the exponent of the *)
-(* numerator of u and the exponent of the denominator of u. *)
-RationalFunctionExponents[u_,x_Symbol] :=
-  If[PolynomialQ[u,x],
-    {Exponent[u,x],0},
-  If[IntegerPowerQ[u],
-    If[u[[2]]>0,
-      u[[2]]*RationalFunctionExponents[u[[1]],x],
-    (-u[[2]])*Reverse[RationalFunctionExponents[u[[1]],x]]],
-  If[ProductQ[u],
-    RationalFunctionExponents[First[u],x]+RationalFunctionExponents[Rest[u],x],
-  If[SumQ[u],
-    With[{v=Together[u]},
-    If[SumQ[v],
-      Module[{lst1,lst2},
-      lst1=RationalFunctionExponents[First[u],x];
-      lst2=RationalFunctionExponents[Rest[u],x];
-      {Max[lst1[[1]]+lst2[[2]],lst2[[1]]+lst1[[2]]],lst1[[2]]+lst2[[2]]}],
-    RationalFunctionExponents[v,x]]],
-  {0,0}]]]]    
-
-
-(* ::Subsection::Closed:: *)
-(*RationalFunctionExpand*)
-
-
-(* u is a polynomial or rational function of x. *)
-(* RationalFunctionExpand[u,x] returns the expansion of the factors of u that are rational functions times the other factors. *)
-RationalFunctionExpand[u_*v_^n_,x_Symbol] :=
-  With[{w=RationalFunctionExpand[u,x]},
-  If[SumQ[w],
-    Map[Function[#*v^n],w],
-  w*v^n]] /;
-FractionQ[n] && v=!=x
-
-RationalFunctionExpand[u_,x_Symbol] :=
-  Module[{v,w},
-  v=ExpandIntegrand[u,x];
-  If[v=!=u && Not[MatchQ[u, x^m_.*(c_+d_.*x)^p_/(a_+b_.*x^n_) /; FreeQ[{a,b,c,d,p},x] && IntegersQ[m,n] && m==n-1]],
-    v,
-  v=ExpandIntegrand[RationalFunctionFactors[u,x],x];
-  w=NonrationalFunctionFactors[u,x];
-  If[SumQ[v],
-    Map[Function[#*w],v],
-  v*w]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PolyGCD*)
-
-
-(* u and v are polynomials in x. *)
-(* PolyGCD[u,v,x] returns the factors of the gcd of u and v dependent on x. *)
-PolyGCD[u_,v_,x_Symbol] :=
-  NonfreeFactors[PolynomialGCD[u,v],x]
-
-
-(* ::Section::Closed:: *)
-(*Algebraic function functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*AlgebraicFunctionQ*)
-
-
-(* AlgebraicFunctionQ[u,x] returns True iff u is an algebraic of x *)
-(* If flag is True, exponents can be nonnumeric. *)
-AlgebraicFunctionQ[u_,x_Symbol,flag_:False] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    True,
-  If[PowerQ[u] && (RationalQ[u[[2]]] || flag && FreeQ[u[[2]],x]),
-    AlgebraicFunctionQ[u[[1]],x,flag],
-  If[ProductQ[u] || SumQ[u],
-    Catch[Scan[Function[If[Not[AlgebraicFunctionQ[#,x,flag]],Throw[False]]],u];True],
-  If[ListQ[u],
-    If[u==={},
-      True,
-    If[AlgebraicFunctionQ[First[u],x,flag],
-      AlgebraicFunctionQ[Rest[u],x,flag],
-    False]],
-  False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*AlgebraicFunctionFactors*)
-
-
-(* AlgebraicFunctionFactors[u,x] returns the product of the factors of u that are algebraic functions of x. *)
-(* AlgebraicFunctionFactors[u_,x_Symbol,flag_:False] :=
-  If[ProductQ[u],
-    Map[Function[If[AlgebraicFunctionQ[#,x,flag],#,1]],u],
-  If[AlgebraicFunctionQ[u,x,flag],u,1]] *)
-
-
-(* ::Subsection::Closed:: *)
-(*NonalgebraicFunctionFactors*)
-
-
-(* NonalgebraicFunctionFactors[u,x] returns the product of the factors of u that are not algebraic functions of x. *)
-(* NonalgebraicFunctionFactors[u_,x_Symbol,flag_:False] :=
-  If[ProductQ[u],
-    Map[Function[If[AlgebraicFunctionQ[#,x,flag],1,#]],u],
-  If[AlgebraicFunctionQ[u,x,flag],1,u]] *)
-
-
-(* ::Section::Closed:: *)
-(*Quotient of linears functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*QuotientOfLinearsQ*)
-
-
-(* ::Item:: *)
-(*QuotientOfLinearsQ[u,x] returns True iff u is equivalent to an expression of the form (a+b x)/(c+d x) where b!=0 and d!=0.*)
-
-
-QuotientOfLinearsQ[u_,x_Symbol] :=
-  If[ListQ[u],
-    Catch[Scan[Function[If[Not[QuotientOfLinearsQ[#,x]],Throw[False]]],u]; True],
-  QuotientOfLinearsP[u,x] && Function[NeQ[#[[2]],0] && NeQ[#[[4]],0]][QuotientOfLinearsParts[u,x]]]
-
-
-QuotientOfLinearsP[a_*u_,x_] :=
-  QuotientOfLinearsP[u,x] /;
-FreeQ[a,x]
-
-QuotientOfLinearsP[a_+u_,x_] :=
-  QuotientOfLinearsP[u,x] /;
-FreeQ[a,x]
-
-QuotientOfLinearsP[1/u_,x_] :=
-  QuotientOfLinearsP[u,x]
-
-QuotientOfLinearsP[u_,x_] :=
-  True /;
-LinearQ[u,x]
-
-QuotientOfLinearsP[u_/v_,x_] :=
-  True /;
-LinearQ[u,x] && LinearQ[v,x]
-
-QuotientOfLinearsP[u_,x_] :=
-  u===x || FreeQ[u,x]
-
-
-(* ::Subsection::Closed:: *)
-(*QuotientOfLinearsParts*)
-
-
-(* If u is equivalent to an expression of the form (a+b*x)/(c+d*x), QuotientOfLinearsParts[u,x] 
-	returns the list {a, b, c, d}. *)
-QuotientOfLinearsParts[a_*u_,x_] :=
-  Apply[Function[{a*#1, a*#2, #3, #4}], QuotientOfLinearsParts[u,x]] /;
-FreeQ[a,x]
-
-QuotientOfLinearsParts[a_+u_,x_] :=
-  Apply[Function[{#1+a*#3, #2+a*#4, #3, #4}], QuotientOfLinearsParts[u,x]] /;
-FreeQ[a,x]
-
-QuotientOfLinearsParts[1/u_,x_] :=
-  Apply[Function[{#3, #4, #1, #2}], QuotientOfLinearsParts[u,x]]
-
-QuotientOfLinearsParts[u_,x_] :=
-  {Coefficient[u,x,0], Coefficient[u,x,1], 1, 0} /;
-LinearQ[u,x]
-
-QuotientOfLinearsParts[u_/v_,x_] :=
-  {Coefficient[u,x,0], Coefficient[u,x,1], Coefficient[v,x,0], Coefficient[v,x,1]} /;
-LinearQ[u,x] && LinearQ[v,x]
-
-QuotientOfLinearsParts[u_,x_] :=
-  If[u===x,
-    {0, 1, 1, 0},
-  If[FreeQ[u,x],
-    {u, 0, 1, 0},
-  Print["QuotientOfLinearsParts error!"];
-  {u, 0, 1, 0}]]
-
-
-(* ::Subsection::Closed:: *)
-(*SubstForFractionalPowerOfQuotientOfLinears*)
-
-
-(* If u has a subexpression of the form ((a+b*x)/(c+d*x))^(m/n) where m and n>1 are integers, 
-	SubstForFractionalPowerOfQuotientOfLinears[u,x] returns the list {v,n,(a+b*x)/(c+d*x),b*c-a*d} where v is u
-	with subexpressions of the form ((a+b*x)/(c+d*x))^(m/n) replaced by x^m and x replaced
-	by (-a+c*x^n)/(b-d*x^n), and all times x^(n-1)/(b-d*x^n)^2; else it returns False. *)
-SubstForFractionalPowerOfQuotientOfLinears[u_,x_Symbol] :=
-  Module[{lst=FractionalPowerOfQuotientOfLinears[u,1,False,x]},
-  If[AtomQ[lst] || AtomQ[lst[[2]]],
-    False,
-  With[{n=lst[[1]],tmp=lst[[2]]},
-  lst=QuotientOfLinearsParts[tmp,x];
-  With[{a=lst[[1]],b=lst[[2]],c=lst[[3]],d=lst[[4]]},
-  If[EqQ[d,0],
-    False,
-  lst=Simplify[x^(n-1)*SubstForFractionalPower[u,tmp,n,(-a+c*x^n)/(b-d*x^n),x]/(b-d*x^n)^2];
-  {NonfreeFactors[lst,x],n,tmp,FreeFactors[lst,x]*(b*c-a*d)}]]]]]
-
-
-(* If the substitution x=v^(1/n) will not complicate algebraic subexpressions of u, 
-	SubstForFractionalPowerQ[u,v,x] returns True; else it returns False. *)
-SubstForFractionalPowerQ[u_,v_,x_Symbol] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    True,
-  If[FractionalPowerQ[u],
-    SubstForFractionalPowerAuxQ[u,v,x],
-  Catch[Scan[Function[If[Not[SubstForFractionalPowerQ[#,v,x]],Throw[False]]],u];True]]]
-
-SubstForFractionalPowerAuxQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    False,
-  If[FractionalPowerQ[u] && EqQ[u[[1]],v],
-    True,
-  Catch[Scan[Function[If[SubstForFractionalPowerAuxQ[#,v,x],Throw[True]]],u];False]]]
-
-
-(* If u has a subexpression of the form ((a+b*x)/(c+d*x))^(m/n), 
-	FractionalPowerOfQuotientOfLinears[u,1,False,x] returns {n,(a+b*x)/(c+d*x)}; else it returns False. *)
-FractionalPowerOfQuotientOfLinears[u_,n_,v_,x_] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    {n,v},
-  If[CalculusQ[u],
-    False,
-  If[FractionalPowerQ[u] && QuotientOfLinearsQ[u[[1]],x] && Not[LinearQ[u[[1]],x]] && (FalseQ[v] || EqQ[u[[1]],v]),
-    {LCM[Denominator[u[[2]]],n],u[[1]]},
-  Catch[Module[{lst={n,v}},
-    Scan[Function[If[AtomQ[lst=FractionalPowerOfQuotientOfLinears[#,lst[[1]],lst[[2]],x]],Throw[False]]],u];
-    lst]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SubstForInverseFunctionOfQuotientOfLinears*)
-
-
-(* If u has a subexpression of the form g[(a+b*x)/(c+d*x)] where g is the inverse of function h 
-	and f[x,g[(a+b*x)/(c+d*x)]] equals u, SubstForInverseFunctionOfQuotientOfLinears[u,x] returns 
-	the list {f[(-a+c*h[x])/(b-d*h[x]),x]*h'[x]/(b-d*h[x])^2, g[(a+b*x)/(c+d*x)], b*c-a*d} *)
-SubstForInverseFunctionOfQuotientOfLinears[u_,x_Symbol] :=
-  With[{tmp=InverseFunctionOfQuotientOfLinears[u,x]},
-  If[AtomQ[tmp],
-    False,
-  With[{h=InverseFunction[Head[tmp]],lst=QuotientOfLinearsParts[tmp[[1]],x]},
-  With[{a=lst[[1]],b=lst[[2]],c=lst[[3]],d=lst[[4]]},
-  {SubstForInverseFunction[u,tmp,(-a+c*h[x])/(b-d*h[x]),x]*D[h[x],x]/(b-d*h[x])^2, tmp, b*c-a*d}]]]]
-
-
-(* If u has a subexpression of the form g[(a+b*x)/(c+d*x)] where g is an inverse function, 
-	InverseFunctionOfQuotientOfLinears[u,x] returns g[(a+b*x)/(c+d*x)]; else it returns False. *)
-InverseFunctionOfQuotientOfLinears[u_,x_Symbol] :=
-  If[AtomQ[u] || CalculusQ[u] || FreeQ[u,x],
-    False,
-  If[InverseFunctionQ[u] && QuotientOfLinearsQ[u[[1]],x],
-    u,
-  Module[{tmp},
-  Catch[
-    Scan[Function[If[Not[AtomQ[tmp=InverseFunctionOfQuotientOfLinears[#,x]]],Throw[tmp]]],u];
-    False]]]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Substitution for inverse functions*)
-
-
-(* SubstForFractionalPower[u,v,n,w,x] returns u with subexpressions equal to v^(m/n) replaced 
-	by x^m and x replaced by w. *)
-SubstForFractionalPower[u_,v_,n_,w_,x_Symbol] :=
-  If[AtomQ[u],
-    If[u===x,
-      w,
-    u],
-  If[FractionalPowerQ[u] && EqQ[u[[1]],v],
-    x^(n*u[[2]]),
-  Map[Function[SubstForFractionalPower[#,v,n,w,x]],u]]]
-
-
-(* SubstForInverseFunction[u,v,w,x] returns u with subexpressions equal to v replaced by x 
-	and x replaced by w. *)
-SubstForInverseFunction[u_,v_,x_Symbol] :=
-(*  Module[{a=Coefficient[v[[1]],0],b=Coefficient[v[[1]],1]},
-  SubstForInverseFunction[u,v,-a/b+InverseFunction[Head[v]]/b,x]] *)
-  SubstForInverseFunction[u,v,
-		(-Coefficient[v[[1]],x,0]+InverseFunction[Head[v]][x])/Coefficient[v[[1]],x,1],x]
-
-SubstForInverseFunction[u_,v_,w_,x_Symbol] :=
-  If[AtomQ[u],
-    If[u===x,
-      w,
-    u],
-  If[Head[u]===Head[v] && EqQ[u[[1]],v[[1]]],
-    x,
-  Map[Function[SubstForInverseFunction[#,v,w,x]],u]]]
-
-
-(* ::Section::Closed:: *)
-(*Absurd number factors*)
-
-
-(* ::Text:: *)
-(*Definition: A number is absurd if it is a rational number, a positive rational number raised to a fractional power, or a product of absurd numbers.*)
-
-
-(* AbsurdNumberQ[u] returns True if u is an absurd number, else it returns False. *)
-AbsurdNumberQ[u_] :=
-  RationalQ[u]
-
-AbsurdNumberQ[u_^v_] :=
-  RationalQ[u] && u>0 && FractionQ[v]
-
-AbsurdNumberQ[u_*v_] :=
-  AbsurdNumberQ[u] && AbsurdNumberQ[v]
-
-
-(* AbsurdNumberFactors[u] returns the product of the factors of u that are absurd numbers. *)
-AbsurdNumberFactors[u_] :=
-  If[AbsurdNumberQ[u],
-    u,
-  If[ProductQ[u],
-    Map[AbsurdNumberFactors,u],
-  NumericFactor[u]]]
-
-
-(* NonabsurdNumberFactors[u] returns the product of the factors of u that are not absurd numbers. *)
-NonabsurdNumberFactors[u_] :=
-  If[AbsurdNumberQ[u],
-    1,
-  If[ProductQ[u],
-    Map[NonabsurdNumberFactors,u],
-  NonnumericFactors[u]]]
-
-
-(* m must be an absurd number.  FactorAbsurdNumber[m] returns the prime factorization of m *) 
-(* as list of base-degree pairs where the bases are prime numbers and the degrees are rational. *)
-FactorAbsurdNumber[m_] :=
-  If[RationalQ[m],
-    FactorInteger[m],
-  If[PowerQ[m],
-    Map[Function[{#[[1]], #[[2]]*m[[2]]}],FactorInteger[m[[1]]]],
-  CombineExponents[Sort[Flatten[Map[FactorAbsurdNumber,Apply[List,m]],1], Function[#1[[1]]<#2[[1]]]]]]]
-
-
-CombineExponents[lst_] :=
-  If[Length[lst]<2,
-    lst,
-  If[lst[[1,1]]==lst[[2,1]],
-    CombineExponents[Prepend[Drop[lst,2],{lst[[1,1]],lst[[1,2]]+lst[[2,2]]}]],
-  Prepend[CombineExponents[Rest[lst]],First[lst]]]]
-
-
-(* m, n, ... must be absurd numbers.  AbsurdNumberGCD[m,n,...] returns the gcd of m, n, ... *) 
-AbsurdNumberGCD[seq__] :=
-  With[{lst={seq}},
-  If[Length[lst]==1,
-    First[lst],
-  AbsurdNumberGCDList[FactorAbsurdNumber[First[lst]],FactorAbsurdNumber[Apply[AbsurdNumberGCD,Rest[lst]]]]]]
-
-
-(* lst1 and lst2 must be absurd number prime factorization lists. *)
-(* AbsurdNumberGCDList[lst1,lst2] returns the gcd of the absurd numbers represented by lst1 and lst2. *) 
-AbsurdNumberGCDList[lst1_,lst2_] :=
-  If[lst1==={},
-    Apply[Times,Map[Function[#[[1]]^Min[#[[2]],0]],lst2]],
-  If[lst2==={},
-    Apply[Times,Map[Function[#[[1]]^Min[#[[2]],0]],lst1]],
-  If[lst1[[1,1]]==lst2[[1,1]],
-    If[lst1[[1,2]]<=lst2[[1,2]],
-      lst1[[1,1]]^lst1[[1,2]]*AbsurdNumberGCDList[Rest[lst1],Rest[lst2]],
-    lst1[[1,1]]^lst2[[1,2]]*AbsurdNumberGCDList[Rest[lst1],Rest[lst2]]],
-  If[lst1[[1,1]]<lst2[[1,1]],
-    If[lst1[[1,2]]<0,
-      lst1[[1,1]]^lst1[[1,2]]*AbsurdNumberGCDList[Rest[lst1],lst2],
-    AbsurdNumberGCDList[Rest[lst1],lst2]],
-  If[lst2[[1,2]]<0,
-    lst2[[1,1]]^lst2[[1,2]]*AbsurdNumberGCDList[lst1,Rest[lst2]],
-  AbsurdNumberGCDList[lst1,Rest[lst2]]]]]]]
-
-
-(* ::Section::Closed:: *)
-(*Normalization functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*NormalizeIntegrand*)
-
-
-(* NormalizeIntegrand[u,x] returns u in a standard form recognizable by integration rules. *) 
-NormalizeIntegrand[u_,x_Symbol] :=
-  With[{v=NormalizeLeadTermSigns[NormalizeIntegrandAux[u,x]]},
-  If[v===NormalizeLeadTermSigns[u],
-    u,
-  v]]
-
-
-(* ::Subsection::Closed:: *)
-(*NormalizeIntegrandAux*)
-
-
-NormalizeIntegrandAux[u_,x_Symbol] :=
-  If[SumQ[u],
-    Map[Function[NormalizeIntegrandAux[#,x]],u],
-  If[ProductQ[MergeMonomials[u,x]],
-    Map[Function[NormalizeIntegrandFactor[#,x]],MergeMonomials[u,x]],
-  NormalizeIntegrandFactor[MergeMonomials[u,x],x]]]
-
-
-NormalizeIntegrandFactor[u_,x_Symbol] :=
-  Module[{bas,deg,min},
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    bas=NormalizeIntegrandFactorBase[u[[1]],x];
-    deg=u[[2]];
-    If[IntegerQ[deg] && SumQ[bas],
-      If[MapAnd[Function[MonomialQ[#,x]],bas],
-        min=MinimumMonomialExponent[bas,x];
-        x^(min*deg)*Map[Function[Simplify[#/x^min]],bas]^deg,
-      bas^deg],
-    bas^deg],
-  If[PowerQ[u] && FreeQ[u[[1]],x],
-    u[[1]]^NormalizeIntegrandFactorBase[u[[2]],x],
-  bas=NormalizeIntegrandFactorBase[u,x];
-  If[SumQ[bas],
-    If[MapAnd[Function[MonomialQ[#,x]],bas],
-      min=MinimumMonomialExponent[bas,x];
-      x^min*Map[Function[#/x^min],bas],
-    bas],
-  bas]]]]
-
-
-NormalizeIntegrandFactorBase[x_^m_.*u_,x_Symbol] :=
-  NormalizeIntegrandFactorBase[Map[Function[x^m*#],u],x] /;
-FreeQ[m,x] && SumQ[u]
-
-
-NormalizeIntegrandFactorBase[u_,x_Symbol] :=
-  If[BinomialQ[u,x],
-    If[BinomialMatchQ[u,x],
-      u,
-    ExpandToSum[u,x]],
-  If[TrinomialQ[u,x],
-    If[TrinomialMatchQ[u,x],
-      u,
-    ExpandToSum[u,x]],
-  If[ProductQ[u],
-    Map[Function[NormalizeIntegrandFactor[#,x]],u],
-  If[PolynomialQ[u,x] && Exponent[u,x]<=4,
-    ExpandToSum[u,x],    
-  If[SumQ[u],
-    With[{v=TogetherSimplify[u]},
-    If[SumQ[v] || MatchQ[v, x^m_.*w_ /; FreeQ[m,x] && SumQ[w]] || LeafCount[v]>LeafCount[u]+2,
-      UnifySum[u,x],
-    NormalizeIntegrandFactorBase[v,x]]],
-  Map[Function[NormalizeIntegrandFactor[#,x]],u]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*NormalizeLeadTermSigns*)
-
-
-NormalizeTogether[u_] :=
-  NormalizeLeadTermSigns[Together[u]]
-
-
-(* NormalizeLeadTermSigns[u] returns an expression equal u but with not more than one sum 
-	factor raised to a integer degree having a lead term with a negative coefficient. *)
-NormalizeLeadTermSigns[u_] :=
-  With[{lst=If[ProductQ[u], Map[SignOfFactor,u], SignOfFactor[u]]},
-  If[lst[[1]]==1,
-    lst[[2]],
-  AbsorbMinusSign[lst[[2]]]]]
-
-
-(* AbsorbMinusSign[u] returns an expression equal to -u.  If there is a factor of u of the 
-	form v^m where v is a sum and m is an odd power, the minus sign is distributed over v;
-	otherwise -u is returned. *)
-AbsorbMinusSign[u_.*v_Plus] :=
-  u*(-v)
-
-AbsorbMinusSign[u_.*v_Plus^m_] :=
-  u*(-v)^m /;
-OddQ[m]
-
-AbsorbMinusSign[u_] :=
-  -u
-
-
-(* ::Subsection::Closed:: *)
-(*NormalizeSumFactors*)
-
-
-(* NormalizeSumFactors[u] returns an expression equal u but with the numeric coefficient of 
-	the lead term of sum factors made positive where possible. *)
-NormalizeSumFactors[u_] :=
-  If[AtomQ[u] || Head[u]===If || Head[u]===Int || HeldFormQ[u],
-    u,
-  If[ProductQ[u],
-    Function[#[[1]]*#[[2]]][SignOfFactor[Map[NormalizeSumFactors,u]]],
-  Map[NormalizeSumFactors,u]]]
-
-
-(* SignOfFactor[u] returns the list {n,v} where n*v equals u, n^2 equals 1, and the lead 
-	term of the sum factors of v raised to integer degrees all have positive coefficients. *)
-SignOfFactor[u_] :=
-  If[RationalQ[u] && u<0 || SumQ[u] && NumericFactor[First[u]]<0,
-    {-1, -u},
-  If[IntegerPowerQ[u] && SumQ[u[[1]]] && NumericFactor[First[u[[1]]]]<0,
-    {(-1)^u[[2]], (-u[[1]])^u[[2]]},
-  If[ProductQ[u],
-    Map[SignOfFactor,u],
-  {1, u}]]]
-
-
-(* ::Subsection::Closed:: *)
-(*NormalizePowerOfLinear*)
-
-
-(* u can be square-free factored into an expression of the form (a+b*x)^m. *)
-(* NormalizePowerOfLinear[u,x] returns u in the form (a+b*x)^m. *)
-NormalizePowerOfLinear[u_,x_Symbol] :=
-  With[{v=FactorSquareFree[u]},
-  If[PowerQ[v] && LinearQ[v[[1]],x] && FreeQ[v[[2]],x],
-    ExpandToSum[v[[1]],x]^v[[2]],
-  ExpandToSum[v,x]]]
-
-
-(* ::Subsection::Closed:: *)
-(*MergeMonomials*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] b c-a d==0, then (a+b z)^m==b^m/d^m (c+d z)^m*)
-
-
-MergeMonomials[u_.*(a_.+b_.*x_)^m_.*(c_.+d_.*x_)^n_.,x_Symbol] :=
-  u*b^m/d^m*(c+d*x)^(m+n) /;
-FreeQ[{a,b,c,d},x] && IntegerQ[m] && EqQ[b*c-a*d,0]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  m/n\[Element]\[DoubleStruckCapitalZ], then z^m (c z^n)^p==(c z^n)^(m/n+p)/c^(m/n)*)
-
-
-MergeMonomials[u_.*(a_.+b_.*x_)^m_.*(c_.*(a_.+b_.*x_)^n_.)^p_,x_Symbol] :=
-  u*(c*(a+b*x)^n)^(m/n+p)/c^(m/n) /;
-FreeQ[{a,b,c,m,n,p},x] && IntegerQ[m/n]
-
-MergeMonomials[u_,x_Symbol] := u
-
-
-(* ::Section::Closed:: *)
-(*Simplification functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*SimplifyIntegrand*)
-
-
-(* SimplifyIntegrand[u,x] simplifies u and returns the result in a standard form recognizable by integration rules. *) 
-SimplifyIntegrand[u_,x_Symbol] :=
-  Module[{v},
-  v=NormalizeLeadTermSigns[NormalizeIntegrandAux[Simplify[u],x]];
-  If[LeafCount[v]<4/5*LeafCount[u],
-    v,
-  If[v=!=NormalizeLeadTermSigns[u],
-    v,
-  u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SimplifyTerm        ????*)
-
-
-(* SimplifyTerm[u_,x_Symbol] :=
-  Module[{v=Simplify[u],w},
-  w=Together[v];
-  NormalizeIntegrand[If[LeafCount[v]<LeafCount[w],v,w],x]] *)
-
-
-SimplifyTerm[u_,x_Symbol] :=
-  Module[{v=Simplify[u],w},
-  w=Together[v];
-  NormalizeIntegrand[If[LeafCount[v]<LeafCount[w],w,w],x]]
-
-
-(* ::Subsection::Closed:: *)
-(*TogetherSimplify*)
-
-
-TogetherSimplify[u_] :=
-  TimeConstrained[
-    With[{v=Together[Simplify[Together[u]]]},
-    TimeConstrained[FixSimplify[v],$TimeLimit/3,v]],
-  $TimeLimit,u]
-
-
-(* TogetherSimplify could replace SmartSimplify, but results in more complicated *)
-(* antiderivatives and would require thousands of changes to test suite. *)
-SmartSimplify[u_] :=
-  TimeConstrained[
-    Module[{v,w},
-    v=Simplify[u];
-    w=Factor[v];
-    v=If[LeafCount[w]<LeafCount[v] (* -1 *),w,v];
-    v=If[Not[FalseQ[w=FractionalPowerOfSquareQ[v]]] && FractionalPowerSubexpressionQ[u,w,Expand[w]],SubstForExpn[v,w,Expand[w]],v];
-    v=FactorNumericGcd[v];
-    TimeConstrained[FixSimplify[v],$TimeLimit/3,v]],
-  $TimeLimit,u]
-
-
-SubstForExpn[u_,v_,w_] :=
-  If[u===v,
-    w,
-  If[AtomQ[u],
-    u,
-  Map[Function[SubstForExpn[#,v,w]],u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*Simp*)
-
-
-Simp[u_,x_] :=
-  TimeConstrained[NormalizeSumFactors[SimpHelp[u,x]],$TimeLimit,u]
-
-
-SimpHelp[E^(u_.*(v_.*Log[a_]+w_)),x_] :=
-  a^(u*v)*SimpHelp[E^(u*w),x]
-
-SimpHelp[u_,x_] :=
-  If[AtomQ[u],
-    u,
-  If[Head[u]===If || Head[u]===Int || HeldFormQ[u],
-    u,
-  If[FreeQ[u,x],
-    With[{v=SmartSimplify[u]},
-    If[LeafCount[v]<=LeafCount[u],
-      v,
-    u]],
-  If[ProductQ[u],
-    If[EqQ[First[u],1/2] && MatchQ[Rest[u],a_.+n_*Pi+b_.*v_ /; FreeQ[{a,b},x] && Not[FreeQ[v,x]] && EqQ[n^2,1/4]],
-      If[MatchQ[Rest[u],n_*Pi+b_.*v_ /; FreeQ[b,x] && Not[FreeQ[v,x]] && EqQ[n^2,1/4]],
-        Map[Function[1/2*#],Rest[u]],
-      If[MatchQ[Rest[u],m_*a_.+n_*Pi+p_*b_.*v_ /; FreeQ[{a,b},x] && Not[FreeQ[v,x]] && IntegersQ[m/2,p/2]],
-        Map[Function[1/2*#],Rest[u]],
-      u]],
-    Module[{v=FreeFactors[u,x],w=NonfreeFactors[u,x]},
-    v=NumericFactor[v]*SmartSimplify[NonnumericFactors[v]*x^2]/x^2;
-    w=If[ProductQ[w], Map[Function[SimpHelp[#,x]],w], SimpHelp[w,x]];
-    w=FactorNumericGcd[w];
-    v=MergeFactors[v,w];
-    If[ProductQ[v],
-      Map[Function[SimpFixFactor[#,x]],v],
-    v]]],
-  If[SumQ[u],
-    If[MatchQ[u,a_.+n_*Pi+b_.*x /; FreeQ[{a,b},x] && EqQ[n^2,1/16]],
-      u,
-    If[PolynomialQ[u,x] && Exponent[u,x]<=0,
-      SimpHelp[Coefficient[u,x,0],x],
-    If[PolynomialQ[u,x] && Exponent[u,x]==1 && Coefficient[u,x,0]===0,
-      SimpHelp[Coefficient[u,x,1],x]*x,
-    Module[{v=0,w=0},
-    Scan[Function[If[FreeQ[#,x],v=#+v,w=#+w]],u];
-    v=SmartSimplify[v];
-    w=If[SumQ[w], Map[Function[SimpHelp[#,x]],w], SimpHelp[w,x]];
-    v+w]]]],
-  If[TrigQ[u],
-    With[{v=SimpHelp[u[[1]],x]},
-    If[LinearQ[v,x] && MatchQ[Coefficient[v,x,0],m_.*(n_.*Pi+r_.)+s_. /; RationalQ[m,n]],
-      NormalizeTrig[Head[u],Coefficient[v,x,0],Coefficient[v,x,1],x],
-    Head[u][v]]],
-  If[HyperbolicQ[u],
-    With[{v=SimpHelp[u[[1]],x]},
-    If[LinearQ[v,x] && MatchQ[Coefficient[v,x,0],m_.*(n_.*Complex[0,nz_]*Pi+r_.)+s_. /; RationalQ[m,n,nz]],
-      NormalizeHyperbolic[Head[u],Coefficient[v,x,0],Coefficient[v,x,1],x],
-    Head[u][v]]],
-  Map[Function[SimpHelp[#,x]],u]]]]]]]]
-
-
-NormalizeTrig[func_,m_.*(n_.*Pi+r_.)+s_.,b_,x_] :=
-  If[m*n==1/4 && NegQ[b],
-    Switch[func,
-	  Sin, Cos[Pi/4-m*r-s-b*x],        (* Sin[Pi/4-z] == Cos[Pi/4+z] *)
-	  Cos, Sin[Pi/4-m*r-s-b*x],        (* Cos[Pi/4-z] == Sin[Pi/4+z] *)
-	  Tan, Cot[Pi/4-m*r-s-b*x],        (* Tan[Pi/4-z] == Cot[Pi/4+z] *)
-	  Cot, Tan[Pi/4-m*r-s-b*x],        (* Cot[Pi/4-z] == Tan[Pi/4+z] *)
-	  Sec, Csc[Pi/4-m*r-s-b*x],        (* Sec[Pi/4-z] == Csc[Pi/4+z] *)
-	  Csc, Sec[Pi/4-m*r-s-b*x]],       (* Csc[Pi/4-z] == Sec[Pi/4+z] *)
-  If[m*n==-1/4,
-    If[PosQ[b],
-      Switch[func,
-	    Sin, -Cos[Pi/4+m*r+s+b*x],     (* Sin[-Pi/4+z] == -Cos[Pi/4+z] *)
-	    Cos, Sin[Pi/4+m*r+s+b*x],      (* Cos[-Pi/4+z] == Sin[Pi/4+z] *)
-	    Tan, -Cot[Pi/4+m*r+s+b*x],     (* Tan[-Pi/4+z] == -Cot[Pi/4+z] *)
-	    Cot, -Tan[Pi/4+m*r+s+b*x],     (* Cot[-Pi/4+z] == -Tan[Pi/4+z] *)
-	    Sec, Csc[Pi/4+m*r+s+b*x],      (* Sec[-Pi/4+z] == Csc[Pi/4+z] *)
-	    Csc, -Sec[Pi/4+m*r+s+b*x]],    (* Csc[-Pi/4+z] == -Sec[Pi/4+z] *)
-    Switch[func,
-	  Sin, -Sin[Pi/4-m*r-s-b*x],       (* Sin[-Pi/4-z] == -Sin[Pi/4+z] *)
-	  Cos, Cos[Pi/4-m*r-s-b*x],        (* Cos[-Pi/4-z] == Cos[Pi/4+z] *)
-	  Tan, -Tan[Pi/4-m*r-s-b*x],       (* Tan[-Pi/4-z] == -Tan[Pi/4+z] *)
-	  Cot, -Cot[Pi/4-m*r-s-b*x],       (* Cot[-Pi/4-z] == -Cot[Pi/4+z] *)
-	  Sec, Sec[Pi/4-m*r-s-b*x],        (* Sec[-Pi/4-z] == Sec[Pi/4+z] *)
-	  Csc, -Csc[Pi/4-m*r-s-b*x]]],     (* Csc[-Pi/4-z] == -Csc[Pi/4+z] *)
-  func[m*n*Pi+m*r+s+b*x]]] /;
-RationalQ[m,n]
-
-
-NormalizeHyperbolic[func_,m_.*(n_.*Complex[0,nz_]*Pi+r_.)+s_.,b_,x_] :=
-  If[m*n*nz==1/4 && NegQ[b],
-    Switch[func,
-	  Sinh, I*Cosh[I*Pi/4-m*r-s-b*x],        (* Sinh[I*Pi/4-z] == I*Cosh[I*Pi/4+z] *)
-	  Cosh, -I*Sinh[I*Pi/4-m*r-s-b*x],       (* Cosh[I*Pi/4-z] == -I*Sinh[I*Pi/4+z] *)
-	  Tanh, -Coth[I*Pi/4-m*r-s-b*x],         (* Tanh[I*Pi/4-z] == -Coth[I*Pi/4+z] *)
-	  Coth, -Tanh[I*Pi/4-m*r-s-b*x],         (* Coth[I*Pi/4-z] == -Tanh[I*Pi/4+z] *)
-	  Sech, I*Csch[I*Pi/4-m*r-s-b*x],        (* Sech[I*Pi/4-z] == I*Csch[I*Pi/4+z] *)
-	  Csch, -I*Sech[I*Pi/4-m*r-s-b*x]],      (* Csch[I*Pi/4-z] == -I*Sech[I*Pi/4+z] *)
-  If[m*n*nz==-1/4,
-    If[PosQ[b],
-      Switch[func,
-	    Sinh, -I*Cosh[I*Pi/4+m*r+s+b*x],     (* Sinh[-I*Pi/4+z] == -I*Cosh[I*Pi/4+z] *)
-	    Cosh, -I*Sinh[I*Pi/4+m*r+s+b*x],     (* Cosh[-I*Pi/4+z] == -I*Sinh[I*Pi/4+z] *)
-	    Tanh, Coth[I*Pi/4+m*r+s+b*x],        (* Tanh[-I*Pi/4+z] == Coth[I*Pi/4+z] *)
-	    Coth, Tanh[I*Pi/4+m*r+s+b*x],        (* Coth[-I*Pi/4+z] == Tanh[I*Pi/4+z] *)
-	    Sech, I*Csch[I*Pi/4+m*r+s+b*x],      (* Sech[-I*Pi/4+z] == I*Csch[I*Pi/4+z] *)
-	    Csch, I*Sech[I*Pi/4+m*r+s+b*x]],     (* Csch[-I*Pi/4+z] == I*Sech[I*Pi/4+z] *)
-    Switch[func,
-	  Sinh, -Sinh[I*Pi/4-m*r-s-b*x],         (* Sinh[-I*Pi/4-z] == -Sinh[I*Pi/4+z] *)
-	  Cosh, Cosh[I*Pi/4-m*r-s-b*x],          (* Cosh[-I*Pi/4-z] == Cosh[I*Pi/4+z] *)
-	  Tanh, -Tanh[I*Pi/4-m*r-s-b*x],         (* Tanh[-I*Pi/4-z] == -Tanh[I*Pi/4+z] *)
-	  Coth, -Coth[I*Pi/4-m*r-s-b*x],         (* Coth[-I*Pi/4-z] == -Coth[I*Pi/4+z] *)
-	  Sech, Sech[I*Pi/4-m*r-s-b*x],          (* Sech[-I*Pi/4-z] == Sech[I*Pi/4+z] *)
-	  Csch, -Csch[I*Pi/4-m*r-s-b*x]]],       (* Csch[-I*Pi/4-z] == -Csch[I*Pi/4+z] *)
-  func[m*n*nz*I*Pi+m*r+s+b*x]]] /;
-RationalQ[m,n,nz]
-
-
-(* ::Subsection::Closed:: *)
-(*FractionalPowerOfSquareQ*)
-
-
-(* If a subexpression of u is of the form ((v+w)^2)^n where n is a fraction, *)
-(* FractionalPowerOfSquareQ[u] returns (v+w)^2; else it returns False. *)
-FractionalPowerOfSquareQ[u_] :=
-  If[AtomQ[u],
-    False,
-  If[FractionalPowerQ[u] && MatchQ[u[[1]], a_.*(b_+c_)^2 /; NonsumQ[a]],
-    u[[1]],
-  Module[{tmp},
-  Catch[
-    Scan[Function[If[Not[FalseQ[tmp=FractionalPowerOfSquareQ[#]]],Throw[tmp]]],u];
-    False]]]]
-
-
-(* If a subexpression of u is of the form w^n where n is a fraction but not equal to v, *)
-(* FractionalPowerSubexpressionQ[u,v,w] returns True; else it returns False. *)
-FractionalPowerSubexpressionQ[u_,v_,w_] :=
-  If[AtomQ[u],
-    False,
-  If[FractionalPowerQ[u] && PositiveQ[u[[1]]/w],
-    Not[u[[1]]===v] && LeafCount[w]<3*LeafCount[v],
-  Catch[Scan[Function[If[FractionalPowerSubexpressionQ[#,v,w],Throw[True]]],u]; False]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FixSimplify*)
-
-
-Clear[FixSimplify]
-
-
-(* ::Item:: *)
-(*Basis: If  n\[Element]\[DoubleStruckCapitalZ], then u I (v I+w)^n==(-1)^((n+1)/2) u (v-I w)^n*)
-
-
-FixSimplify[u_.*Complex[0,a_]*(v_.*Complex[0,b_]+w_)^n_.] :=
-  (-1)^((n+1)/2)*a*u*FixSimplify[(b*v-Complex[0,1]*w)^n] /;
-OddQ[n]
-
-
-(* ::Item:: *)
-(*Basis: If  u>0 \[And] v>0, let g=GCD[m,n], then u^m v^n==((u^(m/g) v^(n/g)))^g*)
-
-
-FixSimplify[w_.*u_^m_.*v_^n_] :=
-  With[{z=Simplify[u^(m/GCD[m,n])*v^(n/GCD[m,n])]},
-  FixSimplify[w*z^GCD[m,n]]/;
- AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
-RationalQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[v] && PositiveQ[u] && PositiveQ[v]
-
-
-FixSimplify[w_.*u_^m_.*v_^n_] :=
-  With[{z=Simplify[u^(m/GCD[m,-n])*v^(n/GCD[m,-n])]},
-  FixSimplify[w*z^GCD[m,-n]]/;
- AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
-RationalQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[1/v] && PositiveQ[u] && PositiveQ[v]
-
-
-(* ::Item:: *)
-(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] u<0 \[And] v>0, then u^m v^n==-(((-u))^(m/n) v)^n*)
-
-
-FixSimplify[w_.*u_^m_.*v_^n_] :=
-  With[{z=Simplify[(-u)^(m/GCD[m,n])*v^(n/GCD[m,n])]},
-  FixSimplify[-w*z^GCD[m,n]]/;
- AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
-IntegerQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[v] && NegativeQ[u] && PositiveQ[v]
-
-
-FixSimplify[w_.*u_^m_.*v_^n_] :=
-  With[{z=Simplify[(-u)^(m/GCD[m,-n])*v^(n/GCD[m,-n])]},
-  FixSimplify[-w*z^GCD[m,-n]]/;
- AbsurdNumberQ[z] || SqrtNumberSumQ[z]] /;
-IntegerQ[m] && FractionQ[n] && SqrtNumberSumQ[u] && SqrtNumberSumQ[1/v] && NegativeQ[u] && PositiveQ[v]
-
-
-(* ::Item:: *)
-(*Basis: If  p\[Element]\[DoubleStruckCapitalZ] \[Or] a>0, then a^m (u+v)^p==(a^(m/p) u+a^(m/p) v)^p*)
-
-
-FixSimplify[w_.*a_^m_*(u_+b_^n_*v_.)^p_.] :=
-  With[{c=Simplify[a^(m/p)*b^n]},
-  FixSimplify[w*(a^(m/p)*u+c*v)^p] /;
- RationalQ[c]] /;
-RationalQ[a,b,m,n] && a>0 && b>0 && PositiveIntegerQ[p]
-
-
-(* ::Item:: *)
-(*Basis: If  p\[Element]\[DoubleStruckCapitalZ], then a^m (a^n u+(-a)^p v)==a^(m+n) (u+(-1)^p a^(p-n) v)*)
-
-
-FixSimplify[w_.*a_^m_.*(a_^n_*u_.+b_^p_.*v_.)] :=
-  FixSimplify[w*a^(m+n)*(u+(-1)^p*a^(p-n)*v)] /;
-RationalQ[m] && FractionQ[n] && IntegerQ[p] && p-n>0 && a+b===0
-
-
-(* ::Item:: *)
-(*Basis: If  m\[Element]\[DoubleStruckCapitalZ] \[And] b c-a d==0, then (a+b)^m==(b/d)^m (c+d)^m*)
-
-
-FixSimplify[w_.*(a_+b_)^m_.*(c_+d_)^n_] :=
-  With[{q=Simplify[b/d]},
-  FixSimplify[w*q^m*(c+d)^(m+n)] /;
- FreeQ[q,Plus]] /;
-IntegerQ[m] && Not[IntegerQ[n]] && EqQ[b*c-a*d,0]
-
-
-(* ::Item:: *)
-(*Basis: If  t\[Element]\[DoubleStruckCapitalZ], then (a^m u+a^n v+...)^t==a^(m t) (u+a^(n-m) v+...)^t*)
-
-
-FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.)^t_.] :=
-  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v)^t] /;
-Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n] && 0<m<=n
-
-FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.+a_^p_.*z_.)^t_.] :=
-  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v+a^(p-m)*z)^t] /;
-Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n,p] && 0<m<=n<=p
-
-FixSimplify[w_.*(a_^m_.*u_.+a_^n_.*v_.+a_^p_.*z_.+a_^q_.*y_.)^t_.] :=
-  FixSimplify[a^(m*t)*w*(u+a^(n-m)*v+a^(p-m)*z+a^(q-m)*y)^t] /;
-Not[RationalQ[a]] && IntegerQ[t] && RationalQ[m,n,p] && 0<m<=n<=p<=q
-
-
-(* ::Item:: *)
-(*Basis: a Sqrt[v]+b Sqrt[v]+...==(a+b+...)Sqrt[v]*)
-
-
-FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_]+c_.*Sqrt[v_]+d_.*Sqrt[v_])] :=
-  FixSimplify[w*(u+FixSimplify[a+b+c+d]*Sqrt[v])]
-
-FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_]+c_.*Sqrt[v_])] :=
-  FixSimplify[w*(u+FixSimplify[a+b+c]*Sqrt[v])]
-
-FixSimplify[w_.*(u_.+a_.*Sqrt[v_Plus]+b_.*Sqrt[v_])] :=
-  FixSimplify[w*(u+FixSimplify[a+b]*Sqrt[v])]
-
-
-(* ::Item:: *)
-(*Basis: If  a>0, then a^(m/4) Sqrt[b(c+d Sqrt[a])]==Sqrt[b(c a^(m/2)+d a^((m+1)/2))]*)
-
-
-(* FixSimplify[u_.*a_^m_*Sqrt[b_.*(c_+d_.*Sqrt[a_])]] :=
-  Sqrt[Together[b*(c*a^(2*m)+d*a^(2*m+1/2))]]*FixSimplify[u] /;
-RationalQ[a,b,c,d,m] && a>0 && Denominator[m]==4
-
-FixSimplify[u_.*a_^m_/Sqrt[b_.*(c_+d_.*Sqrt[a_])]] :=
-  FixSimplify[u]/Sqrt[Together[b*(c/a^(2*m)+d/a^(2*m-1/2))]] /;
-RationalQ[a,b,c,d,m] && a>0 && Denominator[m]==4 *)
-
-
-(* ::Item:: *)
-(*Basis: If  w^-n==v, then v^m w^n==v^(m-1)*)
-
-
-FixSimplify[u_.*v_^m_*w_^n_] :=
-  -FixSimplify[u*v^(m-1)] /;
-RationalQ[m] && Not[RationalQ[w]] && FractionQ[n] && n<0 && EqQ[v+w^(-n),0]
-
-
-(* ::Item:: *)
-(*Basis: If  n\[Element]\[DoubleStruckCapitalZ], then v^m (-v)^n==(-1)^n v^(m+n)*)
-
-
-FixSimplify[u_.*v_^m_*w_^n_.] :=
-  (-1)^(n)*FixSimplify[u*v^(m+n)] /;
-RationalQ[m] && Not[RationalQ[w]] && IntegerQ[n] && EqQ[v+w,0]
-
-
-(* ::Item:: *)
-(*Basis: If  n/p\[Element]\[DoubleStruckCapitalZ], then (-v^p)^m v^n==(-1)^(n/p) (-v^p)^(m+n/p)*)
-
-
-FixSimplify[u_.*(-v_^p_.)^m_*w_^n_.] :=
-  (-1)^(n/p)*FixSimplify[u*(-v^p)^(m+n/p)] /;
-RationalQ[m] && Not[RationalQ[w]] && IntegerQ[n/p] && EqQ[v-w,0]
-
-
-(* ::Item:: *)
-(*Basis: If  (n|n/p)\[Element]\[DoubleStruckCapitalZ], then (-v^p)^m (-v)^n==(-1)^(n+n/p) (-v^p)^(m+n/p)*)
-
-
-FixSimplify[u_.*(-v_^p_.)^m_*w_^n_.] :=
-  (-1)^(n+n/p)*FixSimplify[u*(-v^p)^(m+n/p)] /;
-RationalQ[m] && Not[RationalQ[w]] && IntegersQ[n,n/p] && EqQ[v+w,0]
-
-
-(* ::Item:: *)
-(*Basis: (a-b) (a+b) == a^2-b^2*)
-
-
-FixSimplify[u_.*(a_-b_)^m_.*(a_+b_)^m_.] :=
-  u*(a^2-b^2)^m /;
-IntegerQ[m] && AtomQ[a] && AtomQ[b]
-
-
-FixSimplify[u_.*(c_Symbol*d_Symbol^2-e_Symbol*(b_Symbol*d_Symbol-a_Symbol*e_Symbol))^m_.] :=
-  u*(c*d^2-b*d*e+a*e^2)^m /;
-RationalQ[m] && OrderedQ[{a,b,c,d,e}]
-
-FixSimplify[u_.*(c_Symbol*d_Symbol^2+e_Symbol*(-b_Symbol*d_Symbol+a_Symbol*e_Symbol))^m_.] :=
-  u*(c*d^2-b*d*e+a*e^2)^m /;
-RationalQ[m] && OrderedQ[{a,b,c,d,e}]
-
-FixSimplify[u_.*(-c_Symbol*d_Symbol^2+e_Symbol*(b_Symbol*d_Symbol-a_Symbol*e_Symbol))^m_.] :=
-  (-1)^m*u*(c*d^2-b*d*e+a*e^2)^m /;
-IntegerQ[m] && OrderedQ[{a,b,c,d,e}]
-
-FixSimplify[u_.*(-c_Symbol*d_Symbol^2-e_Symbol*(-b_Symbol*d_Symbol+a_Symbol*e_Symbol))^m_.] :=
-  (-1)^m*u*(c*d^2-b*d*e+a*e^2)^m /;
-RationalQ[m] && OrderedQ[{a,b,c,d,e}]
-
-
-FixSimplify[u_] := u
-
-
-(* ::Subsection::Closed:: *)
-(*SimpFixFactor*)
-
-
-(* SimpFixFactor[(a_.*c_ + b_.*c_)^p_.,x_] :=
-  c^p*SimpFixFactor[(a+b)^p,x] /;
-FreeQ[c,x] && IntegerQ[p] && c^p=!=-1 *)
-
-SimpFixFactor[(a_.*Complex[0,c_] + b_.*Complex[0,d_])^p_.,x_] :=
-  I^p*SimpFixFactor[(a*c+b*d)^p,x] /;
-IntegerQ[p]
-
-SimpFixFactor[(a_.*Complex[0,d_] + b_.*Complex[0,e_]+ c_.*Complex[0,f_])^p_.,x_] :=
-  I^p*SimpFixFactor[(a*d+b*e+c*f)^p,x] /;
-IntegerQ[p]
-
-
-SimpFixFactor[(a_.*c_^r_ + b_.*x_^n_.)^p_.,x_] :=
-  c^(r*p)*SimpFixFactor[(a+b/c^r*x^n)^p,x] /;
-FreeQ[{a,b,c},x] && IntegersQ[n,p] && AtomQ[c] && RationalQ[r] && r<0
-
-SimpFixFactor[(a_. + b_.*c_^r_*x_^n_.)^p_.,x_] :=
-  c^(r*p)*SimpFixFactor[(a/c^r+b*x^n)^p,x] /;
-FreeQ[{a,b,c},x] && IntegersQ[n,p] && AtomQ[c] && RationalQ[r] && r<0
-
-
-SimpFixFactor[(a_.*c_^s_. + b_.*c_^r_.*x_^n_.)^p_.,x_] :=
-  c^(s*p)*SimpFixFactor[(a+b*c^(r-s)*x^n)^p,x] /;
-FreeQ[{a,b,c},x] && IntegersQ[n,p] && RationalQ[s,r] && 0<s<=r && c^(s*p)=!=-1
-
-SimpFixFactor[(a_.*c_^s_. + b_.*c_^r_.*x_^n_.)^p_.,x_] :=
-  c^(r*p)*SimpFixFactor[(a*c^(s-r)+b*x^n)^p,x] /;
-FreeQ[{a,b,c},x] && IntegersQ[n,p] && RationalQ[s,r] && 0<r<s && c^(r*p)=!=-1
-
-SimpFixFactor[u_,x_] := u
-
-
-(* ::Subsection::Closed:: *)
-(*FactorNumericGcd*)
-
-
-(* FactorNumericGcd[u] returns u with the gcd of the numeric coefficients of terms of sums factored out. *)
-FactorNumericGcd[u_] :=
-  If[PowerQ[u] && RationalQ[u[[2]]],
-    FactorNumericGcd[u[[1]]]^u[[2]],
-  If[ProductQ[u],
-    Map[FactorNumericGcd,u],
-  If[SumQ[u],
-    With[{g=Apply[GCD,Map[NumericFactor,Apply[List,u]]]},
-    g*Map[Function[#/g],u]],
-  u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*MergeFactors*)
-
-
-(* MergeFactors[u,v] returns the product of u and v, but with the mergeable factors of u merged into v. *)
-MergeFactors[u_,v_] :=
-  If[ProductQ[u],
-    MergeFactors[Rest[u],MergeFactors[First[u],v]],
-  If[PowerQ[u],
-    If[MergeableFactorQ[u[[1]],u[[2]],v],
-      MergeFactor[u[[1]],u[[2]],v],
-    If[RationalQ[u[[2]]] && u[[2]]<-1 && MergeableFactorQ[u[[1]],-1,v],
-      MergeFactors[u[[1]]^(u[[2]]+1),MergeFactor[u[[1]],-1,v]],
-    u*v]],
-  If[MergeableFactorQ[u,1,v],
-    MergeFactor[u,1,v],
-  u*v]]]
-
-
-(* If MergeableFactorQ[bas,deg,v], MergeFactor[bas,deg,v] return the product of bas^deg and v, 
-	but with bas^deg merged into the factor of v whose base equals bas. *)
-MergeFactor[bas_,deg_,v_] :=
-  If[bas===v,
-    bas^(deg+1),
-  If[PowerQ[v],
-    If[bas===v[[1]],
-      bas^(deg+v[[2]]),
-    MergeFactor[bas,deg/v[[2]],v[[1]]]^v[[2]]],
-  If[ProductQ[v],
-    If[MergeableFactorQ[bas,deg,First[v]],
-      MergeFactor[bas,deg,First[v]]*Rest[v],
-    First[v]*MergeFactor[bas,deg,Rest[v]]],
-  MergeFactor[bas,deg,First[v]] + MergeFactor[bas,deg,Rest[v]]]]]
-
-
-(* MergeableFactorQ[bas,deg,v] returns True iff bas equals the base of a factor of v or bas is a factor of every term of v. *)
-MergeableFactorQ[bas_,deg_,v_] :=
-  If[bas===v,
-    RationalQ[deg+1] && (deg+1>=0 || RationalQ[deg] && deg>0),
-  If[PowerQ[v],
-    If[bas===v[[1]],
-      RationalQ[deg+v[[2]]] && (deg+v[[2]]>=0 || RationalQ[deg] && deg>0),
-    SumQ[v[[1]]] && IntegerQ[v[[2]]] && (Not[IntegerQ[deg]] || IntegerQ[deg/v[[2]]]) && MergeableFactorQ[bas,deg/v[[2]],v[[1]]]],
-  If[ProductQ[v],
-    MergeableFactorQ[bas,deg,First[v]] || MergeableFactorQ[bas,deg,Rest[v]],
-  SumQ[v] && MergeableFactorQ[bas,deg,First[v]] && MergeableFactorQ[bas,deg,Rest[v]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TrigSimplify*)
-
-
-(* TrigSimplifyQ[u] returns True if TrigSimplify[u] actually simplifies u; else False. *)
-TrigSimplifyQ[u_] :=
-  ActivateTrig[u]=!=TrigSimplify[u]
-
-
-(* TrigSimplify[u] returns a bottom-up trig simplification of u. *)
-TrigSimplify[u_] :=
-  ActivateTrig[TrigSimplifyRecur[u]]
-
-
-TrigSimplifyRecur[u_] :=
-  If[AtomQ[u],
-    u,
-  If[Head[u]===If,
-    u,
-  TrigSimplifyAux[Map[TrigSimplifyRecur,u]]]]
-
-Clear[TrigSimplifyAux]
-
-
-(* Basis: a*z^m+b*z^n == z^m*(a+b*z^(n-m)) *)
-TrigSimplifyAux[u_.*(a_.*v_^m_.+b_.*v_^n_.)^p_] :=
-  u*v^(m*p)*TrigSimplifyAux[a+b*v^(n-m)]^p /;
-InertTrigQ[v] && IntegerQ[p] && RationalQ[m,n] && m<n
-
-
-(* ::Subsubsection:: *)
-(*Basis: Sin[z]^2+Cos[z]^2==1*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: Sec[z]^2-Tan[z]^2==1*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: Csc[z]^2-Cot[z]^2==1*)
-
-
-TrigSimplifyAux[a_.*cos[u_]^2+b_.*sin[u_]^2+v_.] := a+v /; a===b
-
-TrigSimplifyAux[a_.*sec[u_]^2+b_.*tan[u_]^2+v_.] := a+v /; a===-b
-
-TrigSimplifyAux[a_.*csc[u_]^2+b_.*cot[u_]^2+v_.] := a+v /; a===-b
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: a Cos[z]^2==a-a Sin[z]^2*)
-
-
-TrigSimplifyAux[(a_.*cos[u_]^2+b_.*sin[u_]^2+v_.)^n_] := 
-  ((b-a)*Sin[u]^2+a+v)^n
-
-
-(* Basis: 1-Sin[z]^2 == Cos[z]^2 *)
-TrigSimplifyAux[u_+v_.*sin[z_]^2+w_.] := u*Cos[z]^2+w /; u===-v
-
-(* Basis: 1-Cos[z]^2 == Sin[z]^2 *)
-TrigSimplifyAux[u_+v_.*cos[z_]^2+w_.] := u*Sin[z]^2+w /; u===-v
-
-(* Basis: 1+Tan[z]^2 == Sec[z]^2 *)
-TrigSimplifyAux[u_+v_.*tan[z_]^2+w_.] := u*Sec[z]^2+w /; u===v
-
-(* Basis: 1+Cot[z]^2 == Csc[z]^2 *)
-TrigSimplifyAux[u_+v_.*cot[z_]^2+w_.] := u*Csc[z]^2+w /; u===v
-
-(* Basis: -1+Sec[z]^2 == Tan[z]^2 *)
-TrigSimplifyAux[u_+v_.*sec[z_]^2+w_.] := v*Tan[z]^2+w /; u===-v
-
-(* Basis: -1+Csc[z]^2 == Cot[z]^2 *)
-TrigSimplifyAux[u_+v_.*csc[z_]^2+w_.] := v*Cot[z]^2+w /; u===-v
-
-
-(* Basis: If a^2-b^2==0, Sin[z]^2/(a+b*Cos[z]) == 1/a-Cos[z]/b *)
-TrigSimplifyAux[u_.*sin[v_]^2/(a_+b_.*cos[v_])] := u*(1/a - Cos[v]/b) /; EqQ[a^2-b^2,0]
-
-(* Basis: If a^2-b^2==0, Cos[z]^2/(a+b*Sin[z]) == 1/a-Sin[z]/b *)
-TrigSimplifyAux[u_.*cos[v_]^2/(a_+b_.*sin[v_])] := u*(1/a - Sin[v]/b) /; EqQ[a^2-b^2,0]
-
-
-(* Basis: If n is an integer, Tan[z]^n/(a+b*Tan[z]^n) == 1/(b+a*Cot[z]^n) *)
-TrigSimplifyAux[u_.*tan[v_]^n_./(a_+b_.*tan[v_]^n_.)] := u/(b+a*Cot[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-(* Basis: If n is an integer, Cot[z]^n/(a+b*Cot[z]^n) == 1/(b+a*Tan[z]^n) *)
-TrigSimplifyAux[u_.*cot[v_]^n_./(a_+b_.*cot[v_]^n_.)] := u/(b+a*Tan[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-(* Basis: If n is an integer, Sec[z]^n/(a+b*Sec[z]^n) == 1/(b+a*Cos[z]^n) *)
-TrigSimplifyAux[u_.*sec[v_]^n_./(a_+b_.*sec[v_]^n_.)] := u/(b+a*Cos[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-(* Basis: If n is an integer, Csc[z]^n/(a+b*Csc[z]^n) == 1/(b+a*Sin[z]^n) *)
-TrigSimplifyAux[u_.*csc[v_]^n_./(a_+b_.*csc[v_]^n_.)] := u/(b+a*Sin[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-
-(* Basis: If n is an integer, Tan[z]^n/(a+b*Sec[z]^n) == Sin[z]^n/(b+a*Cos[z]^n) *)
-TrigSimplifyAux[u_.*tan[v_]^n_./(a_+b_.*sec[v_]^n_.)] := u*Sin[v]^n/(b+a*Cos[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-(* Basis: If n is an integer, Cot[z]^n/(a+b*Csc[z]^n) == Cos[z]^n/(b+a*Sin[z]^n) *)
-TrigSimplifyAux[u_.*cot[v_]^n_./(a_+b_.*csc[v_]^n_.)] := u*Cos[v]^n/(b+a*Sin[v]^n) /; PositiveIntegerQ[n] && NonsumQ[a]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: a Sec[z]+b Tan[z]==Sec[z](a+b Sin[z])*)
-
-
-TrigSimplifyAux[u_.*(a_.*sec[v_]^n_.+b_.*tan[v_]^n_.)^p_.] :=
-  u*Sec[v]^(n*p)*(a+b*Sin[v]^n)^p /;
-IntegersQ[n,p]
-
-TrigSimplifyAux[u_.*(a_.*csc[v_]^n_.+b_.*cot[v_]^n_.)^p_.] :=
-  u*Csc[v]^(n*p)*(a+b*Cos[v]^n)^p /;
-IntegersQ[n,p]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: a Tan[z]+b Sin[z]==Tan[z](a+b Cos[z])*)
-
-
-TrigSimplifyAux[u_.*(a_.*tan[v_]^n_.+b_.*sin[v_]^n_.)^p_.] :=
-  u*Tan[v]^(n*p)*(a+b*Cos[v]^n)^p /;
-IntegersQ[n,p]
-
-TrigSimplifyAux[u_.*(a_.*cot[v_]^n_.+b_.*cos[v_]^n_.)^p_.] :=
-  u*Cot[v]^(n*p)*(a+b*Sin[v]^n)^p /;
-IntegersQ[n,p]
-
-
-(* ::Subsubsection:: *)
-(*Basis: a+b Tan[z]+c Sec[z]==(c+b Sin[z]+a Cos[z])/Cos[z]*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: a+b Tan[z]+c Sec[z]==Sec[z] (c+b Sin[z]+a Cos[z])*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: a+b Cot[z]+c Csc[z]==(c+b Cos[z]+a Sin[z])/Sin[z]*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: a+b Cot[z]+c Csc[z]==Csc[z] (c+b Cos[z]+a Sin[z])*)
-
-
-TrigSimplifyAux[u_.*cos[v_]^m_.*(a_.+b_.*tan[v_]^n_.+c_.*sec[v_]^n_.)^p_.] :=
-  u*Cos[v]^(m-n*p)*(c+b*Sin[v]^n+a*Cos[v]^n)^p /;
-IntegersQ[m,n,p]
-
-TrigSimplifyAux[u_.*sec[v_]^m_.*(a_.+b_.*tan[v_]^n_.+c_.*sec[v_]^n_.)^p_.] :=
-  u*Sec[v]^(m+n*p)*(c+b*Sin[v]^n+a*Cos[v]^n)^p /;
-IntegersQ[m,n,p]
-
-TrigSimplifyAux[u_.*sin[v_]^m_.*(a_.+b_.*cot[v_]^n_.+c_.*csc[v_]^n_.)^p_.] :=
-  u*Sin[v]^(m-n*p)*(c+b*Cos[v]^n+a*Sin[v]^n)^p /;
-IntegersQ[m,n,p]
-
-TrigSimplifyAux[u_.*csc[v_]^m_.*(a_.+b_.*cot[v_]^n_.+c_.*csc[v_]^n_.)^p_.] :=
-  u*Csc[v]^(m+n*p)*(c+b*Cos[v]^n+a*Sin[v]^n)^p /;
-IntegersQ[m,n,p]
-
-
-(* ::Subsubsection:: *)
-(*Basis: If n\[Element]\[DoubleStruckCapitalZ], then  a Csc[z]^m+b Sin[z]^n==(a+b Sin[z]^(m+n))/Sin[z]^m*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If n\[Element]\[DoubleStruckCapitalZ], then  a Sec[z]^m+b Cos[z]^n==(a+b Cos[z]^(m+n))/Cos[z]^m*)
-
-
-TrigSimplifyAux[u_.*(a_.*csc[v_]^m_.+b_.*sin[v_]^n_.)^p_.] :=
-  If[EqQ[m+n-2,0] && EqQ[a+b,0],
-    u*(a*Cos[v]^2/Sin[v]^m)^p,
-  u*((a+b*Sin[v]^(m+n))/Sin[v]^m)^p] /;
-IntegersQ[m,n]
-
-TrigSimplifyAux[u_.*(a_.*sec[v_]^m_.+b_.*cos[v_]^n_.)^p_.] :=
-  If[EqQ[m+n-2,0] && EqQ[a+b,0],
-    u*(a*Sin[v]^2/Cos[v]^m)^p,
-  u*((a+b*Cos[v]^(m+n))/Cos[v]^m)^p] /;
-IntegersQ[m,n]
-
-
-(* (* Basis: Csc[z]+Cot[z] == Cot[z/2] *)
-TrigSimplifyAux[(a_.*csc[v_]+b_.*cot[v_])^n_] := a^n*Cot[v/2]^n /; EvenQ[n] && EqQ[a-b,0]
-
-(* Basis: Csc[z]-Cot[z] == Tan[z/2] *)
-TrigSimplifyAux[(a_.*csc[v_]+b_.*cot[v_])^n_] := a^n*Tan[v/2]^n /; EvenQ[n] && EqQ[a+b,0] *)
-
-
-(* (* Basis: Sin[z]*(a+b*Cot[z]) == a*Sin[z] + b*Cos[z] *)
-(* TrigSimplifyAux[u_*sin[v_]^m_.*(a_.+b_.*cot[v_]^2)^p_.] :=
-  u*(b*Cos[v]^2+a*Sin[v]^2)^p /;
-IntegersQ[m,p] && m==2*p *)
-
-(* Basis: a+b*Cot[z] == (b*Cos[z]+a*Sin[z])/Sin[z] *)
-TrigSimplifyAux[u_.*sin[v_]^m_.*(a_.+b_.*cot[v_]^n_.)^p_.] :=
-  u*Sin[v]^(m-n*p)*(b*Cos[v]^n+a*Sin[v]^n)^p /;
-IntegersQ[m,n,p]
-
-(* Basis: Cos[z]*(a+b*Tan[z]) == a*Cos[z] + b*Sin[z] *)
-(* TrigSimplifyAux[u_*cos[v_]^m_.*(a_.+b_.*tan[v_]^2)^p_.] :=
-  u*(b*Sin[v]^2+a*Cos[v]^2)^p /;
-IntegersQ[m,p] && m==2*p *)
-
-(* Basis: a+b*Tan[z] == (b*Sin[z]+a*Cos[z])/Cos[z] *)
-TrigSimplifyAux[u_.*cos[v_]^m_.*(a_.+b_.*tan[v_]^n_.)^p_.] :=
-  u*Cos[v]^(m-n*p)*(b*Sin[v]^n+a*Cos[v]^n)^p /;
-IntegersQ[m,n,p]
-
-(* Basis: (a+b*Tan[z])/Sec[z] == a*Cos[z] + b*Sin[z] *)
-TrigSimplifyAux[u_*sec[v_]^m_.*(a_.+b_.*tan[v_]^2)^p_.] :=
-  u*(b*Sin[v]^2+a*Cos[v]^2)^p /;
-IntegersQ[m,p] && m+2*p==0
-
-(* Basis: (a+b*Cot[z])/Csc[z] == a*Sin[z] + b*Cos[z] *)
-TrigSimplifyAux[u_*csc[v_]^m_.*(a_.+b_.*cot[v_]^2)^p_.] :=
-  u*(b*Cos[v]^2+a*Sin[v]^2)^p /;
-IntegersQ[m,p] && m+2*p==0 *)
-
-
-(* (* Basis: If n is an integer, Sin[z]^(-n)*(a*Cos[z]^n+b*Sin[z]^n) == b+a*Cot[z]^n *)
-TrigSimplifyAux[sin[v_]^m_.*(a_.*cos[v_]^n_.+b_.*sin[v_]^n_.)^p_] :=
-  (b+a*Cot[v]^n)^p /;
-IntegersQ[m,n,p] && n>0 && p<0 && m==-n*p
-
-(* Basis: If n is an integer, Cos[z]^(-n)*(a*Cos[z]^n+b*Sin[z]^n) == a+b*Tan[z]^n *)
-TrigSimplifyAux[cos[v_]^m_.*(a_.*cos[v_]^n_.+b_.*sin[v_]^n_.)^p_] :=
-  (a+b*Tan[v]^n)^p /;
-IntegersQ[m,n,p] && n>0 && p<0 && m==-n*p *)
-
-
-(* (* Basis: If a^2+b^2=0, 1/(a*Cos[z] + b*Sin[z]) == Cos[z]/a + Sin[z]/b *)
-TrigSimplifyAux[(a_.*cos[v_]+b_.*sin[v_])^n_] :=
-  (Cos[v]/a + Sin[v]/b)^(-n) /;
-IntegerQ[n] && n<0 && EqQ[a^2+b^2,0] *)
-
-
-TrigSimplifyAux[u_] := u
-
-
-(* ::Section::Closed:: *)
-(*Factoring functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*ContentFactor*)
-
-
-(* ContentFactor[expn] returns expn with the content of sum factors factored out. *)
-(* Basis: a*b+a*c == a*(b+c) *)
-ContentFactor[expn_] :=
-  TimeConstrained[ContentFactorAux[expn],$TimeLimit,expn];
-
-ContentFactorAux[expn_] :=
-  If[AtomQ[expn],
-    expn,
-  If[IntegerPowerQ[expn],
-    If[SumQ[expn[[1]]] && NumericFactor[expn[[1,1]]]<0,
-      (-1)^expn[[2]] * ContentFactorAux[-expn[[1]]]^expn[[2]],
-    ContentFactorAux[expn[[1]]]^expn[[2]]],
-  If[ProductQ[expn],
-    Module[{num=1,tmp},
-    tmp=Map[Function[If[SumQ[#] && NumericFactor[#[[1]]]<0, num=-num; ContentFactorAux[-#], ContentFactorAux[#]]], expn];
-    num*UnifyNegativeBaseFactors[tmp]],
-  If[SumQ[expn],
-    With[{lst=CommonFactors[Apply[List,expn]]},
-    If[lst[[1]]===1 || lst[[1]]===-1,
-      expn,
-    lst[[1]]*Apply[Plus,Rest[lst]]]],
-  expn]]]]
-
-
-(* UnifyNegativeBaseFactors[u] returns u with factors of the form (-v)^m and v^n where n is an integer replaced with (-1)^n*(-v)^(m+n). *)
-(* This should be done automatically by the host CAS! *)
-UnifyNegativeBaseFactors[u_.*(-v_)^m_*v_^n_.] :=
-  UnifyNegativeBaseFactors[(-1)^n*u*(-v)^(m+n)] /;
-IntegerQ[n]
-
-UnifyNegativeBaseFactors[u_] :=
-  u
-
-
-(* If lst is a list of n terms, CommonFactors[lst] returns a n+1-element list whose first
-	element is the product of the factors common to all terms of lst, and whose remaining
-	elements are quotients of each term divided by the common factor. *)
-CommonFactors [lst_] :=
-  Module[{lst1,lst2,lst3,lst4,common,base,num},
-  lst1=Map[NonabsurdNumberFactors,lst];
-  lst2=Map[AbsurdNumberFactors,lst];
-  num=Apply[AbsurdNumberGCD,lst2];
-  common=num;
-  lst2=Map[Function[#/num],lst2];
-  While[True,
-    lst3=Map[LeadFactor,lst1];
-    ( If[Apply[SameQ,lst3],
-        common=common*lst3[[1]];
-        lst1=Map[RemainingFactors,lst1],
-      If[MapAnd[Function[LogQ[#] && IntegerQ[First[#]] && First[#]>0],lst3] &&
-           MapAnd[RationalQ,lst4=Map[Function[FullSimplify[#/First[lst3]]],lst3]],
-        num=Apply[GCD,lst4];
-        common=common*Log[(First[lst3][[1]])^num];
-        lst2=Map2[Function[#1*#2/num],lst2,lst4];
-        lst1=Map[RemainingFactors,lst1],
-      lst4=Map[LeadDegree,lst1];
-      If[Apply[SameQ,Map[LeadBase,lst1]] && MapAnd[RationalQ,lst4],
-        num=Smallest[lst4];
-        base=LeadBase[lst1[[1]]];
-        ( If[num!=0,
-            common=common*base^num] );
-        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
-        lst1=Map[RemainingFactors,lst1],
-      If[Length[lst1]==2 && EqQ[LeadBase[lst1[[1]]]+LeadBase[lst1[[2]]],0] && 
-         NeQ[lst1[[1]],1] && IntegerQ[lst4[[1]]] && FractionQ[lst4[[2]]],
-        num=Min[lst4];
-        base=LeadBase[lst1[[2]]];
-        ( If[num!=0,
-            common=common*base^num] );
-        lst2={lst2[[1]]*(-1)^lst4[[1]],lst2[[2]]};
-        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
-        lst1=Map[RemainingFactors,lst1],
-      If[Length[lst1]==2 && EqQ[LeadBase[lst1[[1]]]+LeadBase[lst1[[2]]],0] && 
-         NeQ[lst1[[2]],1] && IntegerQ[lst4[[2]]] && FractionQ[lst4[[1]]],
-        num=Min[lst4];
-        base=LeadBase[lst1[[1]]];
-        ( If[num!=0,
-            common=common*base^num] );
-        lst2={lst2[[1]],lst2[[2]]*(-1)^lst4[[2]]};
-        lst2=Map2[Function[#1*base^(#2-num)],lst2,lst4];
-        lst1=Map[RemainingFactors,lst1],
-      num=MostMainFactorPosition[lst3];
-      lst2=ReplacePart[lst2,lst3[[num]]*lst2[[num]],num];      
-      lst1=ReplacePart[lst1,RemainingFactors[lst1[[num]]],num]]]]]] );
-    If[MapAnd[Function[#===1],lst1],
-      Return[Prepend[lst2,common]]]]]
-
-
-MostMainFactorPosition[lst_List] :=
-  Module[{factor=1,num=1,i},
-  Do[If[FactorOrder[lst[[i]],factor]>0,factor=lst[[i]];num=i],{i,Length[lst]}];
-  num]
-
-
-FactorOrder[u_,v_] :=
-  If[u===1,
-    If[v===1,
-      0,
-    -1],
-  If[v===1,
-    1,
-  Order[u,v]]]
-
-
-Smallest[num1_,num2_] :=
-  If[num1>0,
-    If[num2>0,
-      Min[num1,num2],
-    0],
-  If[num2>0,
-    0,
-  Max[num1,num2]]]
-
-Smallest[lst_List] :=
-  Module[{num=lst[[1]]},
-  Scan[Function[num=Smallest[num,#]],Rest[lst]];
-  num]
-
-
-(* ::Subsection::Closed:: *)
-(*MonomialFactor*)
-
-
-(* MonomialFactor[u,x] returns the list {n,v} where x^n*v==u and n is free of x. *)
-MonomialFactor[u_,x_Symbol] :=
-  If[AtomQ[u],
-    If[u===x,
-      {1,1},
-    {0,u}],
-  If[PowerQ[u],
-    If[IntegerQ[u[[2]]],
-      With[{lst=MonomialFactor[u[[1]],x]},
-      {lst[[1]]*u[[2]],lst[[2]]^u[[2]]}],
-    If[u[[1]]===x && FreeQ[u[[2]],x],
-      {u[[2]],1},
-    {0,u}]],
-  If[ProductQ[u],
-    With[{lst1=MonomialFactor[First[u],x],lst2=MonomialFactor[Rest[u],x]},
-    {lst1[[1]]+lst2[[1]],lst1[[2]]*lst2[[2]]}],
-  If[SumQ[u],
-    Module[{lst,deg},
-    lst=Map[Function[MonomialFactor[#,x]],Apply[List,u]];
-    deg=lst[[1,1]];
-    Scan[Function[deg=MinimumDegree[deg,#[[1]]]],Rest[lst]];
-    If[EqQ[deg,0] || RationalQ[deg] && deg<0,
-      {0,u},
-    {deg,Apply[Plus,Map[Function[x^(#[[1]]-deg)*#[[2]]],lst]]}]],
-  {0,u}]]]]
-
-
-MinimumDegree[deg1_,deg2_] :=
-  If[RationalQ[deg1],
-    If[RationalQ[deg2],
-      Min[deg1,deg2],
-    deg1],
-  If[RationalQ[deg2],
-    deg2,
-  With[{deg=Simplify[deg1-deg2]},
-  If[RationalQ[deg],
-    If[deg>0,
-      deg2,
-    deg1],
-  If[OrderedQ[{deg1,deg2}],
-    deg1,
-  deg2]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ConstantFactor*)
-
-
-(* ConstantFactor[u,x] returns a 2-element list of the factors of u[x] free of x and the 
-	factors not free of u[x].  Common constant factors of the terms of sums are also collected. *)
-ConstantFactor[u_,x_Symbol] :=
-  If[FreeQ[u,x],
-    {u,1},
-  If[AtomQ[u],
-    {1,u},
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    Module[{lst=ConstantFactor[u[[1]],x],tmp},
-    If[IntegerQ[u[[2]]],
-      {lst[[1]]^u[[2]],lst[[2]]^u[[2]]},
-    tmp=PositiveFactors[lst[[1]]];
-    If[tmp===1,
-      {1,u},
-    {tmp^u[[2]],(NonpositiveFactors[lst[[1]]]*lst[[2]])^u[[2]]}]]],
-  If[ProductQ[u],
-    With[{lst=Map[Function[ConstantFactor[#,x]],Apply[List,u]]},
-    {Apply[Times,Map[First,lst]],Apply[Times,Map[Function[#[[2]]],lst]]}],
-  If[SumQ[u],
-    With[{lst1=Map[Function[ConstantFactor[#,x]],Apply[List,u]]},
-    If[Apply[SameQ,Map[Function[#[[2]]],lst1]],
-      {Apply[Plus,Map[First,lst1]],lst1[[1,2]]},
-    With[{lst2=CommonFactors[Map[First,lst1]]},
-    {First[lst2],Apply[Plus,Map2[Times,Rest[lst2],Map[Function[#[[2]]],lst1]]]}]]],
-  {1,u}]]]]]
-
-
-(* PositiveFactors[u] returns the positive factors of u *)
-PositiveFactors[u_] :=
-  If[EqQ[u,0],
-    1,
-  If[RationalQ[u],
-    Abs[u],
-  If[PositiveQ[u],
-    u,
-  If[ProductQ[u],
-    Map[PositiveFactors,u],
-  1]]]]
-
-
-(* NonpositiveFactors[u] returns the nonpositive factors of u *)
-NonpositiveFactors[u_] :=
-  If[EqQ[u,0],
-    u,
-  If[RationalQ[u],
-    Sign[u],
-  If[PositiveQ[u],
-    1,
-  If[ProductQ[u],
-    Map[NonpositiveFactors,u],
-  u]]]]
-
-
-(* ::Section::Closed:: *)
-(*Generalized polynomial functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*PolynomialInQ*)
-
-
-(* ::Item:: *)
-(*If u is a polynomial in v[x], PolynomialInQ[u,v,x] returns True; else it returns False.*)
-
-
-PolynomialInQ[u_,v_,x_Symbol] :=
-  PolynomialInAuxQ[u,NonfreeFactors[NonfreeTerms[v,x],x],x]
-
-
-PolynomialInAuxQ[u_,v_,x_] :=
-  If[u===v,
-    True,
-  If[AtomQ[u],
-    u=!=x,
-  If[PowerQ[u],
-    If[PowerQ[v] && u[[1]]===v[[1]],
-      PositiveIntegerQ[u[[2]]/v[[2]]],
-    PositiveIntegerQ[u[[2]]] && PolynomialInAuxQ[u[[1]],v,x]],
-  If[SumQ[u] || ProductQ[u],
-    Catch[Scan[Function[If[Not[PolynomialInAuxQ[#,v,x]],Throw[False]]],u];True],
-  False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExponentIn*)
-
-
-(* ::Item:: *)
-(*If u[v] is a polynomial in w, GeneralizedExponent[u,v,x] returns the degree of the u[x].*)
-
-
-ExponentIn[u_,v_,x_Symbol] :=
-  ExponentInAux[u,NonfreeFactors[NonfreeTerms[v,x],x],x]
-
-
-ExponentInAux[u_,v_,x_] :=
-  If[u===v,
-    1,
-  If[AtomQ[u],
-    0,
-  If[PowerQ[u],
-    If[PowerQ[v] && u[[1]]===v[[1]],
-      u[[2]]/v[[2]],
-    u[[2]]*ExponentInAux[u[[1]],v,x]],
-  If[ProductQ[u],
-    Apply[Plus,Map[Function[ExponentInAux[#,v,x]],Apply[List,u]]],
-  Apply[Max,Map[Function[ExponentInAux[#,v,x]],Apply[List,u]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PolynomialInSubst*)
-
-
-(* ::Item:: *)
-(*If u is a polynomial in v[x], PolynomialInSubst[u,v,x] returns the polynomial u in x.*)
-
-
-PolynomialInSubst[u_,v_,x_Symbol] :=
-  With[{w=NonfreeTerms[v,x]},
-  ReplaceAll[PolynomialInSubstAux[u,NonfreeFactors[w,x],x],{x->(x-FreeTerms[v,x])/FreeFactors[w,x]}]]
-
-
-PolynomialInSubstAux[u_,v_,x_] :=
-  If[u===v,
-    x,
-  If[AtomQ[u],
-    u,
-  If[PowerQ[u],
-    If[PowerQ[v] && u[[1]]===v[[1]],
-      x^(u[[2]]/v[[2]]),
-    PolynomialInSubstAux[u[[1]],v,x]^u[[2]]],
-  Map[Function[PolynomialInSubstAux[#,v,x]],u]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PolynomialDivide*)
-
-
-(* ::Item:: *)
-(*u and v are polynomials in x.  PolynomialDivide[u,v,x] returns the polynomial quotient of u and v plus the polynomial remainder divided by v.*)
-
-
-PolynomialDivide[u_,v_,x_Symbol] :=
-  Module[{quo=PolynomialQuotient[u,v,x],rem=PolynomialRemainder[u,v,x],free,monomial},
-  quo=Apply[Plus,Map[Function[Simp[Together[Coefficient[quo,x,#]*x^#],x]],Exponent[quo,x,List]]];
-  rem=Together[rem];
-  free=FreeFactors[rem,x];
-  rem=NonfreeFactors[rem,x];
-  monomial=x^Exponent[rem,x,Min];
-  If[NegQ[Coefficient[rem,x,0]], monomial=-monomial];
-  rem=Apply[Plus,Map[Function[Simp[Together[Coefficient[rem,x,#]*x^#/monomial],x]],Exponent[rem,x,List]]];
-(*rem=Simplify[rem]; *)
-  If[BinomialQ[v,x],
-    quo+free*monomial*rem/ExpandToSum[v,x],
-  quo+free*monomial*rem/v]]
-
-
-(* ::Item:: *)
-(*u[w] and v[w] are polynomials in w.  PolynomialDivide[u,v,w,x] returns the polynomial quotient of u[x] and v[x] plus the polynomial remainder divided by v[x] with x replaced by w.*)
-
-
-PolynomialDivide[u_,v_,w_,x_Symbol] :=
-  ReplaceAll[PolynomialDivide[PolynomialInSubst[u,w,x],PolynomialInSubst[v,w,x],x],{x->w}]
-
-
-(* ::Section::Closed:: *)
-(*Expansion functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandToSum[u,x]*)
-
-
-(* ::Item:: *)
-(*ExpandToSum[u,v,x] returns v expanded into a sum of monomials of x and distributes u over v.*)
-
-
-ExpandToSum[u_,v_,x_Symbol] :=
-  Module[{w=ExpandToSum[v,x],r},
-  r=NonfreeTerms[w,x];
-  If[SumQ[r],
-    u*FreeTerms[w,x]+Map[Function[MergeMonomials[u*#,x]],r],
-  u*FreeTerms[w,x]+MergeMonomials[u*r,x]]]
-
-
-(* ::Item:: *)
-(*ExpandToSum[u,x] returns u expanded into a sum of monomials of x.*)
-
-
-ExpandToSum[u_,x_Symbol] :=
-  If[PolyQ[u,x],
-    Apply[Plus,Map[Function[Coeff[u,x,#]*x^#], Expon[u,x,List]]],
-  If[BinomialQ[u,x],
-    Function[#[[1]] + #[[2]]*x^#[[3]]][BinomialParts[u,x]],
-  If[TrinomialQ[u,x],
-    Function[#[[1]] + #[[2]]*x^#[[4]] + #[[3]]*x^(2*#[[4]])][TrinomialParts[u,x]],
-  If[GeneralizedBinomialQ[u,x],
-    Function[#[[1]]*x^#[[4]] + #[[2]]*x^#[[3]]][GeneralizedBinomialParts[u,x]],
-  If[GeneralizedTrinomialQ[u,x],
-    Function[#[[1]]*x^#[[5]] + #[[2]]*x^#[[4]] + #[[3]]*x^(2*#[[4]]-#[[5]])][GeneralizedTrinomialParts[u,x]],
-  Print["Warning: Unrecognized expression for expansion ",u];
-  Expand[u,x]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandTrig[u,x]*)
-
-
-ExpandTrig[u_,x_Symbol] :=
-  ActivateTrig[ExpandIntegrand[u,x]]
-
-ExpandTrig[u_,v_,x_Symbol] :=
-  With[{w=ExpandTrig[v,x],z=ActivateTrig[u]},
-  If[SumQ[w],
-    Map[Function[z*#],w],
-  z*w]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandIntegrand[u,x]*)
-
-
-Clear[ExpandIntegrand];
-
-ExpandIntegrand[u_,v_,x_Symbol] :=
-  Module[{w=ExpandIntegrand[v,x],r},
-  r=NonfreeTerms[w,x];
-  If[SumQ[r],
-    u*FreeTerms[w,x]+Map[Function[MergeMonomials[u*#,x]],r],
-  u*FreeTerms[w,x]+MergeMonomials[u*r,x]]]
-
-
-(* ExpandIntegrand[u_,x_Symbol] :=
-  With[{nn=FunctionOfPower[u,x]},
-  ReplaceAll[ExpandIntegrand[SubstFor[x^nn,u,x],x],x->x^nn] /;
- nn!=1] *)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: (a+b x)^m/(c+d x)==(b (a+b x)^(m-1))/d+((a d-b c) (a+b x)^(m-1))/(d (c+d x))*)
-
-
-ExpandIntegrand[(a_.+b_.*x_)^m_.*f_^(e_.*(c_.+d_.*x_)^n_.)/(g_.+h_.*x_),x_Symbol] :=
-  With[{tmp=a*h-b*g},
-  Module[{k},
-  SimplifyTerm[tmp^m/h^m,x]*f^(e*(c+d*x)^n)/(g+h*x) + 
-	Sum[SimplifyTerm[b*tmp^(k-1)/h^k,x]*f^(e*(c+d*x)^n)*(a+b*x)^(m-k),{k,1,m}]]] /;
-FreeQ[{a,b,c,d,e,f,g,h},x] && PositiveIntegerQ[m] && EqQ[b*c-a*d,0]
-
-
-ExpandIntegrand[x_^m_.*(e_+f_.*x_)^p_.*F_^(b_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
-  If[PositiveIntegerQ[m,p] && m<=p && (EqQ[n,1] || EqQ[d*e-c*f,0]),
-    ExpandLinearProduct[(e+f*x)^p*F^(b*(c+d*x)^n),x^m,e,f,x],
-  If[PositiveIntegerQ[p],
-    Distribute[x^m*F^(b*(c+d*x)^n)*Expand[(e+f*x)^p,x],Plus,Times],
-  ExpandIntegrand[F^(b*(c+d*x)^n),x^m*(e+f*x)^p,x]]] /;
-FreeQ[{F,b,c,d,e,f,m,n,p},x]
-
-
-ExpandIntegrand[x_^m_.*(e_+f_.*x_)^p_.*F_^(a_.+b_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
-  If[PositiveIntegerQ[m,p] && m<=p && (EqQ[n,1] || EqQ[d*e-c*f,0]),
-    ExpandLinearProduct[(e+f*x)^p*F^(a+b*(c+d*x)^n),x^m,e,f,x],
-  If[PositiveIntegerQ[p],
-    Distribute[x^m*F^(a+b*(c+d*x)^n)*Expand[(e+f*x)^p,x],Plus,Times],
-  ExpandIntegrand[F^(a+b*(c+d*x)^n),x^m*(e+f*x)^p,x]]] /;
-FreeQ[{F,a,b,c,d,e,f,m,n,p},x]
-
-
-ExpandIntegrand[u_.*(a_+b_.*F_^v_)^m_.*(c_+d_.*F_^v_)^n_,x_Symbol] :=
-  With[{w=ReplaceAll[ExpandIntegrand[(a+b*x)^m*(c+d*x)^n,x],x->F^v]},
-  Map[Function[u*#],w] /;
- SumQ[w]] /;
-FreeQ[{F,a,b,c,d},x] && IntegersQ[m,n] && n<0
-
-
-ExpandIntegrand[u_*(a_.+b_.*x_)^m_.*f_^(e_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
-  With[{v=ExpandIntegrand[u*(a+b*x)^m,x]},
-  Distribute[f^(e*(c+d*x)^n)*v,Plus,Times] /;
- SumQ[v]] /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && PolynomialQ[u,x]
-
-
-ExpandIntegrand[u_*(a_.+b_.*x_)^m_.*Log[c_.*(d_.+e_.*x_^n_.)^p_.],x_Symbol] :=
-  ExpandIntegrand[Log[c*(d+e*x^n)^p],u*(a+b*x)^m,x] /; 
-FreeQ[{a,b,c,d,e,m,n,p},x] && PolynomialQ[u,x]
-
-
-ExpandIntegrand[u_*f_^(e_.*(c_.+d_.*x_)^n_.),x_Symbol] :=
-  If[EqQ[n,1],
-    ExpandIntegrand[f^(e*(c+d*x)^n),u,x],
-  ExpandLinearProduct[f^(e*(c+d*x)^n),u,c,d,x]] /;
-FreeQ[{c,d,e,f,n},x] && PolynomialQ[u,x]
-
-
-ExpandIntegrand[F_[u_]^m_.*(a_+b_.*G_[u_])^n_.,x_Symbol] :=
-  ReplaceAll[ExpandIntegrand[(a+b*x)^n/x^m,x],x->G[u]] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && F[u]*G[u]===1
-
-
-ExpandIntegrand[u_*(a_.+b_.*Log[c_.*(d_.*(e_.+f_.*x_)^p_.)^q_.])^n_,x_Symbol] :=
-  ExpandLinearProduct[(a+b*Log[c*(d*(e+f*x)^p)^q])^n,u,e,f,x] /;
-FreeQ[{a,b,c,d,e,f,n,p,q},x] && PolynomialQ[u,x]
-
-
-ExpandIntegrand[u_*(a_.+b_.*F_[c_.+d_.*x_])^n_,x_Symbol] :=
-  ExpandLinearProduct[(a+b*F[c+d*x])^n,u,c,d,x] /;
-FreeQ[{a,b,c,d,n},x] && PolynomialQ[u,x] && MemberQ[{ArcSin,ArcCos,ArcSinh,ArcCosh},F]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: 1/(a x^n+b Sqrt[c+d x^(2 n)])==(a x^n-b Sqrt[c+d x^(2 n)])/(-b^2 c+(a^2-b^2 d) x^(2 n))*)
-
-
-ExpandIntegrand[u_./(a_.*x_^n_+b_.*Sqrt[c_+d_.*x_^j_]),x_Symbol] :=
-  ExpandIntegrand[u*(a*x^n-b*Sqrt[c+d*x^(2*n)])/(-b^2*c+(a^2-b^2*d)*x^(2*n)),x] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[j,2*n,0]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: (a+b x)^m/(c+d x)==(b (a+b x)^(m-1))/d+((a d-b c) (a+b x)^(m-1))/(d (c+d x))*)
-
-
-ExpandIntegrand[(a_+b_.*x_)^m_/(c_+d_.*x_),x_Symbol] :=
-  If[RationalQ[a,b,c,d],
-    ExpandExpression[(a+b*x)^m/(c+d*x),x],
-  With[{tmp=a*d-b*c},
-  Module[{k},
-  SimplifyTerm[tmp^m/d^m,x]/(c+d*x) + Sum[SimplifyTerm[b*tmp^(k-1)/d^k,x]*(a+b*x)^(m-k),{k,1,m}]]]] /;
-FreeQ[{a,b,c,d},x] && PositiveIntegerQ[m]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: ((a+b x)^m (A+B x))/(c+d x)==(B (a+b x)^m)/d+((A d-B c) (a+b x)^m)/(d (c+d x))*)
-
-
-ExpandIntegrand[(a_+b_.*x_)^m_.*(A_+B_.*x_)/(c_+d_.*x_),x_Symbol] :=
-  If[RationalQ[a,b,c,d,A,B],
-    ExpandExpression[(a+b*x)^m*(A+B*x)/(c+d*x),x],
-  Module[{tmp1,tmp2},
-  tmp1=(A*d-B*c)/d;
-  tmp2=ExpandIntegrand[(a+b*x)^m/(c+d*x),x];
-  tmp2=If[SumQ[tmp2], Map[Function[SimplifyTerm[tmp1*#,x]],tmp2], SimplifyTerm[tmp1*tmp2,x]];
-  SimplifyTerm[B/d,x]*(a+b*x)^m + tmp2]] /;
-FreeQ[{a,b,c,d,A,B},x] && PositiveIntegerQ[m]
-
-
-(* u is a polynomial in x.  ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
-ExpandIntegrand[u_*(a_+b_.*x_)^m_,x_Symbol] :=
-  Module[{tmp1,tmp2},
-  tmp1=ExpandLinearProduct[(a+b*x)^m,u,a,b,x];
-  If[Not[IntegerQ[m]] || m>2 && LinearQ[u,x],
-    tmp1,
-  tmp2=ExpandExpression[u*(a+b*x)^m,x];
-  If[SumQ[tmp2],
-    If[m>0,
-      If[Length[tmp2]<=Exponent[u,x]+2,
-        tmp2,
-      tmp1],
-    If[LeafCount[tmp2]<=LeafCount[tmp1]+2,
-      tmp2,
-    tmp1]],
-  tmp1]]] /;
-FreeQ[{a,b,m},x] && PolynomialQ[u,x] && 
-  Not[PositiveIntegerQ[m] && MatchQ[u,w_.*(c_+d_.*x)^p_ /; FreeQ[{c,d},x] && IntegerQ[p] && p>m]]
-
-
-(* If u is a polynomial in x, ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
-ExpandIntegrand[u_*v_^n_*(a_+b_.*x_)^m_,x_Symbol] :=
-  Function[ExpandIntegrand[#[[1]]*(a+b*x)^FractionalPart[m],x] + ExpandIntegrand[#[[2]]*v^n*(a+b*x)^m,x]][
-    PolynomialQuotientRemainder[u,v^(-n)*(a+b*x)^(-IntegerPart[m]),x]]/;
-FreeQ[{a,b,m},x] && NegativeIntegerQ[n] && Not[IntegerQ[m]] && PolynomialQ[u,x] && PolynomialQ[v,x] && 
-  RationalQ[m] && m<-1 && Exponent[u,x]>=-(n+IntegerPart[m])*Exponent[v,x]
-
-
-(* If u is a polynomial in x, ExpandIntegrand[u*(a+b*x)^m,x] expand u*(a+b*x)^m into a sum of terms of the form A*(a+b*x)^n. *)
-ExpandIntegrand[u_*v_^n_*(a_+b_.*x_)^m_,x_Symbol] :=
-  Function[ExpandIntegrand[#[[1]]*(a+b*x)^m,x] + ExpandIntegrand[#[[2]]*v^n*(a+b*x)^m,x]][PolynomialQuotientRemainder[u,v^(-n),x]]/;
-FreeQ[{a,b,m},x] && NegativeIntegerQ[n] && Not[IntegerQ[m]] && PolynomialQ[u,x] && PolynomialQ[v,x] && 
-  Exponent[u,x]>=-n*Exponent[v,x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: Let r/s=(-(a/b))^(1/3), then  1/(a+b z^3)==r/(3a(r-s z))+(r(2 r+s z))/(3a(r^2+r s z+s^2 z^2))*)
-
-
-(* ExpandIntegrand[1/(a_+b_.*u_^3),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,3]],s=Denominator[Rt[-a/b,3]]},
-  r/(3*a*(r-s*u)) + r*(2*r+s*u)/(3*a*(r^2+r*s*u+s^2*u^2))] /;
-FreeQ[{a,b},x] *)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: Let r/s=Sqrt[-(a/b)], then  1/(a+b z^2)==r/(2a(r-s z))+r/(2a(r+s z))*)
-
-
-ExpandIntegrand[1/(a_+b_.*u_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,2]],s=Denominator[Rt[-a/b,2]]},
-  r/(2*a*(r-s*u^(n/2))) + r/(2*a*(r+s*u^(n/2)))] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[n/4]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  n\[Element]SuperPlus[\[DoubleStruckCapitalZ]], let r/s=(-(a/b))^(1/n), then  1/(a + b*z^n) == (r*Sum[1/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
-
-
-ExpandIntegrand[1/(a_+b_.*u_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
-  Module[{k},
-  Sum[r/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
-FreeQ[{a,b},x] && IntegerQ[n] && n>1
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If (m|n)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
-
-
-ExpandIntegrand[(c_+d_.*u_^m_.)/(a_+b_.*u_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
-  Module[{k},
-  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
-FreeQ[{a,b,c,d},x] && IntegersQ[m,n] && 0<m<n
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If (m|n,p)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<p<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m + e*z^p)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)) + (e*(r/s)^p)/(-1)^(2*k*(p/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
-
-
-ExpandIntegrand[(c_.+d_.*u_^m_.+e_.*u_^p_)/(a_+b_.*u_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
-  Module[{k},
-  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n)+r*e*(r/s)^p*(-1)^(-2*k*p/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
-FreeQ[{a,b,c,d,e},x] && IntegersQ[m,n,p] && 0<m<p<n
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If (m|n,p,q)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<p<q<n, let r/s=(-(a/b))^(1/n), then  (c + d*z^m + e*z^p + f*z^q)/(a + b*z^n) == (r*Sum[(c + (d*(r/s)^m)/(-1)^(2*k*(m/n)) + (e*(r/s)^p)/(-1)^(2*k*(p/n)) + (f*(r/s)^q)/(-1)^(2*k*(q/n)))/(r - (-1)^(2*(k/n))*s*z), {k, 1, n}])/(a*n)*)
-
-
-ExpandIntegrand[(c_.+d_.*u_^m_.+e_.*u_^p_+f_.*u_^q_)/(a_+b_.*u_^n_),x_Symbol] :=
-  With[{r=Numerator[Rt[-a/b,n]],s=Denominator[Rt[-a/b,n]]},
-  Module[{k},
-  Sum[(r*c+r*d*(r/s)^m*(-1)^(-2*k*m/n)+r*e*(r/s)^p*(-1)^(-2*k*p/n)+r*f*(r/s)^q*(-1)^(-2*k*q/n))/(a*n*(r-(-1)^(2*k/n)*s*u)),{k,1,n}]]] /;
-FreeQ[{a,b,c,d,e,f},x] && IntegersQ[m,n,p,q] && 0<m<p<q<n
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  q=Sqrt[-a c], then a+c z^2==((-q+c z)(q+c z))/c*)
-
-
-ExpandIntegrand[(a_+c_.*u_^n_.)^p_,x_Symbol] :=
-  Module[{q},
-  ReplaceAll[ExpandIntegrand[1/c^p,(-q+c*x)^p*(q+c*x)^p,x],{q->Rt[-a*c,2],x->u^(n/2)}]] /;
-FreeQ[{a,c},x] && IntegerQ[n/2] && NegativeIntegerQ[p]
-
-
-ExpandIntegrand[u_^m_.*(a_.+c_.*u_^n_.)^p_,x_Symbol] :=
-  Module[{q},
-  ReplaceAll[ExpandIntegrand[1/c^p,x^m*(-q+c*x^(n/2))^p*(q+c*x^(n/2))^p,x],{q->Rt[-a*c,2],x->u}]] /;
-FreeQ[{a,c},x] && IntegersQ[m,n/2] && NegativeIntegerQ[p] && 0<m<n && m!=n/2
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  q=Sqrt[b^2-4 a c], then a+b z+c z^2 == (b-q+2 c z)(b+q+2 c z)/(4 c)*)
-
-
-ExpandIntegrand[(a_.+b_.*u_^n_.+c_.*u_^j_.)^p_,x_Symbol] :=
-  Module[{q},
-  ReplaceAll[ExpandIntegrand[1/(4^p*c^p),(b-q+2*c*x)^p*(b+q+2*c*x)^p,x],{q->Rt[b^2-4*a*c,2],x->u^n}]] /;
-FreeQ[{a,b,c},x] && IntegerQ[n] && EqQ[j,2*n] && NegativeIntegerQ[p] && NeQ[b^2-4*a*c,0]
-
-
-ExpandIntegrand[u_^m_.*(a_.+b_.*u_^n_.+c_.*u_^j_.)^p_,x_Symbol] :=
-  Module[{q},
-  ReplaceAll[ExpandIntegrand[1/(4^p*c^p),x^m*(b-q+2*c*x^n)^p*(b+q+2*c*x^n)^p,x],{q->Rt[b^2-4*a*c,2],x->u}]] /;
-FreeQ[{a,b,c},x] && IntegersQ[m,n,j] && EqQ[j,2*n] && NegativeIntegerQ[p] && 0<m<2*n && Not[m==n && p==-1] && NeQ[b^2-4*a*c,0]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  q=Sqrt[-(a/b)], then (c+d z)/(a+b z^2)==-((c-d q)/(2 b q(q+z)))-(c+d q)/(2 b q(q-z))*)
-
-
-ExpandIntegrand[(c_+d_.*u_^n_.)/(a_+b_.*u_^j_.),x_Symbol] :=
-  With[{q=Rt[-a/b,2]},
-  -(c-d*q)/(2*b*q*(q+u^n)) - (c+d*q)/(2*b*q*(q-u^n))] /;
-FreeQ[{a,b,c,d,n},x] && EqQ[j,2*n]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: If  q=Sqrt[b^2-4a c] and r=(2 c d-b e)/q, then (d+e z)/(a+b z+c z^2)==(e+r)/(b-q+2 c z)+(e-r)/(b+q+2 c z)*)
-
-
-ExpandIntegrand[(d_.+e_.*(f_.+g_.*u_^n_.))/(a_.+b_.*u_^n_.+c_.*u_^j_.),x_Symbol] :=
-  With[{q=Rt[b^2-4*a*c,2]}, With[{r=TogetherSimplify[(2*c*(d+e*f)-b*e*g)/q]},
-  (e*g+r)/(b-q+2*c*u^n) + (e*g-r)/(b+q+2*c*u^n)]] /;
-FreeQ[{a,b,c,d,e,f,g,n},x] && EqQ[j,2*n] && NeQ[b^2-4*a*c,0]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: Miscellaneous*)
-
-
-(* ExpandIntegrand[u_/v_,x_Symbol] :=
-  With[{lst=CoefficientList[u,x]},
-  Module[{i},
-  lst[[-1]]*x^Exponent[u,x]/v + Sum[lst[[i]]*x^(i-1),{i,1,Exponent[u,x]}]/v]] /;
-PolynomialQ[u,x] && PolynomialQ[v,x] && BinomialQ[v,x] && Exponent[u,x]==Exponent[v,x]-1>=2 *)
-
-
-ExpandIntegrand[u_/v_,x_Symbol] :=
-  PolynomialDivide[u,v,x] /;
-PolynomialQ[u,x] && PolynomialQ[v,x] && Exponent[u,x]>=Exponent[v,x]
-
-
-ExpandIntegrand[u_*(a_.*x_)^p_,x_Symbol] :=
-  ExpandToSum[(a*x)^p,u,x] /;
-Not[IntegerQ[p]] && PolynomialQ[u,x]
-
-
-ExpandIntegrand[u_.*v_^p_,x_Symbol] :=
-  ExpandIntegrand[NormalizeIntegrand[v^p,x],u,x] /;
-Not[IntegerQ[p]]
-
-
-ExpandIntegrand[u_,x_Symbol] :=
-  With[{v=ExpandExpression[u,x]},
-    v /;
- SumQ[v]]
-
-
-ExpandIntegrand[u_^m_./(a_+b_.*u_^n_),x_Symbol] :=
-  ExpandBinomial[a,b,m,n,u,x] /;
-FreeQ[{a,b},x] && IntegersQ[m,n] && 0<m<n
-
-
-ExpandIntegrand[u_,x_Symbol] := u
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandExpression[u,x]*)
-
-
-ExpandExpression[u_,x_Symbol] :=
-  Module[{v,w},
-  v=If[AlgebraicFunctionQ[u,x] && Not[RationalFunctionQ[u,x]], ExpandAlgebraicFunction[u,x], 0];
-  If[SumQ[v],
-    ExpandCleanup[v,x],
-  v=SmartApart[u,x];
-  If[SumQ[v],
-    ExpandCleanup[v,x],
-  v=SmartApart[RationalFunctionFactors[u,x],x,x];
-  If[SumQ[v],
-    w=NonrationalFunctionFactors[u,x];
-    ExpandCleanup[Map[Function[#*w],v],x],
-  v=Expand[u,x];
-  If[SumQ[v],
-    ExpandCleanup[v,x],
-  v=Expand[u];
-  If[SumQ[v],
-    ExpandCleanup[v,x],
-  SimplifyTerm[u,x]]]]]]]
-
-
-ExpandCleanup[u_,x_Symbol] :=
-  Module[{v},
-  v=CollectReciprocals[u,x];
-  If[SumQ[v],
-    v=Map[Function[SimplifyTerm[#,x]],v];
-    If[SumQ[v],
-      UnifySum[v,x],
-    v],
-  v]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Basis: e/(a+b x)+f/(c+d x)==(c e+a f+(d e+b f) x)/(a c+(b c+a d) x+b d x^2)*)
-
-
-CollectReciprocals[u_.+e_/(a_+b_.*x_)+f_/(c_+d_.*x_),x_Symbol] :=
-  CollectReciprocals[u+(c*e+a*f)/(a*c+b*d*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d,0] && EqQ[d*e+b*f,0] 
-
-CollectReciprocals[u_.+e_/(a_+b_.*x_)+f_/(c_+d_.*x_),x_Symbol] :=
-  CollectReciprocals[u+(d*e+b*f)*x/(a*c+b*d*x^2),x] /;
-FreeQ[{a,b,c,d,e,f},x] && EqQ[b*c+a*d,0] && EqQ[c*e+a*f,0]
-
-CollectReciprocals[u_,x_Symbol] := u
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandBinomial[u,x]*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: If  (m|(n-1)/2)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(a/b)^(1/n), then z^m/(a + b*z^n) == (r*(-(r/s))^m*Sum[1/((-1)^(2*k*(m/n))*(r + (-1)^(2*(k/n))*s*z)), {k, 1, n}])/(a*n) == (r*(-(r/s))^m*Sum[(-1)^(2*k*((m + 1)/n))/((-1)^(2*(k/n))*r + s*z), {k, 1, n}])/(a*n)*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: If  r/s=(-(a/b))^(1/2), then z/(a+b z^2)==s/(2b(r+s z))-s/(2b(r-s z))==r^2/(2 a s (r-s z))-r^2/(2 a s (r+s z))*)
-
-
-(* ::Subsubsection:: *)
-(*Basis: If (m|n)\[Element]\[DoubleStruckCapitalZ] \[And] 0<=m<n, let r/s=(-(a/b))^(1/n), then  z^m/(a + b*z^n) == (r*(r/s)^m*Sum[1/((-1)^(2*k*(m/n))*(r - (-1)^(2*(k/n))*s*z)), {k, 1, n}])/(a*n) == (r*(r/s)^m*Sum[(-1)^(2*k*((m + 1)/n))/((-1)^(2*(k/n))*r - s*z), {k, 1, n}])/(a*n)*)
-
-
-(* ::Subsubsection:: *)
-(*Note: If  m+1 and n are not coprime, the second summation is used since the coefficient (-1)^(2 k (m+1)/n) will be simpler.*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Note: The code reduces the exponents by their gcd.*)
-
-
-(* Assumes m and n are integers and 0<m<n. *)
-(* ExpandBinomial[a,b,m,n,u,x] expands u^m/(a+b*u^n) into a sum of terms of the form 1/(r+s*u). *)
-ExpandBinomial[a_,b_,m_,n_,u_,x_Symbol] :=
-  If[OddQ[n/GCD[m,n]] && PosQ[a/b],
-    With[{g=GCD[m,n],r=Numerator[Rt[a/b,n/GCD[m,n]]],s=Denominator[Rt[a/b,n/GCD[m,n]]]},
-    Module[{k},
-    If[CoprimeQ[m+g,n],
-      Sum[r*(-r/s)^(m/g)*(-1)^(-2*k*m/n)/(a*n*(r+(-1)^(2*k*g/n)*s*u^g)),{k,1,n/g}],
-    Sum[r*(-r/s)^(m/g)*(-1)^(2*k*(m+g)/n)/(a*n*((-1)^(2*k*g/n)*r+s*u^g)),{k,1,n/g}]]]],
-  With[{g=GCD[m,n],r=Numerator[Rt[-a/b,n/GCD[m,n]]],s=Denominator[Rt[-a/b,n/GCD[m,n]]]},
-  If[n/g==2,
-    s/(2*b*(r+s*u^g)) - s/(2*b*(r-s*u^g)),
-  Module[{k},
-  If[CoprimeQ[m+g,n],
-    Sum[r*(r/s)^(m/g)*(-1)^(-2*k*m/n)/(a*n*(r-(-1)^(2*k*g/n)*s*u^g)),{k,1,n/g}],
-  Sum[r*(r/s)^(m/g)*(-1)^(2*k*(m+g)/n)/(a*n*((-1)^(2*k*g/n)*r-s*u^g)),{k,1,n/g}]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SmartApart[u,x]*)
-
-
-(* SmartApart[u,x] returns the partial fraction expansion of u wrt x, avoiding the 
-	strange behavior in the built-in Apart function that rationalizes denominators 
-    involving fractional powers resulting in hard to integrate expressions. *)
-SmartApart[u_,x_Symbol] :=
-  With[{alst=MakeAssocList[u,x]},
-  With[{tmp=KernelSubst[Apart[GensymSubst[u,x,alst]],x,alst]},
-  If[tmp===Indeterminate, u, tmp]]]
-
-SmartApart[u_,v_,x_Symbol] :=
-  With[{alst=MakeAssocList[u,x]},
-  With[{tmp=KernelSubst[Apart[GensymSubst[u,x,alst],v],x,alst]},
-  If[tmp===Indeterminate, u, tmp]]]
-
-
-(* MakeAssocList[u,x,alst] returns an association list of gensymed symbols with the nonatomic 
-  parameters of a u that are not integer powers, products or sums. *)
-MakeAssocList[u_,x_Symbol,alst_List:{}] :=
-  If[AtomQ[u],
-    alst,
-  If[IntegerPowerQ[u],
-    MakeAssocList[u[[1]],x,alst],
-  If[ProductQ[u] || SumQ[u],
-    MakeAssocList[Rest[u],x,MakeAssocList[First[u],x,alst]],
-  If[FreeQ[u,x],
-    With[{tmp=Select[alst,Function[#[[2]]===u],1]},
-    If[tmp==={},
-      Append[alst,{Unique["Rubi"],u}],
-    alst]],
-  alst]]]]
-
-
-(* GensymSubst[u,x,alst] returns u with the kernels in alst free of x replaced by gensymed names. *)
-GensymSubst[u_,x_Symbol,alst_List] :=
-  If[AtomQ[u],
-    u,
-  If[IntegerPowerQ[u],
-    GensymSubst[u[[1]],x,alst]^u[[2]],
-  If[ProductQ[u] || SumQ[u],
-    Map[Function[GensymSubst[#,x,alst]],u],
-  If[FreeQ[u,x],
-    With[{tmp=Select[alst,Function[#[[2]]===u],1]},
-    If[tmp==={},
-      u,
-    tmp[[1,1]]]],
-  u]]]]
-
-
-(* KernelSubst[u,x,alst] returns u with the gensymed names in alst replaced by kernels free of x. *)
-KernelSubst[u_,x_Symbol,alst_List] :=
-  If[AtomQ[u],
-    With[{tmp=Select[alst,Function[#[[1]]===u],1]},
-    If[tmp==={},
-      u,
-    tmp[[1,2]]]],
-  If[IntegerPowerQ[u],
-    With[{tmp=KernelSubst[u[[1]],x,alst]},
-    If[u[[2]]<0 && EqQ[tmp,0],
-      Indeterminate,
-    tmp^u[[2]]]],
-  If[ProductQ[u] || SumQ[u],
-    Map[Function[KernelSubst[#,x,alst]],u],
-  u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandAlgebraicFunction*)
-
-
-ExpandAlgebraicFunction[u_Plus*v_,x_Symbol] :=
-  Map[Function[#*v],u] /;
-Not[FreeQ[u,x]]
-
-ExpandAlgebraicFunction[u_Plus^n_*v_.,x_Symbol] :=
-  With[{w=Expand[u^n,x]},
-  Map[Function[#*v],w] /;
- SumQ[w]] /;
-PositiveIntegerQ[n] && Not[FreeQ[u,x]]
-
-
-(* ::Subsection::Closed:: *)
-(*UnifySum[u,x]*)
-
-
-(* UnifySum[u,x] returns u with terms having indentical nonfree factors of x collected into a single term. *)  
-UnifySum[u_,x_Symbol] :=
-  If[SumQ[u],
-    Apply[Plus,UnifyTerms[Apply[List,u],x]],  
-  SimplifyTerm[u,x]]
-
-
-(* lst is a list of terms. *)
-(* UnifyTerms[lst,x] returns lst with terms collected into a single element. *)  
-UnifyTerms[lst_,x_] :=
-  If[lst==={},
-    lst,
-  UnifyTerm[First[lst],UnifyTerms[Rest[lst],x],x]]
-
-
-UnifyTerm[term_,lst_,x_] :=
-  If[lst==={},
-    {term},
-  With[{tmp=Simplify[First[lst]/term]},
-  If[FreeQ[tmp,x],
-    Prepend[Rest[lst],(1+tmp)*term],
-  Prepend[UnifyTerm[term,Rest[lst],x],First[lst]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandLinearProduct[v,u,a,b,x]*)
-
-
-(* If u is a polynomial in x, ExpandLinearProduct[v,u,a,b,x] expands v*u into a sum of terms of the form c*v*(a+b*x)^n. *)
-ExpandLinearProduct[v_,u_,a_,b_,x_Symbol] :=
-  Module[{lst},
-  lst=CoefficientList[ReplaceAll[u,x->(x-a)/b],x];
-  lst=Map[Function[SimplifyTerm[#,x]],lst];
-  Module[{k},
-  Sum[v*lst[[k]]*(a+b*x)^(k-1),{k,1,Length[lst]}]]] /;
-FreeQ[{a,b},x] && PolynomialQ[u,x]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandTrigExpand[u,F,v,m,n,x]*)
-
-
-ExpandTrigExpand[u_,F_,v_,m_,n_,x_Symbol] :=
-  With[{w=ReplaceAll[Expand[TrigExpand[F[n*x]]^m,x],x->v]},
-  If[SumQ[w],
-    Map[Function[u*#],w],
-  u*w]]
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandTrigReduce[u,v,x]*)
-
-
-ExpandTrigReduce[u_,v_,x_Symbol] :=
-  With[{w=ExpandTrigReduce[v,x]},
-  If[SumQ[w],
-    Map[Function[u*#],w],
-  u*w]]
-
-
-(* This is necessary, because TrigReduce expands Sinh[n+v] and Cosh[n+v] to exponential form if n is a number. *)
-ExpandTrigReduce[u_.*F_[n_+v_.]^m_.,x_Symbol] :=
-  Module[{nn},
-  ExpandTrigReduce[u*F[nn+v]^m,x] /. nn->n]/;
-MemberQ[{Sinh,Cosh},F] && IntegerQ[m] && RationalQ[n]
-
-ExpandTrigReduce[u_,x_Symbol] :=
-  ExpandTrigReduceAux[u,x]
-
-
-ExpandTrigReduceAux[u_,x_Symbol] :=
-  With[{v=Expand[TrigReduce[u]]},
-  If[SumQ[v],
-    Map[Function[NormalizeTrigReduce[#,x]],v],
-  NormalizeTrigReduce[v,x]]]
-
-
-NormalizeTrigReduce[a_.*F_[u_]^n_.,x_Symbol] :=
-  a*F[ExpandToSum[u,x]]^n /;
-FreeQ[{F,a,n},x] && PolynomialQ[u,x] && Exponent[u,x]>0
-
-NormalizeTrigReduce[u_,x_Symbol] := u
-
-
-(* ::Subsection::Closed:: *)
-(*ExpandTrigToExp[u,v,x]*)
-
-
-Clear[ExpandTrigToExp];
-
-ExpandTrigToExp[u_,x_Symbol] := ExpandTrigToExp[1,u,x]
-
-
-ExpandTrigToExp[u_,v_,x_Symbol] :=
-  Module[{w=TrigToExp[v]},
-  w=If[SumQ[w], Map[Function[SimplifyIntegrand[u*#,x]],w], SimplifyIntegrand[u*w,x]];
-  ExpandIntegrand[FreeFactors[w,x],NonfreeFactors[w,x],x]]
-
-
-(* ::Section::Closed:: *)
-(*Distribution functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*Distrib*)
-
-
-(* Distrib[u,v] returns the sum of u times each term of v. *)
-Distrib[u_,v_] :=
-  If[SumQ[v],
-    Map[Function[u*#],v],
-  u*v]
-
-
-(* ::Subsection::Closed:: *)
-(*Dist*)
-
-
-(* Dist[u,v] returns the sum of u times each term of v, provided v is free of Int. *)
-DownValues[Dist]={};
-UpValues[Dist]={};
-
-Dist /: Dist[u_,v_,x_]+Dist[w_,v_,x_] := 
-  If[EqQ[u+w,0],
-    0,
-  Dist[u+w,v,x]]
-
-Dist /: Dist[u_,v_,x_]-Dist[w_,v_,x_] := 
-  If[EqQ[u-w,0],
-    0,
-  Dist[u-w,v,x]]
-
-Dist /: w_*Dist[u_,v_,x_] := 
-  Dist[w*u,v,x] /; 
-w=!=-1
-
-Dist[u_,Defer[Dist][v_,w_,x_],x_] := 
-  Dist[u*v,w,x]
-
-Dist[u_,v_*w_,x_] := 
-  Dist[u*v,w,x] /;
-ShowSteps===True && FreeQ[v,Int] && Not[FreeQ[w,Int]]
-
-Dist[u_,v_,x_] := 
-  If[u===1,
-    v,
-  If[u===0,
-    Print["*** Warning ***:  Dist[0,",v,",",x,"]"];
-    0,
-  If[NumericFactor[u]<0 && NumericFactor[-u]>0,
-    -Dist[-u,v,x],
-  If[SumQ[v],
-    Map[Function[Dist[u,#,x]],v],
-  If[FreeQ[v,Int],
-(*  Simp[Simp[u,x]*v,x], *)
-    Simp[u*v,x],
-(*If[ShowSteps=!=True,
-    Simp[u*v,x],
-  Module[{w=Simp[u,x]},
-  If[w=!=u,
-    Dist[w,v,x], *)
-  With[{w=Simp[u*x^2,x]/x^2},
-  If[w=!=u && FreeQ[w,x] && w===Simp[w,x] && w===Simp[w*x^2,x]/x^2,
-    Dist[w,v,x],
-  If[ShowSteps=!=True,
-    Simp[u*v,x],
-  Defer[Dist][u,v,x]]]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*DistributeDegree*)
-
-
-(* DistributeDegree[u,m] returns the product of the factors of u each raised to the mth degree. *)
-DistributeDegree[u_,m_] :=
-  If[AtomQ[u],
-    u^m,
-  If[PowerQ[u],
-    u[[1]]^(u[[2]]*m),
-  If[ProductQ[u],
-    Map[Function[DistributeDegree[#,m]],u],
-  u^m]]]
-
-
-(* ::Section::Closed:: *)
-(*Function of functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfPower*)
-
-
-(* FunctionOfPower[u,x] returns the gcd of the integer degrees of x in u. *)
-(* FunctionOfPower[u_,x_Symbol] :=
-  FunctionOfPower[u,Null,x]
-
-FunctionOfPower[u_,n_,x_] :=
-  If[FreeQ[u,x],
-    n,
-  If[u===x,
-    1,
-  If[PowerQ[u] && u[[1]]===x && IntegerQ[u[[2]]],
-    If[n===Null,
-      u[[2]],
-    GCD[n,u[[2]]]],
-  Module[{tmp=n},
-    Scan[Function[tmp=FunctionOfPower[#,tmp,x]],u];
-    tmp]]]] *)
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfLinear*)
-
-
-(* If u (x) is equivalent to an expression of the form f (a+b*x) and not the case that a==0 and
-	b==1, FunctionOfLinear[u,x] returns the list {f (x),a,b}; else it returns False. *)
-FunctionOfLinear[u_,x_Symbol] :=
-  With[{lst=FunctionOfLinear[u,False,False,x,False]},
-  If[AtomQ[lst] || FalseQ[lst[[1]]] || lst[[1]]===0 && lst[[2]]===1,
-    False,
-  {FunctionOfLinearSubst[u,lst[[1]],lst[[2]],x],lst[[1]],lst[[2]]}]]
-
-
-FunctionOfLinear[u_,a_,b_,x_,flag_] :=
-  If[FreeQ[u,x],
-    {a,b},
-  If[CalculusQ[u],
-    False,
-  If[LinearQ[u,x],
-    If[FalseQ[a],
-      {Coefficient[u,x,0],Coefficient[u,x,1]},
-    With[{lst=CommonFactors[{b,Coefficient[u,x,1]}]},
-    If[EqQ[Coefficient[u,x,0],0] && Not[flag],
-      {0,lst[[1]]},
-    If[EqQ[b*Coefficient[u,x,0]-a*Coefficient[u,x,1],0],
-      {a/lst[[2]],lst[[1]]},
-    {0,1}]]]],
-  If[PowerQ[u] && FreeQ[u[[1]],x],
-    FunctionOfLinear[Log[u[[1]]]*u[[2]],a,b,x,False],
-  Module[{lst},
-  If[ProductQ[u] && NeQ[(lst=MonomialFactor[u,x])[[1]],0],
-    If[False && IntegerQ[lst[[1]]] && lst[[1]]!=-1 && FreeQ[lst[[2]],x],
-      If[RationalQ[LeadFactor[lst[[2]]]] && LeadFactor[lst[[2]]]<0,
-        FunctionOfLinear[DivideDegreesOfFactors[-lst[[2]],lst[[1]]]*x,a,b,x,False],
-      FunctionOfLinear[DivideDegreesOfFactors[lst[[2]],lst[[1]]]*x,a,b,x,False]],
-    False],
-  lst={a,b};
-  Catch[
-  Scan[Function[lst=FunctionOfLinear[#,lst[[1]],lst[[2]],x,SumQ[u]];
-			If[AtomQ[lst],Throw[False]]],u];
-  lst]]]]]]]
-
-
-FunctionOfLinearSubst[u_,a_,b_,x_] :=
-  If[FreeQ[u,x],
-    u,
-  If[LinearQ[u,x],
-    Module[{tmp=Coefficient[u,x,1]},
-    tmp=If[tmp===b, 1, tmp/b];
-    Coefficient[u,x,0]-a*tmp+tmp*x],
-  If[PowerQ[u] && FreeQ[u[[1]],x],
-    E^FullSimplify[FunctionOfLinearSubst[Log[u[[1]]]*u[[2]],a,b,x]],
-  Module[{lst},
-  If[ProductQ[u] && NeQ[(lst=MonomialFactor[u,x])[[1]],0],
-    If[RationalQ[LeadFactor[lst[[2]]]] && LeadFactor[lst[[2]]]<0,
-      -FunctionOfLinearSubst[DivideDegreesOfFactors[-lst[[2]],lst[[1]]]*x,a,b,x]^lst[[1]],
-    FunctionOfLinearSubst[DivideDegreesOfFactors[lst[[2]],lst[[1]]]*x,a,b,x]^lst[[1]]],
-  Map[Function[FunctionOfLinearSubst[#,a,b,x]],u]]]]]]
-
-
-(* DivideDegreesOfFactors[u,n] returns the product of the base of the factors of u raised to
-	the degree of the factors divided by n. *)
-DivideDegreesOfFactors[u_,n_] :=
-  If[ProductQ[u],
-    Map[Function[LeadBase[#]^(LeadDegree[#]/n)],u],
-  LeadBase[u]^(LeadDegree[u]/n)]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfInverseLinear*)
-
-
-(* If u is a function of an inverse linear binomial of the form 1/(a+b*x), 
-	FunctionOfInverseLinear[u,x] returns the list {a,b}; else it returns False. *)
-FunctionOfInverseLinear[u_,x_Symbol] :=
-  FunctionOfInverseLinear[u,Null,x]
-
-FunctionOfInverseLinear[u_,lst_,x_] :=
-  If[FreeQ[u,x],
-    lst,
-  If[u===x,
-    False,
-  If[QuotientOfLinearsQ[u,x],
-    With[{tmp=Drop[QuotientOfLinearsParts[u,x],2]},
-    If[tmp[[2]]===0,
-      False,
-    If[lst===Null,
-      tmp,
-    If[EqQ[lst[[1]]*tmp[[2]]-lst[[2]]*tmp[[1]],0],
-      lst,
-    False]]]],
-  If[CalculusQ[u],
-    False,
-  Module[{tmp=lst},Catch[
-  Scan[Function[If[AtomQ[tmp=FunctionOfInverseLinear[#,tmp,x]],Throw[False]]],u];
-  tmp]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfExponential*)
-
-
-(* FunctionOfExponentialQ[u,x] returns True iff u is a function of F^v where F is a constant and v is linear in x, *)
-(* and such an exponential explicitly occurs in u (i.e. not just implicitly in hyperbolic functions). *) 
-FunctionOfExponentialQ[u_,x_Symbol] :=
-  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
-    FunctionOfExponentialTest[u,x] && $exponFlag$]
-
-
-(* u is a function of F^v where v is linear in x.  FunctionOfExponential[u,x] returns F^v. *)
-FunctionOfExponential[u_,x_Symbol] :=
-  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
-    FunctionOfExponentialTest[u,x];
-    $base$^$expon$]
-
-
-(* u is a function of F^v where v is linear in x.  FunctionOfExponentialFunction[u,x] returns u with F^v replaced by x. *)
-FunctionOfExponentialFunction[u_,x_Symbol] :=
-  Block[{$base$=Null,$expon$=Null,$exponFlag$=False},
-    FunctionOfExponentialTest[u,x];
-    SimplifyIntegrand[FunctionOfExponentialFunctionAux[u,x],x]]
-
-
-(* u is a function of F^v where v is linear in x, and the fluid variables $base$=F and $expon$=v. *)
-(* FunctionOfExponentialFunctionAux[u,x] returns u with F^v replaced by x. *)
-FunctionOfExponentialFunctionAux[u_,x_] :=
-  If[AtomQ[u],
-    u,
-  If[PowerQ[u] && FreeQ[u[[1]],x] && LinearQ[u[[2]],x],
-    If[EqQ[Coefficient[$expon$,x,0],0],
-      u[[1]]^Coefficient[u[[2]],x,0]*x^FullSimplify[Log[u[[1]]]*Coefficient[u[[2]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])],
-    x^FullSimplify[Log[u[[1]]]*Coefficient[u[[2]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])]],
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    Module[{tmp},
-    tmp=x^FullSimplify[Coefficient[u[[1]],x,1]/(Log[$base$]*Coefficient[$expon$,x,1])];
-    If[SinhQ[u],
-      tmp/2-1/(2*tmp),
-    If[CoshQ[u],
-      tmp/2+1/(2*tmp),
-    If[TanhQ[u],    
-      (tmp-1/tmp)/(tmp+1/tmp),
-    If[CothQ[u],    
-      (tmp+1/tmp)/(tmp-1/tmp),
-    If[SechQ[u],
-      2/(tmp+1/tmp),
-    2/(tmp-1/tmp)]]]]]],
-  If[PowerQ[u] && FreeQ[u[[1]],x] && SumQ[u[[2]]],
-    FunctionOfExponentialFunctionAux[u[[1]]^First[u[[2]]],x]*FunctionOfExponentialFunctionAux[u[[1]]^Rest[u[[2]]],x],
-  Map[Function[FunctionOfExponentialFunctionAux[#,x]],u]]]]]
-
-
-(* FunctionOfExponentialTest[u,x] returns True iff u is a function of F^v where F is a constant and v is linear in x. *)
-(* Before it is called, the fluid variables $base$ and $expon$ should be set to Null and $exponFlag$ to False. *)
-(* If u is a function of F^v, $base$ and $expon$ are set to F and v, respectively. *)
-(* If an explicit exponential occurs in u, $exponFlag$ is set to True. *)
-FunctionOfExponentialTest[u_,x_] :=
-  If[FreeQ[u,x],
-    True,
-  If[u===x || CalculusQ[u],
-    False,
-  If[PowerQ[u] && FreeQ[u[[1]],x] && LinearQ[u[[2]],x],
-    $exponFlag$=True;
-    FunctionOfExponentialTestAux[u[[1]],u[[2]],x],
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    FunctionOfExponentialTestAux[E,u[[1]],x],
-  If[PowerQ[u] && FreeQ[u[[1]],x] && SumQ[u[[2]]],
-    FunctionOfExponentialTest[u[[1]]^First[u[[2]]],x] && FunctionOfExponentialTest[u[[1]]^Rest[u[[2]]],x],
-  Catch[Scan[Function[If[Not[FunctionOfExponentialTest[#,x]],Throw[False]]],u]; True]]]]]]
-
-
-FunctionOfExponentialTestAux[base_,expon_,x_] :=
-  If[$base$===Null,
-    $base$=base;
-    $expon$=expon;
-    True,
-  Module[{tmp},
-  tmp=FullSimplify[Log[base]*Coefficient[expon,x,1]/(Log[$base$]*Coefficient[$expon$,x,1])];
-  If[Not[RationalQ[tmp]],
-    False,
-  If[EqQ[Coefficient[$expon$,x,0],0] || NeQ[tmp,FullSimplify[Log[base]*Coefficient[expon,x,0]/(Log[$base$]*Coefficient[$expon$,x,0])]],
-    ( If[PositiveIntegerQ[base,$base$] && base<$base$,
-        $base$=base;
-        $expon$=expon;
-        tmp=1/tmp] );
-    $expon$=Coefficient[$expon$,x,1]*x/Denominator[tmp];
-    If[tmp<0 && NegQ[Coefficient[$expon$,x,1]],
-      $expon$=-$expon$;
-      True,
-    True],
-  ( If[PositiveIntegerQ[base,$base$] && base<$base$,
-      $base$=base;
-      $expon$=expon;
-      tmp=1/tmp] );
-(*$expon$=If[SumQ[$expon$], Map[Function[#/Denominator[tmp]],$expon$], $expon$/Denominator[tmp]]; *)
-  $expon$=$expon$/Denominator[tmp];
-  If[tmp<0 && NegQ[Coefficient[$expon$,x,1]],
-    $expon$=-$expon$;
-    True,
-  True]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfTrigOfLinearQ*)
-
-
-(* If u is an algebraic function of trig functions of a linear function of x, 
-    FunctionOfTrigOfLinearQ[u,x] returns True; else it returns False. *)
-FunctionOfTrigOfLinearQ[u_,x_Symbol] :=
-  If[MatchQ[u,(c_.+d_.*x)^m_.*(a_.+b_.*trig_[e_.+f_.*x])^n_. /; FreeQ[{a,b,c,d,e,f,m,n},x] && (TrigQ[trig] || HyperbolicQ[trig])],
-    True,
-  Not[MemberQ[{Null, False}, FunctionOfTrig[u,Null,x]]] && AlgebraicTrigFunctionQ[u,x]]
-
-
-(* If u is a function of trig functions of v where v is a linear function of x, 
-	FunctionOfTrig[u,x] returns v; else it returns False. *)
-FunctionOfTrig[u_,x_Symbol] :=
-  With[{v=FunctionOfTrig[ActivateTrig[u],Null,x]},
-  If[v===Null, False, v]]
-
-FunctionOfTrig[u_,v_,x_] :=
-  If[AtomQ[u],
-    If[u===x,
-      False,
-    v],
-  If[TrigQ[u] && LinearQ[u[[1]],x],
-    If[v===Null,
-      u[[1]],
-    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[u[[1]],x,0],d=Coefficient[u[[1]],x,1]},
-    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
-      a/Numerator[b/d]+b*x/Numerator[b/d],
-    False]]],
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    If[v===Null,
-      I*u[[1]],
-    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=I*Coefficient[u[[1]],x,0],d=I*Coefficient[u[[1]],x,1]},
-    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
-      a/Numerator[b/d]+b*x/Numerator[b/d],
-    False]]],
-  If[CalculusQ[u],
-    False,
-  Module[{w=v},Catch[
-  Scan[Function[If[FalseQ[w=FunctionOfTrig[#,w,x]],Throw[False]]],u];
-  w]]]]]]
-
-
-(* If u is algebraic function of trig functions, AlgebraicTrigFunctionQ[u,x] returns True; else it returns False. *)
-AlgebraicTrigFunctionQ[u_,x_Symbol] :=
-  If[AtomQ[u],
-    True,
-  If[TrigQ[u] && LinearQ[u[[1]],x],
-    True,
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    True,
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    AlgebraicTrigFunctionQ[u[[1]],x],
-  If[ProductQ[u] || SumQ[u],
-    Catch[Scan[Function[If[Not[AlgebraicTrigFunctionQ[#,x]],Throw[False]]],u]; True],
-  False]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfHyperbolic*)
-
-
-(* If u is a function of hyperbolic trig functions of v where v is linear in x, 
-	FunctionOfHyperbolic[u,x] returns v; else it returns False. *)
-FunctionOfHyperbolic[u_,x_Symbol] :=
-  With[{v=FunctionOfHyperbolic[u,Null,x]},
-  If[v===Null, False, v]]
-
-FunctionOfHyperbolic[u_,v_,x_] :=
-  If[AtomQ[u],
-    If[u===x,
-      False,
-    v],
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    If[v===Null,
-      u[[1]],
-    With[{a=Coefficient[v,x,0],b=Coefficient[v,x,1],c=Coefficient[u[[1]],x,0],d=Coefficient[u[[1]],x,1]},
-    If[EqQ[a*d-b*c,0] && RationalQ[b/d],
-      a/Numerator[b/d]+b*x/Numerator[b/d],
-    False]]],
-  If[CalculusQ[u],
-    False,
-  Module[{w=v},Catch[
-  Scan[Function[If[FalseQ[w=FunctionOfHyperbolic[#,w,x]],Throw[False]]],u];
-  w]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfQ*)
-
-
-(* v is a function of x.
-	If u is a function of v, FunctionOfQ[v,u,x] returns True; else it returns False. *)
-FunctionOfQ[v_,u_,x_Symbol,PureFlag_:False] :=
-  If[FreeQ[u,x],
-    False,
-  If[AtomQ[v],
-    True,
-  If[Not[InertTrigFreeQ[u]],
-    FunctionOfQ[v,ActivateTrig[u],x,PureFlag],
-  If[ProductQ[v] && NeQ[FreeFactors[v,x],1],
-    FunctionOfQ[NonfreeFactors[v,x],u,x,PureFlag],
-
-  If[PureFlag,
-    If[SinQ[v] || CscQ[v],
-      PureFunctionOfSinQ[u,v[[1]],x],
-    If[CosQ[v] || SecQ[v],
-      PureFunctionOfCosQ[u,v[[1]],x],
-    If[TanQ[v],
-      PureFunctionOfTanQ[u,v[[1]],x],
-    If[CotQ[v],
-      PureFunctionOfCotQ[u,v[[1]],x],
-    If[SinhQ[v] || CschQ[v],
-      PureFunctionOfSinhQ[u,v[[1]],x],
-    If[CoshQ[v] || SechQ[v],
-      PureFunctionOfCoshQ[u,v[[1]],x],
-    If[TanhQ[v],
-      PureFunctionOfTanhQ[u,v[[1]],x],
-    If[CothQ[v],
-      PureFunctionOfCothQ[u,v[[1]],x],
-    FunctionOfExpnQ[u,v,x]=!=False]]]]]]]],
-  If[SinQ[v] || CscQ[v],
-    FunctionOfSinQ[u,v[[1]],x],
-  If[CosQ[v] || SecQ[v],
-    FunctionOfCosQ[u,v[[1]],x],
-  If[TanQ[v] || CotQ[v],
-    FunctionOfTanQ[u,v[[1]],x],
-  If[SinhQ[v] || CschQ[v],
-    FunctionOfSinhQ[u,v[[1]],x],
-  If[CoshQ[v] || SechQ[v],
-    FunctionOfCoshQ[u,v[[1]],x],
-  If[TanhQ[v] || CothQ[v],
-    FunctionOfTanhQ[u,v[[1]],x],
-  FunctionOfExpnQ[u,v,x]=!=False]]]]]]]]]]]
-
-
-FunctionOfExpnQ[u_,v_,x_] :=
-  If[u===v,
-    1,
-  If[AtomQ[u],
-    If[u===x,
-      False,
-    0],
-  If[CalculusQ[u],
-    False,
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    If[EqQ[u[[1]],v],
-      If[IntegerQ[u[[2]]], u[[2]], 1],
-    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u[[1]],v[[1]]],
-      If[RationalQ[v[[2]]],
-        If[RationalQ[u[[2]]] && IntegerQ[u[[2]]/v[[2]]] && (v[[2]]>0 || u[[2]]<0), u[[2]]/v[[2]], False],
-      If[IntegerQ[Simplify[u[[2]]/v[[2]]]], Simplify[u[[2]]/v[[2]]], False]],
-    FunctionOfExpnQ[u[[1]],v,x]]],
-  If[ProductQ[u] && NeQ[FreeFactors[u,x],1],
-    FunctionOfExpnQ[NonfreeFactors[u,x],v,x],
-  If[ProductQ[u] && ProductQ[v],
-    Module[{deg1=FunctionOfExpnQ[First[u],First[v],x],deg2},
-    If[deg1===False,
-      False,
-    deg2=FunctionOfExpnQ[Rest[u],Rest[v],x];
-    If[deg1===deg2 && FreeQ[Simplify[u/v^deg1],x],
-      deg1,
-    False]]],
-  With[{lst=Map[Function[FunctionOfExpnQ[#,v,x]],Apply[List,u]]},
-  If[MemberQ[lst,False],
-    False,
-  Apply[GCD,lst]]]]]]]]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Pure function of trig functions predicates*)
-
-
-(* If u is a pure function of Sin[v] and/or Csc[v], PureFunctionOfSinQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfSinQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && EqQ[u[[1]],v],
-    SinQ[u] || CscQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Cos[v] and/or Sec[v], PureFunctionOfCosQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfCosQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && EqQ[u[[1]],v],
-    CosQ[u] || SecQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Tan[v] and/or Cot[v], PureFunctionOfTanQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfTanQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && EqQ[u[[1]],v],
-    TanQ[u] || CotQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfTanQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Cot[v], PureFunctionOfCotQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfCotQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && EqQ[u[[1]],v],
-    CotQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfCotQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Function of trig functions predicates*)
-
-
-(* If u is a function of Sin[v], FunctionOfSinQ[u,v,x] returns True; else it returns False. *)
-FunctionOfSinQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[OddQuotientQ[u[[1]],v],
-(* Basis: If m odd, Sin[m*v]^n is a function of Sin[v]. *)
-      SinQ[u] || CscQ[u],
-(* Basis: If m even, Cos[m*v]^n is a function of Sin[v]. *)
-    CosQ[u] || SecQ[u]],
-  If[IntegerPowerQ[u] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[EvenQ[u[[2]]],
-(* Basis: If m integer and n even, Trig[m*v]^n is a function of Sin[v]. *)
-      True,
-    FunctionOfSinQ[u[[1]],v,x]],
-  If[ProductQ[u],
-    If[CosQ[u[[1]]] && SinQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
-      FunctionOfSinQ[Drop[u,2],v,x],
-    Module[{lst},
-    lst=FindTrigFactor[Sin,Csc,u,v,False];
-    If[ListQ[lst] && EvenQuotientQ[lst[[1]],v],
-(* Basis: If m even and n odd, Sin[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
-      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Cos,Sec,u,v,False];
-    If[ListQ[lst] && OddQuotientQ[lst[[1]],v],
-(* Basis: If m odd and n odd, Cos[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
-      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Tan,Cot,u,v,True];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Tan[m*v]^n == Cos[v]*u where u is a function of Sin[v]. *)
-      FunctionOfSinQ[Cos[v]*lst[[2]],v,x],
-    Catch[Scan[Function[If[Not[FunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]]],
-  Catch[Scan[Function[If[Not[FunctionOfSinQ[#,v,x]],Throw[False]]],u];True]]]]]]
-
-
-(* If u is a function of Cos[v], FunctionOfCosQ[u,v,x] returns True; else it returns False. *)
-FunctionOfCosQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-(* Basis: If m integer, Cos[m*v]^n is a function of Cos[v]. *)
-    CosQ[u] || SecQ[u],
-  If[IntegerPowerQ[u] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[EvenQ[u[[2]]],
-(* Basis: If m integer and n even, Trig[m*v]^n is a function of Cos[v]. *)
-      True,
-    FunctionOfCosQ[u[[1]],v,x]],
-  If[ProductQ[u],
-    Module[{lst},
-    lst=FindTrigFactor[Sin,Csc,u,v,False];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Sin[m*v]^n == Sin[v]*u where u is a function of Cos[v]. *)
-      FunctionOfCosQ[Sin[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Tan,Cot,u,v,True];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Tan[m*v]^n == Sin[v]*u where u is a function of Cos[v]. *)
-      FunctionOfCosQ[Sin[v]*lst[[2]],v,x],
-    Catch[Scan[Function[If[Not[FunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]],
-  Catch[Scan[Function[If[Not[FunctionOfCosQ[#,v,x]],Throw[False]]],u];True]]]]]]
-
-
-(* If u is a function of the form f[Tan[v],Cot[v]] where f is independent of x,
-	FunctionOfTanQ[u,v,x] returns True; else it returns False. *)
-FunctionOfTanQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-    TanQ[u] || CotQ[u] || EvenQuotientQ[u[[1]],v],
-  If[PowerQ[u] && EvenQ[u[[2]]] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    True,
-  If[PowerQ[u] && EvenQ[u[[2]]] && SumQ[u[[1]]],
-    FunctionOfTanQ[Expand[u[[1]]^2],v,x],
-  If[ProductQ[u],
-    Module[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Sow[#]]],u]]},
-    If[lst==={},
-      True,
-    Length[lst]==2 && OddTrigPowerQ[lst[[1]],v,x] && OddTrigPowerQ[lst[[2]],v,x]]],
-  Catch[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Throw[False]]],u];True]]]]]]]
-
-OddTrigPowerQ[u_,v_,x_] :=
-  If[SinQ[u] || CosQ[u] || SecQ[u] || CscQ[u],
-    OddQuotientQ[u[[1]],v],
-  If[PowerQ[u],
-    OddQ[u[[2]]] && OddTrigPowerQ[u[[1]],v,x],
-  If[ProductQ[u],
-    If[NeQ[FreeFactors[u,x],1],
-      OddTrigPowerQ[NonfreeFactors[u,x],v,x],
-    Module[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Sow[#]]],u]]},
-    If[lst==={},
-      True,
-    Length[lst]==1 && OddTrigPowerQ[lst[[1]],v,x]]]],
-  If[SumQ[u],
-    Catch[Scan[Function[If[Not[OddTrigPowerQ[#,v,x]],Throw[False]]],u];True],
-  False]]]]
-
-
-(* u is a function of the form f[Tan[v],Cot[v]] where f is independent of x.
-FunctionOfTanWeight[u,v,x] returns a nonnegative number if u is best considered a function
-of Tan[v]; else it returns a negative number. *)
-FunctionOfTanWeight[u_,v_,x_] :=
-  If[AtomQ[u],
-    0,
-  If[CalculusQ[u],
-    0,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[TanQ[u] && EqQ[u[[1]],v],
-      1,
-    If[CotQ[u] && EqQ[u[[1]],v],
-      -1,
-    0]],
-  If[PowerQ[u] && EvenQ[u[[2]]] && TrigQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[TanQ[u[[1]]] || CosQ[u[[1]]] || SecQ[u[[1]]],
-      1,
-    -1],
-  If[ProductQ[u],
-    If[Catch[Scan[Function[If[Not[FunctionOfTanQ[#,v,x]],Throw[False]]],u];True],
-      Apply[Plus,Map[Function[FunctionOfTanWeight[#,v,x]],Apply[List,u]]],
-    0],
-  Apply[Plus,Map[Function[FunctionOfTanWeight[#,v,x]],Apply[List,u]]]]]]]]
-
-
-(* If u (x) is equivalent to an expression of the form f (Sin[v],Cos[v],Tan[v],Cot[v],Sec[v],Csc[v])
-	where f is independent of x, FunctionOfTrigQ[u,v,x] returns True; else it returns False. *)
-FunctionOfTrigQ[u_,v_,x_Symbol] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-    True,
-  Catch[
-    Scan[Function[If[Not[FunctionOfTrigQ[#,v,x]],Throw[False]]],u];
-    True]]]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Pure function of hyperbolic functions predicates*)
-
-
-(* If u is a pure function of Sinh[v] and/or Csch[v], PureFunctionOfSinhQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfSinhQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && EqQ[u[[1]],v],
-    SinhQ[u] || CschQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Cosh[v] and/or Sech[v], PureFunctionOfCoshQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfCoshQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && EqQ[u[[1]],v],
-    CoshQ[u] || SechQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Tanh[v] and/or Coth[v], PureFunctionOfTanhQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfTanhQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && EqQ[u[[1]],v],
-    TanhQ[u] || CothQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfTanhQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* If u is a pure function of Coth[v], PureFunctionOfCothQ[u,v,x] returns True; 
-	else it returns False. *)
-PureFunctionOfCothQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && EqQ[u[[1]],v],
-    CothQ[u],
-  Catch[Scan[Function[If[Not[PureFunctionOfCothQ[#,v,x]],Throw[False]]],u];True]]]]
-
-
-(* ::Subsubsection::Closed:: *)
-(*Function of hyperbolic functions predicates*)
-
-
-(* If u is a function of Sinh[v], FunctionOfSinhQ[u,v,x] returns True; else it returns False. *)
-FunctionOfSinhQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[OddQuotientQ[u[[1]],v],
-(* Basis: If m odd, Sinh[m*v]^n is a function of Sinh[v]. *)
-      SinhQ[u] || CschQ[u],
-(* Basis: If m even, Cos[m*v]^n is a function of Sinh[v]. *)
-    CoshQ[u] || SechQ[u]],
-  If[IntegerPowerQ[u] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[EvenQ[u[[2]]],
-(* Basis: If m integer and n even, Hyper[m*v]^n is a function of Sinh[v]. *)
-      True,
-    FunctionOfSinhQ[u[[1]],v,x]],
-  If[ProductQ[u],
-    If[CoshQ[u[[1]]] && SinhQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
-      FunctionOfSinhQ[Drop[u,2],v,x],
-    Module[{lst},
-    lst=FindTrigFactor[Sinh,Csch,u,v,False];
-    If[ListQ[lst] && EvenQuotientQ[lst[[1]],v],
-(* Basis: If m even and n odd, Sinh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
-      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Cosh,Sech,u,v,False];
-    If[ListQ[lst] && OddQuotientQ[lst[[1]],v],
-(* Basis: If m odd and n odd, Cosh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
-      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Tanh,Coth,u,v,True];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Tanh[m*v]^n == Cosh[v]*u where u is a function of Sinh[v]. *)
-      FunctionOfSinhQ[Cosh[v]*lst[[2]],v,x],
-    Catch[Scan[Function[If[Not[FunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]]],
-  Catch[Scan[Function[If[Not[FunctionOfSinhQ[#,v,x]],Throw[False]]],u];True]]]]]]
-
-
-(* If u is a function of Cosh[v], FunctionOfCoshQ[u,v,x] returns True; else it returns False. *)
-FunctionOfCoshQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-(* Basis: If m integer, Cosh[m*v]^n is a function of Cosh[v]. *)
-    CoshQ[u] || SechQ[u],
-  If[IntegerPowerQ[u] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[EvenQ[u[[2]]],
-(* Basis: If m integer and n even, Hyper[m*v]^n is a function of Cosh[v]. *)
-      True,
-    FunctionOfCoshQ[u[[1]],v,x]],
-  If[ProductQ[u],
-    Module[{lst},
-    lst=FindTrigFactor[Sinh,Csch,u,v,False];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Sinh[m*v]^n == Sinh[v]*u where u is a function of Cosh[v]. *)
-      FunctionOfCoshQ[Sinh[v]*lst[[2]],v,x],
-    lst=FindTrigFactor[Tanh,Coth,u,v,True];
-    If[ListQ[lst],
-(* Basis: If m integer and n odd, Tanh[m*v]^n == Sinh[v]*u where u is a function of Cosh[v]. *)
-      FunctionOfCoshQ[Sinh[v]*lst[[2]],v,x],
-    Catch[Scan[Function[If[Not[FunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]],
-  Catch[Scan[Function[If[Not[FunctionOfCoshQ[#,v,x]],Throw[False]]],u];True]]]]]]
-
-
-(* If u is a function of the form f[Tanh[v],Coth[v]] where f is independent of x,
-	FunctionOfTanhQ[u,v,x] returns True; else it returns False. *)
-FunctionOfTanhQ[u_,v_,x_] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-    TanhQ[u] || CothQ[u] || EvenQuotientQ[u[[1]],v],
-  If[PowerQ[u] && EvenQ[u[[2]]] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    True,
-  If[PowerQ[u] && EvenQ[u[[2]]] && SumQ[u[[1]]],
-    FunctionOfTanhQ[Expand[u[[1]]^2],v,x],
-  If[ProductQ[u],
-    With[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Sow[#]]],u]]},
-    If[lst==={},
-      True,
-    Length[lst]==2 && OddHyperbolicPowerQ[lst[[1]],v,x] && OddHyperbolicPowerQ[lst[[2]],v,x]]],
-  Catch[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Throw[False]]],u];True]]]]]]]
-
-OddHyperbolicPowerQ[u_,v_,x_] :=
-  If[SinhQ[u] || CoshQ[u] || SechQ[u] || CschQ[u],
-    OddQuotientQ[u[[1]],v],
-  If[PowerQ[u],
-    OddQ[u[[2]]] && OddHyperbolicPowerQ[u[[1]],v,x],
-  If[ProductQ[u],
-    If[NeQ[FreeFactors[u,x],1],
-      OddHyperbolicPowerQ[NonfreeFactors[u,x],v,x],
-    With[{lst=ReapList[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Sow[#]]],u]]},
-    If[lst==={},
-      True,
-    Length[lst]==1 && OddHyperbolicPowerQ[lst[[1]],v,x]]]],
-  If[SumQ[u],
-    Catch[Scan[Function[If[Not[OddHyperbolicPowerQ[#,v,x]],Throw[False]]],u];True],
-  False]]]]
-
-
-(* u is a function of the form f[Tanh[v],Coth[v]] where f is independent of x.
-FunctionOfTanhWeight[u,v,x] returns a nonnegative number if u is best considered a function
-of Tanh[v]; else it returns a negative number. *)
-FunctionOfTanhWeight[u_,v_,x_] :=
-  If[AtomQ[u],
-    0,
-  If[CalculusQ[u],
-    0,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[TanhQ[u] && EqQ[u[[1]],v],
-      1,
-    If[CothQ[u] && EqQ[u[[1]],v],
-      -1,
-    0]],
-  If[PowerQ[u] && EvenQ[u[[2]]] && HyperbolicQ[u[[1]]] && IntegerQuotientQ[u[[1,1]],v],
-    If[TanhQ[u[[1]]] || CoshQ[u[[1]]] || SechQ[u[[1]]],
-      1,
-    -1],
-  If[ProductQ[u],
-    If[Catch[Scan[Function[If[Not[FunctionOfTanhQ[#,v,x]],Throw[False]]],u];True],
-      Apply[Plus,Map[Function[FunctionOfTanhWeight[#,v,x]],Apply[List,u]]],
-    0],
-  Apply[Plus,Map[Function[FunctionOfTanhWeight[#,v,x]],Apply[List,u]]]]]]]]
-
-
-(* If u (x) is equivalent to a function of the form f (Sinh[v],Cosh[v],Tanh[v],Coth[v],Sech[v],Csch[v])
-	where f is independent of x, FunctionOfHyperbolicQ[u,v,x] returns True; else it returns False. *)
-FunctionOfHyperbolicQ[u_,v_,x_Symbol] :=
-  If[AtomQ[u],
-    u=!=x,
-  If[CalculusQ[u],
-    False,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-    True,
-  Catch[Scan[Function[If[FunctionOfHyperbolicQ[#,v,x],Null,Throw[False]]],u];True]]]]
-
-
-(* If func[w]^m is a factor of u where m is odd and w is an integer multiple of v, 
-	FindTrigFactor[func1,func2,u,v,True] returns the list {w,u/func[w]^n}; else it returns False. *)
-(* If func[w]^m is a factor of u where m is odd and w is an integer multiple of v not equal to v, 
-	FindTrigFactor[func1,func2,u,v,False] returns the list {w,u/func[w]^n}; else it returns False. *)
-FindTrigFactor[func1_,func2_,u_,v_,flag_] :=
-  If[u===1,
-    False,
-  If[(Head[LeadBase[u]]===func1 || Head[LeadBase[u]]===func2) && 
-		OddQ[LeadDegree[u]] && 
-		IntegerQuotientQ[LeadBase[u][[1]],v] && 
-		(flag || NeQ[LeadBase[u][[1]],v]),
-    {LeadBase[u][[1]], RemainingFactors[u]},
-  With[{lst=FindTrigFactor[func1,func2,RemainingFactors[u],v,flag]},
-  If[AtomQ[lst],
-    False,
-  {lst[[1]], LeadFactor[u]*lst[[2]]}]]]]
-
-
-(* If u/v is an integer, IntegerQuotientQ[u,v] returns True; else it returns False. *)
-IntegerQuotientQ[u_,v_] :=
-(* u===v || EqQ[u,v] || IntegerQ[u/v] *)
-  IntegerQ[Simplify[u/v]]
-
-(* If u/v is odd, OddQuotientQ[u,v] returns True; else it returns False. *)
-OddQuotientQ[u_,v_] :=
-(* u===v || EqQ[u,v] || OddQ[u/v] *)
-  OddQ[Simplify[u/v]]
-
-(* If u/v is even, EvenQuotientQ[u,v] returns True; else it returns False. *)
-EvenQuotientQ[u_,v_] :=
-  EvenQ[Simplify[u/v]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfDensePolynomialsQ*)
-
-
-(* If all occurrences of x in u (x) are in dense polynomials, FunctionOfDensePolynomialsQ[u,x]
-	returns True; else it returns False. *)
-FunctionOfDensePolynomialsQ[u_,x_Symbol] :=
-  If[FreeQ[u,x],
-    True,
-  If[PolynomialQ[u,x],
-    Length[Exponent[u,x,List]]>1,
-  Catch[
-  Scan[Function[If[FunctionOfDensePolynomialsQ[#,x],Null,Throw[False]]],u];
-  True]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfLog*)
-
-
-(* If u (x) is equivalent to an expression of the form f (Log[a*x^n]), FunctionOfLog[u,x] returns
-	the list {f (x),a*x^n,n}; else it returns False. *)
-FunctionOfLog[u_,x_Symbol] :=
-  With[{lst=FunctionOfLog[u,False,False,x]},
-  If[AtomQ[lst] || FalseQ[lst[[2]]],
-    False,
-  lst]]
-
-
-FunctionOfLog[u_,v_,n_,x_] :=
-  If[AtomQ[u],
-    If[u===x,
-      False,
-    {u,v,n}],
-  If[CalculusQ[u],
-    False,
-  Module[{lst},
-  If[LogQ[u] && ListQ[lst=BinomialParts[u[[1]],x]] && EqQ[lst[[1]],0],
-    If[FalseQ[v] || u[[1]]===v,
-      {x,u[[1]],lst[[3]]},
-    False],
-  lst={0,v,n};
-  Catch[
-    {Map[Function[lst=FunctionOfLog[#,lst[[2]],lst[[3]],x];
-				  If[AtomQ[lst],Throw[False],lst[[1]]]],
-			u],lst[[2]],lst[[3]]}]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*PowerVariableExpn*)
-
-
-(* If m is an integer, u is an expression of the form f[(c*x)^n] and g=GCD[m,n]>1,
-   PowerVariableExpn[u,m,x] returns the list {x^(m/g)*f[(c*x)^(n/g)],g,c}; else it returns False. *)
-PowerVariableExpn[u_,m_,x_Symbol] :=
-  If[IntegerQ[m],
-    With[{lst=PowerVariableDegree[u,m,1,x]},
-    If[AtomQ[lst],
-      False,
-    {x^(m/lst[[1]])*PowerVariableSubst[u,lst[[1]],x], lst[[1]], lst[[2]]}]],
-  False]
-
-
-PowerVariableDegree[u_,m_,c_,x_Symbol] :=
-  If[FreeQ[u,x],
-    {m, c},
-  If[AtomQ[u] || CalculusQ[u],
-    False,
-  If[PowerQ[u] && FreeQ[u[[1]]/x,x],
-    If[EqQ[m,0] || m===u[[2]] && c===u[[1]]/x,
-      {u[[2]], u[[1]]/x},
-    If[IntegerQ[u[[2]]] && IntegerQ[m] && GCD[m,u[[2]]]>1 && c===u[[1]]/x,
-      {GCD[m,u[[2]]], c},
-    False]],
-  Catch[Module[{lst={m, c}},
-  Scan[Function[lst=PowerVariableDegree[#,lst[[1]],lst[[2]],x];If[AtomQ[lst],Throw[False]]],u];
-  lst]]]]]
-
-
-PowerVariableSubst[u_,m_,x_Symbol] :=
-  If[FreeQ[u,x] || AtomQ[u] ||CalculusQ[u],
-    u,
-  If[PowerQ[u] && FreeQ[u[[1]]/x,x],
-    x^(u[[2]]/m),
-  Map[Function[PowerVariableSubst[#,m,x]],u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*EulerIntegrandQ*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*Note: If an Euler substitution should be used to integrate u wrt x,  EulerIntegrandQ[u,x] returns True.*)
-
-
-EulerIntegrandQ[(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
-  True /;
-FreeQ[{a,b},x] && IntegerQ[n+1/2] && QuadraticQ[u,x] && (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
-
-
-EulerIntegrandQ[v_^m_.*(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
-  True /;
-FreeQ[{a,b},x] && EqQ[u,v] && IntegersQ[2*m,n+1/2] && QuadraticQ[u,x] && 
-  (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
-
-
-EulerIntegrandQ[v_^m_.*(a_.*x_+b_.*u_^n_)^p_,x_Symbol] :=
-  True /;
-FreeQ[{a,b},x] && EqQ[u,v] && IntegersQ[2*m,n+1/2] && QuadraticQ[u,x] && 
-  (Not[RationalQ[p]] || NegativeIntegerQ[p] && Not[BinomialQ[u,x]])
-
-
-EulerIntegrandQ[u_^n_*v_^p_,x_Symbol] :=
-  True /;
-NegativeIntegerQ[p] && IntegerQ[n+1/2] && QuadraticQ[u,x] && QuadraticQ[v,x] && Not[BinomialQ[v,x]]
-
-EulerIntegrandQ[u_,x_Symbol] :=
-  False
-
-
-(* ::Subsection::Closed:: *)
-(*FunctionOfSquareRootOfQuadratic*)
-
-
-(*
-Euler substitution #2:
-  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
-	PosQ[c], FunctionOfSquareRootOfQuadratic[u,x] returns the 3-element list {
-		f ((a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x),(-a+x^2)/(b+2*Sqrt[c]*x))*
-		  (a*Sqrt[c]+b*x+Sqrt[c]*x^2)/(b+2*Sqrt[c]*x)^2,
-		Sqrt[c]*x+Sqrt[a+b*x+c*x^2], 2 };
-
-Euler substitution #1:
-  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
-	PosQ[a], FunctionOfSquareRootOfQuadratic[u,x] returns the two element list {
-		f ((c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2),(-b+2*Sqrt[a]*x)/(c-x^2))*
-		  (c*Sqrt[a]-b*x+Sqrt[a]*x^2)/(c-x^2)^2,
-		(-Sqrt[a]+Sqrt[a+b*x+c*x^2])/x, 1 };
-
-Euler substitution #3:
-  If u is an expression of the form f (Sqrt[a+b*x+c*x^2],x), f (x,x) is a rational function, and
-	NegQ[a] and NegQ[c], FunctionOfSquareRootOfQuadratic[u,x] returns the two element list {
-		-Sqrt[b^2-4*a*c]*
-		f (-Sqrt[b^2-4*a*c]*x/(c-x^2),-(b*c+c*Sqrt[b^2-4*a*c]+(-b+Sqrt[b^2-4*a*c])*x^2)/(2*c*(c-x^2)))*
-		  x/(c-x^2)^2,
-		2*c*Sqrt[a+b*x+c*x^2]/(b-Sqrt[b^2-4*a*c]+2*c*x), 3 };
-
-  else it returns False. *)
-
-FunctionOfSquareRootOfQuadratic[u_,x_Symbol] :=
-  If[MatchQ[u,x^m_.*(a_+b_.*x^n_.)^p_ /; FreeQ[{a,b,m,n,p},x]],
-    False,
-  Module[{tmp=FunctionOfSquareRootOfQuadratic[u,False,x]},
-  If[AtomQ[tmp] || FalseQ[tmp[[1]]],
-    False,
-  tmp=tmp[[1]];
-  Module[{a=Coefficient[tmp,x,0],b=Coefficient[tmp,x,1],c=Coefficient[tmp,x,2],sqrt,q,r},
-  If[EqQ[a,0] && EqQ[b,0] || EqQ[b^2-4*a*c,0],
-    False,
-  If[PosQ[c],
-    sqrt=Rt[c,2];
-    q=a*sqrt+b*x+sqrt*x^2;
-    r=b+2*sqrt*x;
-    {Simplify[SquareRootOfQuadraticSubst[u,q/r,(-a+x^2)/r,x]*q/r^2],
-     Simplify[sqrt*x+Sqrt[tmp]],
-     2},
-  If[PosQ[a],
-    sqrt=Rt[a,2];
-    q=c*sqrt-b*x+sqrt*x^2;
-    r=c-x^2;
-    {Simplify[SquareRootOfQuadraticSubst[u,q/r,(-b+2*sqrt*x)/r,x]*q/r^2],
-     Simplify[(-sqrt+Sqrt[tmp])/x],
-     1},
-  sqrt=Rt[b^2-4*a*c,2];
-  r=c-x^2;
-  {Simplify[-sqrt*SquareRootOfQuadraticSubst[u,-sqrt*x/r,-(b*c+c*sqrt+(-b+sqrt)*x^2)/(2*c*r),x]*x/r^2],
-   FullSimplify[2*c*Sqrt[tmp]/(b-sqrt+2*c*x)],
-   3}]]]]]]]
-
-
-FunctionOfSquareRootOfQuadratic[u_,v_,x_Symbol] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    {v},
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    If[FractionQ[u[[2]]] && Denominator[u[[2]]]==2 && PolynomialQ[u[[1]],x] && Exponent[u[[1]],x]==2,
-      If[(FalseQ[v] || u[[1]]===v),
-        {u[[1]]},
-      False],
-    FunctionOfSquareRootOfQuadratic[u[[1]],v,x]],
-  If[ProductQ[u] || SumQ[u],
-    Catch[Module[{lst={v}},
-    Scan[Function[lst=FunctionOfSquareRootOfQuadratic[#,lst[[1]],x];If[AtomQ[lst],Throw[False]]],u];
-    lst]],
-  False]]]
-
-
-(* SquareRootOfQuadraticSubst[u,vv,xx,x] returns u with fractional powers replaced by vv raised
-	to the power and x replaced by xx. *)
-SquareRootOfQuadraticSubst[u_,vv_,xx_,x_Symbol] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    If[u===x,
-      xx,
-    u],
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    If[FractionQ[u[[2]]] && Denominator[u[[2]]]==2 && PolynomialQ[u[[1]],x] && Exponent[u[[1]],x]==2,
-      vv^Numerator[u[[2]]],
-    SquareRootOfQuadraticSubst[u[[1]],vv,xx,x]^u[[2]]],
-  Map[Function[SquareRootOfQuadraticSubst[#,vv,xx,x]],u]]]
-
-
-(* ::Section::Closed:: *)
-(*Substitution functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*Subst*)
-
-
-(* Subst[u,x,w] returns u with x replaced by w and resulting constant terms replaced by 0. *) 
-Subst[u_,x_Symbol,w_] :=
-  SimplifyAntiderivative[SubstAux[u,x,w],x]
-
-Subst[u_,Rule[x_Symbol,w_]] :=
-  SimplifyAntiderivative[SubstAux[u,x,w],x]
-
-Subst[u_,x_,w_] :=
-  SubstAux[u,x,w]
-
-
-SubstAux[a_+b_.*x_,x_Symbol,c_.*F_[z_]^2] :=
-  a*Simplify[1-F[z]^2] /;
-FreeQ[{a,b,c},x] && MemberQ[{Sin,Cos,Sec,Csc,Cosh,Tanh,Coth,Sech},F] && EqQ[a+b*c,0]
-
-SubstAux[a_+b_.*x_,x_Symbol,c_.*F_[z_]^2] :=
-  a*Simplify[1+F[z]^2] /;
-FreeQ[{a,b,c},x] && MemberQ[{Tan,Cot,Sinh,Csch},F] && EqQ[a-b*c,0]
-
-
-SubstAux[a_+b_.*x_^2,x_Symbol,c_.*F_[z_]] :=
-  a*Simplify[1-F[z]^2] /;
-FreeQ[{a,b,c},x] && MemberQ[{Sin,Cos,Sec,Csc,Cosh,Tanh,Coth,Sech},F] && EqQ[a+b*c^2,0]
-
-SubstAux[a_+b_.*x_^2,x_Symbol,c_.*F_[z_]] :=
-  a*Simplify[1+F[z]^2] /;
-FreeQ[{a,b,c},x] && MemberQ[{Tan,Cot,Sinh,Csch},F] && EqQ[a-b*c^2,0]
-
-
-SubstAux[F_[a_.*x_^m_.],x_Symbol,b_.*x_^n_] :=
-   Extract[{ArcCsc,ArcSec,ArcCot,ArcTan,ArcCos,ArcSin,ArcCsch,ArcSech,ArcCoth,ArcTanh,ArcCosh,ArcSinh},
-  Position[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc,ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},F]][[1]] [x^(-m*n)/(a*b^m)] /;
-FreeQ[{a,b},x] && PositiveIntegerQ[m] && NegativeIntegerQ[n] && MemberQ[{ArcSin,ArcCos,ArcTan,ArcCot,ArcSec,ArcCsc,ArcSinh,ArcCosh,ArcTanh,ArcCoth,ArcSech,ArcCsch},F]
-
-
-(* Subst[u,v,w] returns u with all nondummy occurences of v replaced by w *)
-SubstAux[u_,v_,w_] :=
-  If[u===v,
-    w,
-  If[AtomQ[u],
-    u,
-  If[PowerQ[u],
-    If[PowerQ[v] && u[[1]]===v[[1]] && SumQ[u[[2]]],
-      SubstAux[u[[1]]^First[u[[2]]],v,w]*SubstAux[u[[1]]^Rest[u[[2]]],v,w],
-    SubstAux[u[[1]],v,w]^SubstAux[u[[2]],v,w]],
-  If[Head[u]===Defer[Subst],
-    If[u[[2]]===v || FreeQ[u[[1]],v],
-      SubstAux[u[[1]],u[[2]],SubstAux[u[[3]],v,w]],
-    Defer[Subst][u,v,w]],
-  If[Head[u]===Defer[Dist],
-    Defer[Dist][SubstAux[u[[1]],v,w],SubstAux[u[[2]],v,w],u[[3]]],
-  If[CalculusQ[u] && Not[FreeQ[v,u[[2]]]] || HeldFormQ[u] && Head[u]=!=Defer[AppellF1],
-    Defer[Subst][u,v,w],
-  Map[Function[SubstAux[#,v,w]],u]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SimplifyAntiderivative*)
-
-
-(* ::Item::Closed:: *)
-(*SimplifyAntiderivative[u,x] returns the simplest, continuous expression whose derivative wrt x equals the derivative of u wrt x.*)
-
-
-(* ::Item:: *)
-(*Basis: D[c*F[x], x] == c*D[F[x], x]*)
-
-
-Clear[SimplifyAntiderivative];
-
-SimplifyAntiderivative[c_*u_,x_Symbol] :=
-  With[{v=SimplifyAntiderivative[u,x]},
-  If[SumQ[v] && NonsumQ[u],
-    Map[Function[c*#],v],
-  c*v]] /;
-FreeQ[c,x]
-
-
-(* ::Item:: *)
-(*Basis: D[Log[c*F[x]], x] == D[Log[F[x]], x]*)
-
-
-SimplifyAntiderivative[Log[c_*u_],x_Symbol] :=
-  SimplifyAntiderivative[Log[u],x] /;
-FreeQ[c,x]
-
-
-(* ::Item:: *)
-(*Basis: D[Log[F[x]^n], x] == n*D[Log[F[x]], x]*)
-
-
-SimplifyAntiderivative[Log[u_^n_],x_Symbol] :=
-  n*SimplifyAntiderivative[Log[u],x] /;
-FreeQ[n,x]
-
-
-(* ::Item:: *)
-(*Basis: If  F\[Element]{Log,ArcTan,ArcCot}, then D[F[G[x]], x] == -D[F[1/G[x]], x]*)
-
-
-SimplifyAntiderivative[F_[G_[u_]],x_Symbol] :=
-  -SimplifyAntiderivative[F[1/G[u]],x] /;
-MemberQ[{Log,ArcTan,ArcCot},F] && MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},G]
-
-
-(* ::Item:: *)
-(*Basis: If  F\[Element]{ArcTanh,ArcCoth}, then D[F[G[x]], x] == D[F[1/G[x]], x]*)
-
-
-SimplifyAntiderivative[F_[G_[u_]],x_Symbol] :=
-  SimplifyAntiderivative[F[1/G[u]],x] /;
-MemberQ[{ArcTanh,ArcCoth},F] && MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},G]
-
-
-SimplifyAntiderivative[Log[F_[u_]],x_Symbol] :=
-  -SimplifyAntiderivative[Log[1/F[u]],x] /;
-MemberQ[{Cot,Sec,Csc,Coth,Sech,Csch},F]
-
-
-(* ::Item:: *)
-(*Basis: D[Log[f^G[x]], x] == Log[f]*D[G[x], x]*)
-
-
-SimplifyAntiderivative[Log[f_^u_],x_Symbol] :=
-  Log[f]*SimplifyAntiderivative[u,x] /;
-FreeQ[f,x]
-
-
-(* ::Item:: *)
-(*Basis: If  a^2+b^2==0, then D[Log[a + b*Tan[F[x]]], x] == (b*D[F[x], x])/a - D[Log[Cos[F[x]]], x]*)
-
-
-SimplifyAntiderivative[Log[a_+b_.*Tan[u_]],x_Symbol] :=
-  b/a*SimplifyAntiderivative[u,x] - SimplifyAntiderivative[Log[Cos[u]],x] /;
-FreeQ[{a,b},x] && EqQ[a^2+b^2,0]
-
-
-(* ::Item:: *)
-(*Basis: If  a^2+b^2==0, then D[Log[a + b*Cot[F[x]]], x] == -((b/a)*D[F[x], x]) - D[Log[Sin[F[x]]], x]*)
-
-
-SimplifyAntiderivative[Log[a_+b_.*Cot[u_]],x_Symbol] :=
-  -b/a*SimplifyAntiderivative[u,x] - SimplifyAntiderivative[Log[Sin[u]],x] /;
-FreeQ[{a,b},x] && EqQ[a^2+b^2,0]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*Note: Should also recognize that Tan[z/2]==Sin[z]/(1+Cos[z])==Tan[z]/(1+Sec[z])*)
-
-
-SimplifyAntiderivative[ArcTan[a_.*Tan[u_]],x_Symbol] :=
-  RectifyTangent[u,a,1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCot[a*Tan[f[x]]], x] == -D[ArcTan[a*Tan[f[x]]], x]*)
-
-
-SimplifyAntiderivative[ArcCot[a_.*Tan[u_]],x_Symbol] :=
-  RectifyTangent[u,a,-1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcTan[a Tanh[z]]==-ArcTan[I a Tan[I z]]*)
-
-
-(* SimplifyAntiderivative[ArcTan[a_.*Tanh[u_]],x_Symbol] :=
-  RectifyTangent[I*u,I*a,-1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCot[a*Tanh[f[x]]], x] == -D[ArcTan[a*Tanh[f[x]]], x]*)
-
-
-SimplifyAntiderivative[ArcCot[a_.*Tanh[u_]],x_Symbol] :=
-  -SimplifyAntiderivative[ArcTan[a*Tanh[u]],x] /;
-FreeQ[a,x] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcTanh[a Tan[z]]==-I ArcTan[I a Tan[z]]*)
-
-
-SimplifyAntiderivative[ArcTanh[a_.*Tan[u_]],x_Symbol] :=
-  RectifyTangent[u,I*a,-I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCoth[a*Tan[f[x]]], x] == -(I*D[ArcTan[I*a*Tan[f[x]]], x])*)
-
-
-SimplifyAntiderivative[ArcCoth[a_.*Tan[u_]],x_Symbol] :=
-  RectifyTangent[u,I*a,-I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcTanh[a Tanh[z]]==-I ArcTan[a Tan[I z]]*)
-
-
-(* ::Item:: *)
-(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
-
-
-(* SimplifyAntiderivative[ArcTanh[a_.*Tanh[u_]],x_Symbol] :=
-  RectifyTangent[I*u,a,-I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[Tanh[f[x]]], x] == D[f[x], x]*)
-
-
-SimplifyAntiderivative[ArcTanh[Tanh[u_]],x_Symbol] :=
-  SimplifyAntiderivative[u,x]
-
-
-(* ::Item::Closed:: *)
-(*Basis: D[ArcCoth[a*Tanh[f[x]]], x] == -(I*D[ArcTan[a*Tan[I*f[x]]], x])*)
-
-
-(* ::Item:: *)
-(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
-
-
-(* SimplifyAntiderivative[ArcCoth[a_.*Tanh[u_]],x_Symbol] :=
-  RectifyTangent[I*u,a,-I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCoth[Tanh[f[x]]], x] == D[f[x], x]*)
-
-
-SimplifyAntiderivative[ArcCoth[Tanh[u_]],x_Symbol] :=
-  SimplifyAntiderivative[u,x]
-
-
-(* ::Input:: *)
-(* *)
-
-
-SimplifyAntiderivative[ArcCot[a_.*Cot[u_]],x_Symbol] :=
-  RectifyCotangent[u,a,1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a*Cot[f[x]]], x] == -D[ArcCot[a*Cot[f[x]]], x]*)
-
-
-SimplifyAntiderivative[ArcTan[a_.*Cot[u_]],x_Symbol] :=
-  RectifyCotangent[u,a,-1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcCot[a Coth[z]]==ArcCot[I a Cot[I z]]*)
-
-
-(* SimplifyAntiderivative[ArcCot[a_.*Coth[u_]],x_Symbol] :=
-  RectifyCotangent[I*u,I*a,1,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a*Coth[f[x]]], x] == -D[ArcTan[Tanh[f[x]]/a], x]*)
-
-
-SimplifyAntiderivative[ArcTan[a_.*Coth[u_]],x_Symbol] :=
-  -SimplifyAntiderivative[ArcTan[Tanh[u]/a],x] /;
-FreeQ[a,x] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcCoth[a Cot[z]]==I ArcCot[I a Cot[z]]*)
-
-
-SimplifyAntiderivative[ArcCoth[a_.*Cot[u_]],x_Symbol] :=
-  RectifyCotangent[u,I*a,I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[a*Cot[f[x]]], x] == I*D[ArcCot[I*a*Cot[f[x]]], x]*)
-
-
-SimplifyAntiderivative[ArcTanh[a_.*Cot[u_]],x_Symbol] :=
-  RectifyCotangent[u,I*a,I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u]
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcCoth[a Coth[z]]==-I ArcCot[a Cot[I z]]*)
-
-
-(* ::Item:: *)
-(*Note: Although this makes the antiderivative continuous on the imaginary line, it makes it discontinous on the real line.*)
-
-
-(* SimplifyAntiderivative[ArcCoth[a_.*Coth[u_]],x_Symbol] :=
-  RectifyCotangent[I*u,a,-I,x] /;
-FreeQ[a,x] && PositiveQ[a^2] && ComplexFreeQ[u] *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCoth[Coth[f[x]]], x] == D[f[x], x]*)
-
-
-SimplifyAntiderivative[ArcCoth[Coth[u_]],x_Symbol] :=
-  SimplifyAntiderivative[u,x]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[a*Coth[f[x]]], x] == D[ArcTanh[Tanh[f[x]]/a], x]*)
-
-
-SimplifyAntiderivative[ArcTanh[a_.*Coth[u_]],x_Symbol] :=
-  SimplifyAntiderivative[ArcTanh[Tanh[u]/a],x] /;
-FreeQ[a,x] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[Coth[f[x]]], x] == D[f[x], x]*)
-
-
-SimplifyAntiderivative[ArcTanh[Coth[u_]],x_Symbol] :=
-  SimplifyAntiderivative[u,x]
-
-
-(* ::Input:: *)
-(* *)
-
-
-SimplifyAntiderivative[ArcTan[c_.*(a_+b_.*Tan[u_])],x_Symbol] :=
-  RectifyTangent[u,a*c,b*c,1,x] /;
-FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcTanh[a+b Tan[z]]==-I ArcTan[I a+I b Tan[z]]*)
-
-
-SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Tan[u_])],x_Symbol] :=
-  RectifyTangent[u,I*a*c,I*b*c,-I,x] /;
-FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
-
-
-(* ::Input:: *)
-(* *)
-
-
-SimplifyAntiderivative[ArcTan[c_.*(a_+b_.*Cot[u_])],x_Symbol] :=
-  RectifyCotangent[u,a*c,b*c,1,x] /;
-FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: ArcTanh[a+b Cot[z]]==-I ArcTan[I a+I b Cot[z]]*)
-
-
-SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Cot[u_])],x_Symbol] :=
-  RectifyCotangent[u,I*a*c,I*b*c,-I,x] /;
-FreeQ[{a,b,c},x] && PositiveQ[a^2*c^2] && PositiveQ[b^2*c^2] && ComplexFreeQ[u]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + b*Tan[F[x]] + c*Tan[F[x]]^2], x] == D[ArcTan[(c + (a - c - 1)*Cos[F[x]]^2 + b*Cos[F[x]]*Sin[F[x]])/(c + (a - c + 1)*Cos[F[x]]^2 + b*Cos[F[x]]*Sin[F[x]])], x] == D[ArcTan[(a + c - 1 + (a - c - 1)*Cos[2*F[x]] + b*Sin[2*F[x]])/(a + c + 1 + (a - c + 1)*Cos[2*F[x]] + b*Sin[2*F[x]])], x]*)
-
-
-SimplifyAntiderivative[ArcTan[a_.+b_.*Tan[u_]+c_.*Tan[u_]^2],x_Symbol] :=
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    ArcTan[NormalizeTogether[(a+c-1+(a-c-1)*Cos[2*u]+b*Sin[2*u])/(a+c+1+(a-c+1)*Cos[2*u]+b*Sin[2*u])]],
-  ArcTan[NormalizeTogether[(c+(a-c-1)*Cos[u]^2+b*Cos[u]*Sin[u])/(c+(a-c+1)*Cos[u]^2+b*Cos[u]*Sin[u])]]] /;
-FreeQ[{a,b,c},x] && ComplexFreeQ[u]
-
-SimplifyAntiderivative[ArcTan[a_.+b_.*(d_.+e_.*Tan[u_])+c_.*(f_.+g_.*Tan[u_])^2],x_Symbol] :=
-  SimplifyAntiderivative[ArcTan[a+b*d+c*f^2+(b*e+2*c*f*g)*Tan[u]+c*g^2*Tan[u]^2],x] /;
-FreeQ[{a,b,c},x] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + c*Tan[F[x]]^2], x] == D[ArcTan[(c + (a - c - 1)*Cos[F[x]]^2)/(c + (a - c + 1)*Cos[F[x]]^2)], x] == D[ArcTan[(a + c - 1 + (a - c - 1)*Cos[2*F[x]])/(a + c + 1 + (a - c + 1)*Cos[2*F[x]])], x]*)
-
-
-SimplifyAntiderivative[ArcTan[a_.+c_.*Tan[u_]^2],x_Symbol] :=
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    ArcTan[NormalizeTogether[(a+c-1+(a-c-1)*Cos[2*u])/(a+c+1+(a-c+1)*Cos[2*u])]],
-  ArcTan[NormalizeTogether[(c+(a-c-1)*Cos[u]^2)/(c+(a-c+1)*Cos[u]^2)]]] /;
-FreeQ[{a,c},x] && ComplexFreeQ[u]
-
-SimplifyAntiderivative[ArcTan[a_.+c_.*(f_.+g_.*Tan[u_])^2],x_Symbol] :=
-  SimplifyAntiderivative[ArcTan[a+c*f^2+(2*c*f*g)*Tan[u]+c*g^2*Tan[u]^2],x] /;
-FreeQ[{a,c},x] && ComplexFreeQ[u]
-
-
-(* ::Item:: *)
-(*Basis: D[c, x] == D[0, x]*)
-
-
-SimplifyAntiderivative[u_,x_Symbol] :=
-  If[FreeQ[u,x],
-    0,
-  If[LogQ[u],
-    Log[RemoveContent[u[[1]],x]],
-  If[SumQ[u],
-    SimplifyAntiderivativeSum[Map[Function[SimplifyAntiderivative[#,x]],u],x],
-  u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SimplifyAntiderivativeSum*)
-
-
-Clear[SimplifyAntiderivativeSum];
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[Cos[u_]],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] /;
-FreeQ[{a,b,A,B},x] && IntegerQ[n] && EqQ[n*A-B,0]
-
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[Sin[u_]],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Sin[u]^n+b*Cos[u]^n,x]] /;
-FreeQ[{a,b,A,B},x] && IntegerQ[n] && EqQ[n*A-B,0]
-
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[c_+d_.*Tan[u_]^n_.],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] + B*Log[RemoveContent[c*Cos[u]^n+d*Sin[u]^n,x]] /;
-FreeQ[{a,b,c,d,A,B},x] && IntegerQ[n] && EqQ[A+B,0]
-
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[c_+d_.*Cot[u_]^n_.],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[b*Cos[u]^n+a*Sin[u]^n,x]] + B*Log[RemoveContent[d*Cos[u]^n+c*Sin[u]^n,x]] /;
-FreeQ[{a,b,c,d,A,B},x] && IntegerQ[n] && EqQ[A+B,0]
-
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Tan[u_]^n_.]+B_.*Log[c_+d_.*Tan[u_]^n_.]+C_.*Log[e_+f_.*Tan[u_]^n_.],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[a*Cos[u]^n+b*Sin[u]^n,x]] + 
-	B*Log[RemoveContent[c*Cos[u]^n+d*Sin[u]^n,x]] + C*Log[RemoveContent[e*Cos[u]^n+f*Sin[u]^n,x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && IntegerQ[n] && EqQ[A+B+C,0]
-
-
-SimplifyAntiderivativeSum[v_.+A_.*Log[a_+b_.*Cot[u_]^n_.]+B_.*Log[c_+d_.*Cot[u_]^n_.]+C_.*Log[e_+f_.*Cot[u_]^n_.],x_Symbol] :=
-  SimplifyAntiderivativeSum[v,x] + A*Log[RemoveContent[b*Cos[u]^n+a*Sin[u]^n,x]] + 
-	B*Log[RemoveContent[d*Cos[u]^n+c*Sin[u]^n,x]] + C*Log[RemoveContent[f*Cos[u]^n+e*Sin[u]^n,x]] /;
-FreeQ[{a,b,c,d,e,f,A,B,C},x] && IntegerQ[n] && EqQ[A+B+C,0]
-
-
-SimplifyAntiderivativeSum[u_,x_Symbol] := u
-
-
-(* ::Subsection::Closed:: *)
-(*RectifyTangent*)
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcTan[I a Tan[f[x]]]==I ArcTanh[a Tan[f[x]]]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[e*Cos[f[x]] + c*Sin[f[x]]]/2 - Log[e*Cos[f[x]] - c*Sin[f[x]]]/2, x]*)
-
-
-(* ::Item:: *)
-(*Note: Note unlike the above, the log terms in the following two identities are real-valued when c, e and f[x] are real.*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[c^2 + e^2 - (c^2 - e^2)*Cos[2*f[x]] + 2*c*e*Sin[2*f[x]]]/4 - Log[c^2 + e^2 - (c^2 - e^2)*Cos[2*f[x]] - 2*c*e*Sin[2*f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[(c/e)*Tan[f[x]]], x] == D[Log[e^2 + 2*c*e*Cos[f[x]]*Sin[f[x]] + (c^2 - e^2)*Sin[f[x]]^2]/4 - Log[e^2 - 2*c*e*Cos[f[x]]*Sin[f[x]] + (c^2 - e^2)*Sin[f[x]]^2]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a*Tan[f[x]]], x] == D[f[x] - ArcTan[Sin[2*f[x]]/((1 + a)/(1 - a) + Cos[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a*Tan[f[x]]], x] == D[f[x] + ArcTan[(Cos[f[x]]*Sin[f[x]])/(1/(a - 1) + Sin[f[x]]^2)], x] == D[f[x] - ArcTan[(Cos[f[x]]*Sin[f[x]])/(a/(1 - a) + Cos[f[x]]^2)], x]*)
-
-
-(* ::Item::Bold:: *)
-(*Note: If  a>0 and f[x] is real, then 1/(1-a)-Sin[f[x]]^2 is nonzero and f[x]-ArcTan[(Cos[f[x]] Sin[f[x]])/(1/(1-a)-Sin[f[x]]^2)] is continuous, unlike ArcTan[a Tan[f[x]]].*)
-
-
-(* RectifyTangent[u,a,b,x] returns an expression whose derivative equals the derivative of b*ArcTan[a*Tan[u]] wrt x. *)
-RectifyTangent[u_,a_,b_,x_Symbol] :=
-  If[MatchQ[Together[a],d_.*Complex[0,c_]],
-    Module[{c=a/I,e},
-    If[NegativeQ[c],
-      RectifyTangent[u,-a,-b,x],
-    If[EqQ[c,1],
-      If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-        I*b*ArcTanh[Sin[2*u]]/2,
-      I*b*ArcTanh[2*Cos[u]*Sin[u]]/2],
-    e=SmartDenominator[c];
-    c=c*e;
-(*  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-      I*b*Log[RemoveContent[c^2+e^2-(c^2-e^2)*Cos[2*u]+2*c*e*Sin[2*u],x]]/4 - 
-      I*b*Log[RemoveContent[c^2+e^2-(c^2-e^2)*Cos[2*u]-2*c*e*Sin[2*u],x]]/4,
-    I*b*Log[RemoveContent[e^2+2*c*e*Cos[u]*Sin[u]+(c^2-e^2)*Sin[u]^2,x]]/4 - 
-    I*b*Log[RemoveContent[e^2-2*c*e*Cos[u]*Sin[u]+(c^2-e^2)*Sin[u]^2,x]]/4]]]], *)
-    I*b*Log[RemoveContent[e*Cos[u]+c*Sin[u],x]]/2 - 
-    I*b*Log[RemoveContent[e*Cos[u]-c*Sin[u],x]]/2]]],
-  If[NegativeQ[a],
-    RectifyTangent[u,-a,-b,x],
-  If[EqQ[a,1],
-    b*SimplifyAntiderivative[u,x],
-  Module[{c,numr,denr},
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    c=Simplify[(1+a)/(1-a)];
-    numr=SmartNumerator[c];
-    denr=SmartDenominator[c];
-    b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Sin[2*u]/(numr+denr*Cos[2*u])]],
-  If[PositiveQ[a-1],
-    c=Simplify[1/(a-1)];
-    numr=SmartNumerator[c];
-    denr=SmartDenominator[c];
-    b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Sin[u]^2)]],
-  c=Simplify[a/(1-a)];
-  numr=SmartNumerator[c];
-  denr=SmartDenominator[c];
-  b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Cos[u]^2)]]]]]]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcTan[I a+I b Tan[f[x]]]==I ArcTanh[a+b Tan[f[x]]]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[c/e + (d/e)*Tan[f[x]]], x] == D[Log[(c + e)^2 + d^2 + ((c + e)^2 - d^2)*Cos[2*f[x]] + 2*(c + e)*d*Sin[2*f[x]]]/4 - Log[(c - e)^2 + d^2 + ((c - e)^2 - d^2)*Cos[2*f[x]] + 2*(c - e)*d*Sin[2*f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[c/e + (d/e)*Tan[f[x]]], x] == D[Log[(c + e)^2 + 2*(c + e)*d*Cos[f[x]]*Sin[f[x]] - ((c + e)^2 - d^2)*Sin[f[x]]^2]/4 - Log[(c - e)^2 + 2*(c - e)*d*Cos[f[x]]*Sin[f[x]] - ((c - e)^2 - d^2)*Sin[f[x]]^2]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + b*Tan[f[x]]], x] == D[f[x] + ArcTan[(2*a*b*Cos[2*f[x]] - (1 + a^2 - b^2)*Sin[2*f[x]])/(a^2 + (1 + b)^2 + (1 + a^2 - b^2)*Cos[2*f[x]] + 2*a*b*Sin[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + b*Tan[f[x]]], x] == D[f[x] - ArcTan[(a*b - 2*a*b*Cos[f[x]]^2 + (1 + a^2 - b^2)*Cos[f[x]]*Sin[f[x]])/(b*(1 + b) + (1 + a^2 - b^2)*Cos[f[x]]^2 + 2*a*b*Cos[f[x]]*Sin[f[x]])], x]*)
-
-
-(* RectifyTangent[u,a,b,r,x] returns an expression whose derivative equals the derivative of r*ArcTan[a+b*Tan[u]] wrt x. *)
-RectifyTangent[u_,a_,b_,r_,x_Symbol] :=
-  If[MatchQ[Together[a],d_.*Complex[0,c_]] && MatchQ[Together[b],d_.*Complex[0,c_]],
-    Module[{c=a/I,d=b/I,e},
-    If[NegativeQ[d],
-      RectifyTangent[u,-a,-b,-r,x],
-    e=SmartDenominator[Together[c+d*x]];
-    c=c*e;
-    d=d*e;
-    If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-      I*r*Log[RemoveContent[Simplify[(c+e)^2+d^2]+Simplify[(c+e)^2-d^2]*Cos[2*u]+Simplify[2*(c+e)*d]*Sin[2*u],x]]/4 - 
-      I*r*Log[RemoveContent[Simplify[(c-e)^2+d^2]+Simplify[(c-e)^2-d^2]*Cos[2*u]+Simplify[2*(c-e)*d]*Sin[2*u],x]]/4,
-    I*r*Log[RemoveContent[Simplify[(c+e)^2]+Simplify[2*(c+e)*d]*Cos[u]*Sin[u]-Simplify[(c+e)^2-d^2]*Sin[u]^2,x]]/4 - 
-    I*r*Log[RemoveContent[Simplify[(c-e)^2]+Simplify[2*(c-e)*d]*Cos[u]*Sin[u]-Simplify[(c-e)^2-d^2]*Sin[u]^2,x]]/4]]],
-  If[NegativeQ[b],
-    RectifyTangent[u,-a,-b,-r,x],
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    r*SimplifyAntiderivative[u,x] + 
-    r*ArcTan[Simplify[(2*a*b*Cos[2*u]-(1+a^2-b^2)*Sin[2*u])/(a^2+(1+b)^2+(1+a^2-b^2)*Cos[2*u]+2*a*b*Sin[2*u])]],
-  r*SimplifyAntiderivative[u,x] - 
-  r*ArcTan[ActivateTrig[Simplify[(a*b-2*a*b*cos[u]^2+(1+a^2-b^2)*cos[u]*sin[u])/(b*(1+b)+(1+a^2-b^2)*cos[u]^2+2*a*b*cos[u]*sin[u])]]]]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item::Closed:: *)
-(*Basis: D[ArcTanh[a + b*Tanh[f[x]]], x] == D[f[x] - ArcTanh[(2*a*b*Cosh[2*f[x]] - (1 - a^2 - b^2)*Sinh[2*f[x]])/(a^2 - (1 + b)^2 - (1 - a^2 - b^2)*Cosh[2*f[x]] + 2*a*b*Sinh[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[a + b*Tanh[f[x]]], x] == D[f[x] - ArcTanh[(a*b - 2*a*b*Cosh[f[x]]^2 + (1 - a^2 - b^2)*Cosh[f[x]]*Sinh[f[x]])/(b*(1 + b) + (1 - a^2 - b^2)*Cosh[f[x]]^2 - 2*a*b*Cosh[f[x]]*Sinh[f[x]])], x]*)
-
-
-(* SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Tanh[u_])],x_Symbol] :=
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    SimplifyAntiderivative[u,x] - 
-    ArcTanh[NormalizeTogether[(2*a*b*c^2*Cosh[2*u]-(1-a^2*c^2-b^2*c^2)*Sinh[2*u])/(a^2*c^2-(1+b*c)^2-(1-a^2*c^2-b^2*c^2)*Cosh[2*u]+2*a*b*c^2*Sinh[2*u])]],
-  SimplifyAntiderivative[u,x] - 
-  ArcTanh[NormalizeTogether[(a*b*c^2-2*a*b*c^2*Cosh[u]^2+(1-a^2*c^2-b^2*c^2)*Cosh[u]*Sinh[u])/(b*c*(1+b*c)+(1-a^2*c^2-b^2*c^2)*Cosh[u]^2-2*a*b*c^2*Cosh[u]*Sinh[u])]]] /;
-FreeQ[{a,b,c},x] *)
-
-
-(* ::Subsection::Closed:: *)
-(*RectifyCotangent*)
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcCot[I a Cot[f[x]]]==-I ArcCoth[a Cot[f[x]]]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCoth[(c/e)*Cot[f[x]]], x] == D[Log[c*Cos[f[x]] + e*Sin[f[x]]]/2 - Log[c*Cos[f[x]] - e*Sin[f[x]]]/2, x]*)
-
-
-(* ::Item:: *)
-(*Note: Note unlike the above, the log terms in the following two identities are real-valued when c, e and f[x] are real.*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[(c/e)*Cot[f[x]]], x] == D[Log[c^2 + e^2 + (c^2 - e^2)*Cos[2*f[x]] + 2*c*e*Sin[2*f[x]]]/4 - Log[c^2 + e^2 + (c^2 - e^2)*Cos[2*f[x]] - 2*c*e*Sin[2*f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[(c/e)*Cot[f[x]]], x] == D[Log[e^2 + (c^2 - e^2)*Cos[f[x]]^2 + 2*c*e*Cos[f[x]]*Sin[f[x]]]/4 - Log[e^2 + (c^2 - e^2)*Cos[f[x]]^2 - 2*c*e*Cos[f[x]]*Sin[f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCot[a*Cot[f[x]]], x] == D[f[x] + ArcTan[Sin[2*f[x]]/((1 + a)/(1 - a) - Cos[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcCot[a*Cot[f[x]]], x] == D[f[x] - ArcTan[(Cos[f[x]]*Sin[f[x]])/(1/(a - 1) + Cos[f[x]]^2)], x] == D[f[x] + ArcTan[(Cos[f[x]]*Sin[f[x]])/(a/(1 - a) + Sin[f[x]]^2)], x]*)
-
-
-(* RectifyCotangent[u,a,b,x] returns an expression whose derivative equals the derivative of b*ArcCot[a*Cot[u]] wrt x. *)
-RectifyCotangent[u_,a_,b_,x_Symbol] :=
-  If[MatchQ[Together[a],d_.*Complex[0,c_]],
-    Module[{c=a/I,e},
-    If[NegativeQ[c],
-      RectifyCotangent[u,-a,-b,x],
-    If[EqQ[c,1],
-      If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-        -I*b*ArcTanh[Sin[2*u]]/2,
-      -I*b*ArcTanh[2*Cos[u]*Sin[u]]/2],
-    e=SmartDenominator[c];
-    c=c*e;
-(*  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-      -I*b*Log[RemoveContent[c^2+e^2+(c^2-e^2)*Cos[2*u]+2*c*e*Sin[2*u],x]]/4 + 
-       I*b*Log[RemoveContent[c^2+e^2+(c^2-e^2)*Cos[2*u]-2*c*e*Sin[2*u],x]]/4,
-    -I*b*Log[RemoveContent[e^2+(c^2-e^2)*Cos[u]^2+2*c*e*Cos[u]*Sin[u],x]]/4 + 
-     I*b*Log[RemoveContent[e^2+(c^2-e^2)*Cos[u]^2-2*c*e*Cos[u]*Sin[u],x]]/4]]]], *)
-    -I*b*Log[RemoveContent[c*Cos[u]+e*Sin[u],x]]/2 + 
-    I*b*Log[RemoveContent[c*Cos[u]-e*Sin[u],x]]/2]]],
-  If[NegativeQ[a],
-    RectifyCotangent[u,-a,-b,x],
-  If[EqQ[a,1],
-    b*SimplifyAntiderivative[u,x],
-  Module[{c,numr,denr},
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    c=Simplify[(1+a)/(1-a)];
-    numr=SmartNumerator[c];
-    denr=SmartDenominator[c];
-    b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Sin[2*u]/(numr-denr*Cos[2*u])]],
-  If[PositiveQ[a-1],
-    c=Simplify[1/(a-1)];
-    numr=SmartNumerator[c];
-    denr=SmartDenominator[c];
-    b*SimplifyAntiderivative[u,x] - b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Cos[u]^2)]],
-  c=Simplify[a/(1-a)];
-  numr=SmartNumerator[c];
-  denr=SmartDenominator[c];
-  b*SimplifyAntiderivative[u,x] + b*ArcTan[NormalizeLeadTermSigns[denr*Cos[u]*Sin[u]/(numr+denr*Sin[u]^2)]]]]]]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item::Closed:: *)
-(*Basis: ArcTan[I a+I b Cot[f[x]]]==I ArcTanh[a+b Cot[f[x]]]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[c/e + (d/e)*Cot[f[x]]], x] == D[Log[(c + e)^2 + d^2 - ((c + e)^2 - d^2)*Cos[2*f[x]] + 2*(c + e)*d*Sin[2*f[x]]]/4 - Log[(c - e)^2 + d^2 - ((c - e)^2 - d^2)*Cos[2*f[x]] + 2*(c - e)*d*Sin[2*f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[c/e + (d/e)*Cot[f[x]]], x] == D[Log[(c + e)^2 - ((c + e)^2 - d^2)*Cos[f[x]]^2 + 2*(c + e)*d*Cos[f[x]]*Sin[f[x]]]/4 - Log[(c - e)^2 - ((c - e)^2 - d^2)*Cos[f[x]]^2 + 2*(c - e)*d*Cos[f[x]]*Sin[f[x]]]/4, x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + b*Cot[f[x]]], x] == D[-f[x] - ArcTan[(2*a*b*Cos[2*f[x]] + (1 + a^2 - b^2)*Sin[2*f[x]])/(a^2 + (1 + b)^2 - (1 + a^2 - b^2)*Cos[2*f[x]] + 2*a*b*Sin[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTan[a + b*Cot[f[x]]], x] == D[-f[x] - ArcTan[(a*b - 2*a*b*Sin[f[x]]^2 + (1 + a^2 - b^2)*Cos[f[x]]*Sin[f[x]])/(b*(1 + b) + (1 + a^2 - b^2)*Sin[f[x]]^2 + 2*a*b*Cos[f[x]]*Sin[f[x]])], x]*)
-
-
-(* RectifyCotangent[u,a,b,r,x] returns an expression whose derivative equals the derivative of r*ArcTan[a+b*Cot[u]] wrt x. *)
-RectifyCotangent[u_,a_,b_,r_,x_Symbol] :=
-  If[MatchQ[Together[a],d_.*Complex[0,c_]] && MatchQ[Together[b],d_.*Complex[0,c_]],
-    Module[{c=a/I,d=b/I,e},
-    If[NegativeQ[d],
-      RectifyTangent[u,-a,-b,-r,x],
-    e=SmartDenominator[Together[c+d*x]];
-    c=c*e;
-    d=d*e;
-    If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-      I*r*Log[RemoveContent[Simplify[(c+e)^2+d^2]-Simplify[(c+e)^2-d^2]*Cos[2*u]+Simplify[2*(c+e)*d]*Sin[2*u],x]]/4 - 
-      I*r*Log[RemoveContent[Simplify[(c-e)^2+d^2]-Simplify[(c-e)^2-d^2]*Cos[2*u]+Simplify[2*(c-e)*d]*Sin[2*u],x]]/4,
-    I*r*Log[RemoveContent[Simplify[(c+e)^2]-Simplify[(c+e)^2-d^2]*Cos[u]^2+Simplify[2*(c+e)*d]*Cos[u]*Sin[u],x]]/4 - 
-    I*r*Log[RemoveContent[Simplify[(c-e)^2]-Simplify[(c-e)^2-d^2]*Cos[u]^2+Simplify[2*(c-e)*d]*Cos[u]*Sin[u],x]]/4]]],
-  If[NegativeQ[b],
-    RectifyCotangent[u,-a,-b,-r,x],
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    -r*SimplifyAntiderivative[u,x] - 
-    r*ArcTan[Simplify[(2*a*b*Cos[2*u]+(1+a^2-b^2)*Sin[2*u])/(a^2+(1+b)^2-(1+a^2-b^2)*Cos[2*u]+2*a*b*Sin[2*u])]],
-  -r*SimplifyAntiderivative[u,x] - 
-  r*ArcTan[ActivateTrig[Simplify[(a*b-2*a*b*sin[u]^2+(1+a^2-b^2)*cos[u]*sin[u])/(b*(1+b)+(1+a^2-b^2)*sin[u]^2+2*a*b*cos[u]*sin[u])]]]]]]
-
-
-(* ::Input:: *)
-(* *)
-
-
-(* ::Item::Closed:: *)
-(*Basis: D[ArcTanh[a + b*Coth[f[x]]], x] == D[f[x] - ArcTanh[(2*a*b*Cosh[2*f[x]] - (1 - a^2 - b^2)*Sinh[2*f[x]])/(-a^2 + (1 + b)^2 - (1 - a^2 - b^2)*Cosh[2*f[x]] + 2*a*b*Sinh[2*f[x]])], x]*)
-
-
-(* ::Item:: *)
-(*Basis: D[ArcTanh[a + b*Coth[f[x]]], x] == D[f[x] - ArcTanh[(a*b + 2*a*b*Sinh[f[x]]^2 - (1 - a^2 - b^2)*Cosh[f[x]]*Sinh[f[x]])/(b*(1 + b) - (1 - a^2 - b^2)*Sinh[f[x]]^2 + 2*a*b*Cosh[f[x]]*Sinh[f[x]])], x]*)
-
-
-(* SimplifyAntiderivative[ArcTanh[c_.*(a_+b_.*Coth[u_])],x_Symbol] :=
-  If[EvenQ[Denominator[NumericFactor[Together[u]]]],
-    SimplifyAntiderivative[u,x] - 
-    ArcTanh[NormalizeTogether[(2*a*b*c^2*Cosh[2*u]-(1-a^2*c^2-b^2*c^2)*Sinh[2*u])/(-a^2*c^2+(1+b*c)^2-(1-a^2*c^2-b^2*c^2)*Cosh[2*u]+2*a*b*c^2*Sinh[2*u])]],
-  SimplifyAntiderivative[u,x] - 
-  ArcTanh[NormalizeTogether[(a*b*c^2+2*a*b*c^2*Sinh[u]^2-(1-a^2*c^2-b^2*c^2)*Cosh[u]*Sinh[u])/(b*c*(1+b*c)-(1-a^2*c^2-b^2*c^2)*Sinh[u]^2+2*a*b*c^2*Cosh[u]*Sinh[u])]]] /;
-FreeQ[{a,b,c},x] *)
-
-
-SmartNumerator[u_^n_] := SmartDenominator[u^(-n)] /; RationalQ[n] && n<0
-
-SmartNumerator[u_*v_] := SmartNumerator[u]*SmartNumerator[v]
-
-SmartNumerator[u_] := Numerator[u]
-
-
-SmartDenominator[u_^n_] := SmartNumerator[u^(-n)] /; RationalQ[n] && n<0
-
-SmartDenominator[u_*v_] := SmartDenominator[u]*SmartDenominator[v]
-
-SmartDenominator[u_] := Denominator[u]
-
-
-(* ::Subsection::Closed:: *)
-(*SubstFor*)
-
-
-(* u is a function of v.  SubstFor[w,v,u,x] returns w times u with v replaced by x. *)
-SubstFor[w_,v_,u_,x_] :=
-  SimplifyIntegrand[w*SubstFor[v,u,x],x]
-
-
-(* u is a function of v.  SubstFor[v,u,x] returns u with v replaced by x. *)
-SubstFor[v_,u_,x_] :=
-  If[AtomQ[v],
-    Subst[u,v,x],
-  If[Not[InertTrigFreeQ[u]],
-    SubstFor[v,ActivateTrig[u],x],
-  If[NeQ[FreeFactors[v,x],1],
-    SubstFor[NonfreeFactors[v,x],u,x/FreeFactors[v,x]],
-
-  If[SinQ[v],
-    SubstForTrig[u,x,Sqrt[1-x^2],v[[1]],x],
-  If[CosQ[v],
-    SubstForTrig[u,Sqrt[1-x^2],x,v[[1]],x],
-  If[TanQ[v],
-    SubstForTrig[u,x/Sqrt[1+x^2],1/Sqrt[1+x^2],v[[1]],x],
-  If[CotQ[v],
-    SubstForTrig[u,1/Sqrt[1+x^2],x/Sqrt[1+x^2],v[[1]],x],
-  If[SecQ[v],
-    SubstForTrig[u,1/Sqrt[1-x^2],1/x,v[[1]],x],
-  If[CscQ[v],
-    SubstForTrig[u,1/x,1/Sqrt[1-x^2],v[[1]],x],
-
-  If[SinhQ[v],
-    SubstForHyperbolic[u,x,Sqrt[1+x^2],v[[1]],x],
-  If[CoshQ[v],
-    SubstForHyperbolic[u,Sqrt[-1+x^2],x,v[[1]],x],
-  If[TanhQ[v],
-    SubstForHyperbolic[u,x/Sqrt[1-x^2],1/Sqrt[1-x^2],v[[1]],x],
-  If[CothQ[v],
-    SubstForHyperbolic[u,1/Sqrt[-1+x^2],x/Sqrt[-1+x^2],v[[1]],x],
-  If[SechQ[v],
-    SubstForHyperbolic[u,1/Sqrt[-1+x^2],1/x,v[[1]],x],
-  If[CschQ[v],
-    SubstForHyperbolic[u,1/x,1/Sqrt[1+x^2],v[[1]],x],
-
-  SubstForAux[u,v,x]]]]]]]]]]]]]]]]
-
-
-(* u is a function of v.  SubstForAux[u,v,x] returns u with v replaced by x. *)
-SubstForAux[u_,v_,x_] :=
-  If[u===v,
-    x,
-  If[AtomQ[u],
-    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u,v[[1]]],
-      x^Simplify[1/v[[2]]],
-    u],
-  If[PowerQ[u] && FreeQ[u[[2]],x],
-    If[EqQ[u[[1]],v],
-      x^u[[2]],
-    If[PowerQ[v] && FreeQ[v[[2]],x] && EqQ[u[[1]],v[[1]]],
-      x^Simplify[u[[2]]/v[[2]]],
-    SubstForAux[u[[1]],v,x]^u[[2]]]],
-  If[ProductQ[u] && NeQ[FreeFactors[u,x],1],
-    FreeFactors[u,x]*SubstForAux[NonfreeFactors[u,x],v,x],
-  If[ProductQ[u] && ProductQ[v],
-    SubstForAux[First[u],First[v],x],
-  Map[Function[SubstForAux[#,v,x]],u]]]]]]
-
-
-(* u (v) is an expression of the form f (Sin[v],Cos[v],Tan[v],Cot[v],Sec[v],Csc[v]). *)
-(* SubstForTrig[u,sin,cos,v,x] returns the expression f (sin,cos,sin/cos,cos/sin,1/cos,1/sin). *)
-SubstForTrig[u_,sin_,cos_,v_,x_] :=
-  If[AtomQ[u],
-    u,
-  If[TrigQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[u[[1]]===v || EqQ[u[[1]],v],
-      If[SinQ[u],
-        sin,
-      If[CosQ[u],
-        cos,
-      If[TanQ[u],
-        sin/cos,
-      If[CotQ[u],
-        cos/sin,
-      If[SecQ[u],
-        1/cos,
-      1/sin]]]]],
-    Map[Function[SubstForTrig[#,sin,cos,v,x]],
-			ReplaceAll[TrigExpand[Head[u][Simplify[u[[1]]/v]*x]],x->v]]],
-  If[ProductQ[u] && CosQ[u[[1]]] && SinQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
-    sin/2*SubstForTrig[Drop[u,2],sin,cos,v,x],
-  Map[Function[SubstForTrig[#,sin,cos,v,x]],u]]]]
-
-
-(* u (v) is an expression of the form f (Sinh[v],Cosh[v],Tanh[v],Coth[v],Sech[v],Csch[v]). *)
-(* SubstForHyperbolic[u,sinh,cosh,v,x] returns the expression
-		f (sinh,cosh,sinh/cosh,cosh/sinh,1/cosh,1/sinh). *)
-SubstForHyperbolic[u_,sinh_,cosh_,v_,x_] :=
-  If[AtomQ[u],
-    u,
-  If[HyperbolicQ[u] && IntegerQuotientQ[u[[1]],v],
-    If[u[[1]]===v || EqQ[u[[1]],v],
-      If[SinhQ[u],
-        sinh,
-      If[CoshQ[u],
-        cosh,
-      If[TanhQ[u],
-        sinh/cosh,
-      If[CothQ[u],
-        cosh/sinh,
-      If[SechQ[u],
-        1/cosh,
-      1/sinh]]]]],
-    Map[Function[SubstForHyperbolic[#,sinh,cosh,v,x]],
-			ReplaceAll[TrigExpand[Head[u][Simplify[u[[1]]/v]*x]],x->v]]],
-  If[ProductQ[u] && CoshQ[u[[1]]] && SinhQ[u[[2]]] && EqQ[u[[1,1]],v/2] && EqQ[u[[2,1]],v/2],
-    sinh/2*SubstForHyperbolic[Drop[u,2],sinh,cosh,v,x],
-  Map[Function[SubstForHyperbolic[#,sinh,cosh,v,x]],u]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SubstForFractionalPowerOfLinear*)
-
-
-(* If u has a subexpression of the form (a+b*x)^(m/n) where m and n>1 are integers, 
-	SubstForFractionalPowerOfLinear[u,x] returns the list {v,n,a+b*x,1/b} where v is u
-	with subexpressions of the form (a+b*x)^(m/n) replaced by x^m and x replaced
-	by -a/b+x^n/b, and all times x^(n-1); else it returns False. *)
-SubstForFractionalPowerOfLinear[u_,x_Symbol] :=
-  With[{lst=FractionalPowerOfLinear[u,1,False,x]},
-  If[AtomQ[lst] || FalseQ[lst[[2]]],
-    False,
-  With[{n=lst[[1]], a=Coefficient[lst[[2]],x,0], b=Coefficient[lst[[2]],x,1]},
-  With[{tmp=Simplify[x^(n-1)*SubstForFractionalPower[u,lst[[2]],n,-a/b+x^n/b,x]]},
-  {NonfreeFactors[tmp,x],n,lst[[2]],FreeFactors[tmp,x]/b}]]]]
-
-
-(* If u has a subexpression of the form (a+b*x)^(m/n), 
-	FractionalPowerOfLinear[u,1,False,x] returns {n,a+b*x}; else it returns False. *)
-FractionalPowerOfLinear[u_,n_,v_,x_] :=
-  If[AtomQ[u] || FreeQ[u,x],
-    {n,v},
-  If[CalculusQ[u],
-    False,
-  If[FractionalPowerQ[u] && LinearQ[u[[1]],x] && (FalseQ[v] || EqQ[u[[1]],v]),
-    {LCM[Denominator[u[[2]]],n],u[[1]]},
-  Catch[Module[{lst={n,v}},
-    Scan[Function[If[AtomQ[lst=FractionalPowerOfLinear[#,lst[[1]],lst[[2]],x]],Throw[False]]],u];
-    lst]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*InverseFunctionOfLinear*)
-
-
-(* If u has a subexpression of the form g[a+b*x] where g is an inverse function, 
-	InverseFunctionOfLinear[u,x] returns g[a+b*x]; else it returns False. *)
-InverseFunctionOfLinear[u_,x_Symbol] :=
-  If[AtomQ[u] || CalculusQ[u] || FreeQ[u,x],
-    False,
-  If[InverseFunctionQ[u] && LinearQ[u[[1]],x],
-    u,
-  Module[{tmp},
-  Catch[
-    Scan[Function[If[Not[AtomQ[tmp=InverseFunctionOfLinear[#,x]]],Throw[tmp]]],u];
-    False]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TryPureTanSubst*)
-
-
-TryPureTanSubst[u_,x_Symbol] :=
-(*  Not[MatchQ[u,Log[v_]]] &&
-  Not[MatchQ[u,f_[v_]^2 /; LinearQ[v,x]]] &&
-  Not[MatchQ[u,ArcTan[a_.*Tan[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcTan[a_.*Cot[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcCot[a_.*Tan[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcCot[a_.*Cot[v_]] /; FreeQ[a,x]]] &&
-  u===ExpandIntegrand[u,x] *)
-  Not[MatchQ[u,F_[c_.*(a_.+b_.*G_[v_])] /; FreeQ[{a,b,c},x] && MemberQ[{ArcTan,ArcCot,ArcTanh,ArcCoth},F] && MemberQ[{Tan,Cot,Tanh,Coth},G] && LinearQ[v,x]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TryPureTanhSubst*)
-
-
-TryTanhSubst[u_,x_Symbol] :=
-  FalseQ[FunctionOfLinear[u,x]] &&
-  Not[MatchQ[u,r_.*(s_+t_)^n_. /; IntegerQ[n] && n>0]] &&
-(*Not[MatchQ[u,Log[f_[x]^2] /; SinhCoshQ[f]]]  && *)
-  Not[MatchQ[u,Log[v_]]]  &&
-  Not[MatchQ[u,1/(a_+b_.*f_[x]^n_) /; SinhCoshQ[f] && IntegerQ[n] && n>2]] &&
-  Not[MatchQ[u,f_[m_.*x]*g_[n_.*x] /; IntegersQ[m,n] && SinhCoshQ[f] && SinhCoshQ[g]]] &&
-  Not[MatchQ[u,r_.*(a_.*s_^m_)^p_ /; FreeQ[{a,m,p},x] && Not[m===2 && (s===Sech[x] || s===Csch[x])]]] &&
-  u===ExpandIntegrand[u,x]
-
-
-TryPureTanhSubst[u_,x_Symbol] :=
-  Not[MatchQ[u,Log[v_]]]  &&
-  Not[MatchQ[u,ArcTanh[a_.*Tanh[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcTanh[a_.*Coth[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcCoth[a_.*Tanh[v_]] /; FreeQ[a,x]]] &&
-  Not[MatchQ[u,ArcCoth[a_.*Coth[v_]] /; FreeQ[a,x]]] &&
-  u===ExpandIntegrand[u,x]
-
-
-(* ::Section::Closed:: *)
-(*Inert trig functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*InertTrigQ*)
-
-
-InertTrigQ[f_] := MemberQ[{sin,cos,tan,cot,sec,csc},f]
-
-InertTrigQ[f_,g_] := 
-  If[f===g,
-    InertTrigQ[f],
-  InertReciprocalQ[f,g] || InertReciprocalQ[g,f]]
-
-InertTrigQ[f_,g_,h_] := InertTrigQ[f,g] && InertTrigQ[g,h]
-
-
-InertReciprocalQ[f_,g_] := f===sin && g===csc || f===cos && g===sec || f===tan && g===cot
-
-
-InertTrigFreeQ[u_] := FreeQ[u,sin] && FreeQ[u,cos] && FreeQ[u,tan] && FreeQ[u,cot] && FreeQ[u,sec] && FreeQ[u,csc]
-
-
-(* ::Subsection::Closed:: *)
-(*ActivateTrig[u]*)
-
-
-ActivateTrig[u_] :=
-  ReplaceAll[u,{sin->Sin,cos->Cos,tan->Tan,cot->Cot,sec->Sec,csc->Csc}]
-
-
-(* ::Subsection::Closed:: *)
-(*DeactivateTrig[u,x]*)
-
-
-(* u is a function of trig functions of a linear function of x. *)
-(* DeactivateTrig[u,x] returns u with the trig functions replaced with inert trig functions. *)
-
-
-DeactivateTrig[(c_.+d_.*x_)^m_.*(a_.+b_.*trig_[e_.+f_.*x_])^n_.,x_] :=
-  (c+d*x)^m*(a+b*DeactivateTrig[trig[e+f*x],x])^n /;
-FreeQ[{a,b,c,d,e,f,m,n},x] && (TrigQ[trig] || HyperbolicQ[trig])
-
-
-DeactivateTrig[u_,x_] :=
-  UnifyInertTrigFunction[FixInertTrigFunction[DeactivateTrigAux[u,x],x],x]
-
-
-DeactivateTrigAux[u_,x_] :=
-  If[AtomQ[u],
-    u,
-  If[TrigQ[u] && LinearQ[u[[1]],x],
-    With[{v=ExpandToSum[u[[1]],x]},
-    Switch[Head[u],
-	  Sin, ReduceInertTrig[sin,v],
-	  Cos, ReduceInertTrig[cos,v],
-	  Tan, ReduceInertTrig[tan,v],
-	  Cot, ReduceInertTrig[cot,v],
-	  Sec, ReduceInertTrig[sec,v],
-	  Csc, ReduceInertTrig[csc,v]]],
-  If[HyperbolicQ[u] && LinearQ[u[[1]],x],
-    With[{v=ExpandToSum[I*u[[1]],x]},
-    Switch[Head[u],
-	  Sinh, -I*ReduceInertTrig[sin,v],
-	  Cosh, ReduceInertTrig[cos,v],
-	  Tanh, -I*ReduceInertTrig[tan,v],
-	  Coth, I*ReduceInertTrig[cot,v],
-	  Sech, ReduceInertTrig[sec,v],
-	  Csch, I*ReduceInertTrig[csc,v]]],
-  Map[Function[DeactivateTrigAux[#,x]],u]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*FixInertTrigFunction[u,x]*)
-
-
-Clear[FixInertTrigFunction]
-
-FixInertTrigFunction[a_*u_,x_] :=
-  a*FixInertTrigFunction[u,x] /;
-FreeQ[a,x]
-
-FixInertTrigFunction[u_.*(a_*(b_+v_))^n_,x_] :=
-  FixInertTrigFunction[u*(a*b+a*v)^n,x] /;
-FreeQ[{a,b,n},x] && Not[FreeQ[v,x]]
-
-
-FixInertTrigFunction[csc[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
-  sin[v]^(-m)*(c*sin[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[sec[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
-  cos[v]^(-m)*(c*cos[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[cot[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
-  tan[v]^(-m)*(c*tan[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[tan[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
-  cot[v]^(-m)*(c*cot[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[cos[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
-  sec[v]^(-m)*(c*sec[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[sin[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
-  csc[v]^(-m)*(c*csc[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[sec[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
-  cos[v]^(-m)*(c*sin[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[csc[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
-  sin[v]^(-m)*(c*cos[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[cos[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
-  sec[v]^(-m)*(c*tan[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[sin[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
-  csc[v]^(-m)*(c*cot[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[sin[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
-  csc[v]^(-m)*(c*sec[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[cos[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
-  sec[v]^(-m)*(c*csc[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[cot[v_]^m_.*(c_.*sin[w_])^n_.,x_] :=
-  tan[v]^(-m)*(c*sin[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[tan[v_]^m_.*(c_.*cos[w_])^n_.,x_] :=
-  cot[v]^(-m)*(c*cos[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[csc[v_]^m_.*(c_.*tan[w_])^n_.,x_] :=
-  sin[v]^(-m)*(c*tan[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[sec[v_]^m_.*(c_.*cot[w_])^n_.,x_] :=
-  cos[v]^(-m)*(c*cot[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[cot[v_]^m_.*(c_.*sec[w_])^n_.,x_] :=
-  tan[v]^(-m)*(c*sec[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[tan[v_]^m_.*(c_.*csc[w_])^n_.,x_] :=
-  cot[v]^(-m)*(c*csc[w])^n /;
-FreeQ[{c,n},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[sec[v_]^m_.*sec[w_]^n_.,x_] :=
-  cos[v]^(-m)*cos[w]^(-n) /;
-IntegersQ[m,n]
-
-FixInertTrigFunction[csc[v_]^m_.*csc[w_]^n_.,x_] :=
-  sin[v]^(-m)*sin[w]^(-n) /;
-IntegersQ[m,n]
-
-
-FixInertTrigFunction[u_*tan[v_]^m_.*(a_+b_.*sin[w_])^n_.,x_] :=
-  sin[v]^m/cos[v]^m*FixInertTrigFunction[u*(a+b*sin[w])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_*cot[v_]^m_.*(a_+b_.*sin[w_])^n_.,x_] :=
-  cos[v]^m/sin[v]^m*FixInertTrigFunction[u*(a+b*sin[w])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_*tan[v_]^m_.*(a_+b_.*cos[w_])^n_.,x_] :=
-  sin[v]^m/cos[v]^m*FixInertTrigFunction[u*(a+b*cos[w])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_*cot[v_]^m_.*(a_+b_.*cos[w_])^n_.,x_] :=
-  cos[v]^m/sin[v]^m*FixInertTrigFunction[u*(a+b*cos[w])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[cot[v_]^m_.*(a_.+b_.*(c_.*sin[w_])^p_.)^n_.,x_] :=
-  tan[v]^(-m)*(a+b*(c*sin[w])^p)^n /;
-FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
-
-FixInertTrigFunction[tan[v_]^m_.*(a_.+b_.*(c_.*cos[w_])^p_.)^n_.,x_] :=
-  cot[v]^(-m)*(a+b*(c*cos[w])^p)^n /;
-FreeQ[{a,b,c,n,p},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[u_.*(c_.*sin[v_]^n_.)^p_.*w_,x_] :=
-  (c*sin[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,sin,x]
-
-FixInertTrigFunction[u_.*(c_.*cos[v_]^n_.)^p_.*w_,x_] :=
-  (c*cos[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,cos,x]
-
-FixInertTrigFunction[u_.*(c_.*tan[v_]^n_.)^p_.*w_,x_] :=
-  (c*tan[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,tan,x]
-
-FixInertTrigFunction[u_.*(c_.*cot[v_]^n_.)^p_.*w_,x_] :=
-  (c*cot[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,cot,x]
-
-FixInertTrigFunction[u_.*(c_.*sec[v_]^n_.)^p_.*w_,x_] :=
-  (c*sec[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,sec,x]
-
-FixInertTrigFunction[u_.*(c_.*csc[v_]^n_.)^p_.*w_,x_] :=
-  (c*csc[v]^n)^p*FixInertTrigFunction[u*w,x] /;
-FreeQ[{c,p},x] && PowerOfInertTrigSumQ[w,csc,x]
-
-
-FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
-  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cos,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
-  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,sin,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
-  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,sin,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
-  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cos,x] && IntegerQ[n]
-
-
-FixInertTrigFunction[u_.*cot[v_]^n_.*w_,x_] :=
-  tan[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*cos[v_]^n_.*w_,x_] :=
-  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*cos[v_]^n_*w_,x_] :=
-  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
-  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,tan,x] && IntegerQ[n]
-
-
-FixInertTrigFunction[u_.*tan[v_]^n_.*w_,x_] :=
-  cot[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
-  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
-  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
-  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,cot,x] && IntegerQ[n]
-
-
-FixInertTrigFunction[u_.*cos[v_]^n_.*w_,x_] :=
-  sec[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*cot[v_]^n_.*w_,x_] :=
-  tan[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*csc[v_]^n_.*w_,x_] :=
-  sin[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,sec,x] && IntegerQ[n]
-
-
-FixInertTrigFunction[u_.*sin[v_]^n_.*w_,x_] :=
-  csc[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*tan[v_]^n_.*w_,x_] :=
-  cot[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
-
-FixInertTrigFunction[u_.*sec[v_]^n_.*w_,x_] :=
-  cos[v]^(-n)*FixInertTrigFunction[u*w,x] /;
-PowerOfInertTrigSumQ[w,csc,x] && IntegerQ[n]
-
-
-FixInertTrigFunction[u_.*tan[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
-  sin[v]^m*cos[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_.*cot[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
-  cos[v]^m*sin[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_.*sec[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
-  cos[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-FixInertTrigFunction[u_.*csc[v_]^m_.*(a_.*sin[v_]+b_.*cos[v_])^n_.,x_] :=
-  sin[v]^(-m)*FixInertTrigFunction[u*(a*sin[v]+b*cos[v])^n,x] /;
-FreeQ[{a,b,n},x] && IntegerQ[m]
-
-
-FixInertTrigFunction[f_[v_]^m_.*(A_.+B_.*g_[v_]+C_.*g_[v_]^2),x_] :=
-  g[v]^(-m)*(A+B*g[v]+C*g[v]^2) /;
-FreeQ[{A,B,C},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
-
-FixInertTrigFunction[f_[v_]^m_.*(A_.+C_.*g_[v_]^2),x_] :=
-  g[v]^(-m)*(A+C*g[v]^2) /;
-FreeQ[{A,C},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
-
-
-FixInertTrigFunction[f_[v_]^m_.*(A_.+B_.*g_[v_]+C_.*g_[v_]^2)*(a_.+b_.*g_[v_])^n_.,x_] :=
-  g[v]^(-m)*(A+B*g[v]+C*g[v]^2)*(a+b*g[v])^n /;
-FreeQ[{a,b,A,B,C,n},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
-
-FixInertTrigFunction[f_[v_]^m_.*(A_.+C_.*g_[v_]^2)*(a_.+b_.*g_[v_])^n_.,x_] :=
-  g[v]^(-m)*(A+C*g[v]^2)*(a+b*g[v])^n /;
-FreeQ[{a,b,A,C,n},x] && IntegerQ[m] && (InertReciprocalQ[f,g] || InertReciprocalQ[g,f])
-
-
-FixInertTrigFunction[u_,x_] := u
-
-
-PowerOfInertTrigSumQ[u_,func_,x_] :=
-  MatchQ[u, (a_.+b_.*(c_.*func[w_])^n_.)^p_. /; FreeQ[{a,b,c,n,p},x] && Not[EqQ[a,0] && (IntegerQ[p] || EqQ[n,1])]] || 
-  MatchQ[u, (a_.+b_.*(d_.*func[w_])^p_.+c_.*(d_.*func[w_])^q_.)^n_. /; FreeQ[{a,b,c,d,n,p,q},x]]
-
-
-(* ::Subsection::Closed:: *)
-(*ReduceInertTrig[func,a,b,x]*)
-
-
-ReduceInertTrig[func_,m_.*(n_.*Pi+u_.)+v_.] :=
-  ReduceInertTrig[func,m*n,m*u+v] /;
-RationalQ[m,n]
-
-ReduceInertTrig[func_,m_.*Complex[0,mz_]*(n_.*Complex[0,nz_]*Pi+u_.)+v_.] :=
-  ReduceInertTrig[func,-m*mz*n*nz,m*mz*I*u+v] /;
-RationalQ[m,mz,n,nz]
-
-ReduceInertTrig[func_,u_] :=
-  func[u]
-
-
-(* func is an inert function and m is rational *)
-(* ReduceInertTrig[func,m_,u_] returns func[m*Pi+u] with m reduced 0<=m<1/2. *)
-ReduceInertTrig[func_,m_,u_] :=
-  If[m<0,
-    If[m>=-1/4,
-      func[m*Pi+u],
-    Switch[func,
-	  sin, -ReduceInertTrig[sin,-m,-u],
-	  cos, ReduceInertTrig[cos,-m,-u],
-	  tan, -ReduceInertTrig[tan,-m,-u],
-	  cot, -ReduceInertTrig[cot,-m,-u],
-	  sec, ReduceInertTrig[sec,-m,-u],
-	  csc, -ReduceInertTrig[csc,-m,-u]]],
-  If[m>=2,
-    ReduceInertTrig[func,Mod[m,2],u],
-  If[m>=1,
-    Switch[func,
-	  sin, -ReduceInertTrig[sin,m-1,u],
-	  cos, -ReduceInertTrig[cos,m-1,u],
-	  tan, ReduceInertTrig[tan,m-1,u],
-	  cot, ReduceInertTrig[cot,m-1,u],
-	  sec, -ReduceInertTrig[sec,m-1,u],
-	  csc, -ReduceInertTrig[csc,m-1,u]],
-  If[m>=1/2,
-    Switch[func,
-	  sin, ReduceInertTrig[cos,m-1/2,u],
-	  cos, -ReduceInertTrig[sin,m-1/2,u],
-	  tan, -ReduceInertTrig[cot,m-1/2,u],
-	  cot, -ReduceInertTrig[tan,m-1/2,u],
-	  sec, -ReduceInertTrig[csc,m-1/2,u],
-	  csc, ReduceInertTrig[sec,m-1/2,u]],
-  func[m*Pi+u]]]]] /;
-RationalQ[m]
-
-
-(* ::Subsection::Closed:: *)
-(*UnifyInertTrigFunction[u,x]*)
-
-
-Clear[UnifyInertTrigFunction]
-
-
-UnifyInertTrigFunction[a_*u_,x_] :=
-  a*UnifyInertTrigFunction[u,x] /;
-FreeQ[a,x]
-
-
-(* ::Subsubsection:: *)
-(*Cosine to sine*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.0 (a sin)^m (b trg)^n*)
-
-
-(* ::Text:: *)
-(*(a Cos[e+f x])^m (b Csc[e+f x])^n == (a Sin[e+Pi/2+f x])^m (-b Sec[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*csc[e_.+f_.*x_])^n_.,x_] :=
-  (a*sin[e+Pi/2+f*x])^m*(-b*sec[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(a Cos[e+f x])^m (b Sec[e+f x])^n == (a Sin[e+Pi/2+f x])^m (b Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (a*sin[e+Pi/2+f*x])^m*(b*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.1.1 (a+b sin)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^n == (a+b Sin[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  (a+b*sin[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.1.2 (g cos)^p (a+b sin)^m*)
-
-
-(* ::Text:: *)
-(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m == (g Cos[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
-  (g*cos[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Text:: *)
-(*(g Csc[e+f x])^p (a+b Cos[e+f x])^m == (g Sec[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
-  (g*sec[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.1.3 (g tan)^p (a+b sin)^m*)
-
-
-(* ::Text:: *)
-(*(g Cot[e+f x])^p (a+b Cos[e+f x])^m == (-g Tan[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m*)
-
-
-(* ::Text:: *)
-(*(g Cot[e+f x])^p (a+b Cos[e+f x])^m == (-g Tan[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
-  If[True,
-    (-g*tan[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m,
-  (-g*tan[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m] /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Text:: *)
-(*(g Tan[e+f x])^p (a+b Cos[e+f x])^m == (-g Cot[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*cos[e_.+f_.*x_])^m_.,x_] :=
-  (-g*cot[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.2.1 (a+b sin)^m (c+d sin)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.2.2 (g cos)^p (a+b sin)^m (c+d sin)^n*)
-
-
-(* ::Text:: *)
-(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Cos[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m (c-d Sin[e-Pi/2+f x])^n*)
-
-
-(* ::Text:: *)
-(*(g Sin[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (-g Cos[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*sin[e_.+f_. x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  If[IntegerQ[2*p] && p<0 && IntegerQ[2*n],
-    (g*cos[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m*(c-d*sin[e-Pi/2+f*x])^n,
-  (-g*cos[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n] /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Csc[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Sec[e-Pi/2+f x])^p (a-b Sin[e-Pi/2+f x])^m (c-d Sin[e-Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  (g*sec[e-Pi/2+f*x])^p*(a-b*sin[e-Pi/2+f*x])^m*(c-d*sin[e-Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.2.3 (g sin)^p (a+b sin)^m (c+d sin)^n*)
-
-
-(* ::Text:: *)
-(*(g Cos[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  (g*sin[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Cos[e+f x])^p (a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (g*sin[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Sec[e+f x])^p (a+b Cos[e+f x])^m (c+d Cos[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.,x_] :=
-  (g*csc[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Sec[e+f x])^p (a+b Cos[e+f x])^m (c+d Sec[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Sin[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (g*csc[e+Pi/2+f*x])^p*(a+b*sin[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.3.1 (a+b sin)^m (c+d sin)^n (A+B sin)*)
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+B Cos[e+f x]) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+B Sin[e+Pi/2+f x])*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]),x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+B*sin[e+Pi/2+f*x]) /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.4.1 (a+b sin)^m (A+B sin+C sin^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (A+B Cos[e+f x]+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (A+B Sin[e+Pi/2+f x]+C Sin[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(A+B*sin[e+Pi/2+f*x]+C*sin[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,e,f,A,B,C,m},x]
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (A+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (A+C Sin[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(A+C*sin[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,e,f,A,C,m},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.4.2 (a+b sin)^m (c+d sin)^n (A+B sin+C sin^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+B Cos[e+f x]+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+B Sin[e+Pi/2+f x]+C Sin[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+B_.*cos[e_.+f_.*x_]+C_.*cos[e_.+f_.*x_]^2),x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+B*sin[e+Pi/2+f*x]+C*sin[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x]
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x])^m (c+d Cos[e+f x])^n (A+C Cos[e+f x]^2) == (a+b Sin[e+Pi/2+f x])^m (c+d Sin[e+Pi/2+f x])^n (A+C Sin[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_])^m_.*(c_.+d_.*cos[e_.+f_.*x_])^n_.*(A_.+C_.*cos[e_.+f_.*x_]^2),x_] :=
-  (a+b*sin[e+Pi/2+f*x])^m*(c+d*sin[e+Pi/2+f*x])^n*(A+C*sin[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*1.7 (d trig)^m (a+b (c sin)^n)^p*)
-
-
-(* ::Text:: *)
-(*(a+b (c Cos[e+f x])^n)^p == (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_,x_] :=
-  (a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cos[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*sin[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sin[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cos[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cot[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*tan[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Tan[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cot[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Csc[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*sec[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sec[e+f x])^m (a+b (c Cos[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (c Sin[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cos[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*csc[e+Pi/2+f*x])^m*(a+b*(c*sin[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(a+b Cos[e+f x]^n)^m (A+B Cos[e+f x]^n) == (a+b Sin[e+Pi/2+f x]^n)^m (A+B Sin[e+Pi/2+f x]^n)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cos[e_.+f_.*x_]^n_)^m_.*(A_.+B_.*cos[e_.+f_.*x_]^n_),x_] :=
-  (a+b*sin[e+Pi/2+f*x]^n)^m*(A+B*sin[e+Pi/2+f*x]^n) /;
-FreeQ[{a,b,e,f,A,B,m,n},x] && Not[EqQ[a,0] && IntegerQ[m]]
-
-
-(* ::Subsubsection:: *)
-(*Cotangent to tangent*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.0 (a trg)^m (b tan)^n*)
-
-
-(* ::Text:: *)
-(*(a Cos[e+f x])^m (b Cot[e+f x])^n == (a Sin[e+Pi/2+f x])^m (-b Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*cos[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a*sin[e+Pi/2+f*x])^m*(-b*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(a Sin[e+f x])^m (b Cot[e+f x])^n == (a Cos[e-Pi/2+f x])^m (-b Tan[e-Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*sin[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a*cos[e-Pi/2+f*x])^m*(-b*tan[e-Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(a Csc[e+f x])^m (b Cot[e+f x])^n == (a Sec[e-Pi/2+f x])^m (-b Tan[e-Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*csc[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a*sec[e-Pi/2+f*x])^m*(-b*tan[e-Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(a Sec[e+f x])^m (b Cot[e+f x])^n == (a Csc[e+Pi/2+f x])^m (-b Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.*sec[e_.+f_.*x_])^m_.*(b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a*csc[e+Pi/2+f*x])^m*(-b*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.1.1 (a+b tan)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^n == (a-b Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a-b*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.1.2 (d sec)^m (a+b tan)^n*)
-
-
-(* ::Text:: *)
-(*(d Csc[e+f x])^m (a+b Cot[e+f x])^n == (d Sec[e-Pi/2+f x])^m (a-b Tan[e-Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (d*sec[e-Pi/2+f*x])^m*(a-b*tan[e-Pi/2+f*x])^n /;
-FreeQ[{a,b,d,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(d Sin[e+f x])^m (a+b Cot[e+f x])^n == (d Cos[e-Pi/2+f x])^m (a-b Tan[e-Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (d*cos[e-Pi/2+f*x])^m*(a-b*tan[e-Pi/2+f*x])^n /;
-FreeQ[{a,b,d,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.1.3 (d sin)^m (a+b tan)^n*)
-
-
-(* ::Text:: *)
-(*(d Cos[e+f x])^m (a+b Cot[e+f x])^n == (d Sin[e+Pi/2+f x])^m (a-b Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (d*sin[e+Pi/2+f*x])^m*(a-b*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,d,e,f,m,n},x]
-
-
-(* ::Text:: *)
-(*(d Sec[e+f x])^m (a+b Cot[e+f x])^n == (d Csc[e+Pi/2+f x])^m (a-b Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_+b_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (d*csc[e+Pi/2+f*x])^m*(a-b*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,d,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.2.1 (a+b tan)^m (c+d tan)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.2.3 (g tan)^p (a+b tan)^m (c+d tan)^n*)
-
-
-(* ::Text:: *)
-(*(g Cot[e+f x])^p (a+b Cot[e+f x])^m (c+d Cot[e+f x])^n == (-g Tan[e+Pi/2+f x])^p (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.,x_] :=
-  (-g*tan[e+Pi/2+f*x])^p*(a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Cot[e+f x])^p (a+b Cot[e+f x])^m (c+d Tan[e+f x])^n == (-g Tan[e+Pi/2+f x])^p (a-b Tan[e+Pi/2+f x])^m (c-d Cot[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*cot[e_.+f_.*x_])^p_.*(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*tan[e_.+f_.*x_])^n_.,x_] :=
-  (-g*tan[e+Pi/2+f*x])^p*(a-b*tan[e+Pi/2+f*x])^m*(c-d*cot[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.3.1 (a+b tan)^m (c+d tan)^n (A+B tan)*)
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+B Cot[e+f x]) == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A-B Tan[e+Pi/2+f x])*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+B_.*cot[e_.+f_.*x_]),x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A-B*tan[e+Pi/2+f*x]) /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.4.1 (a+b tan)^m (A+B tan+C tan^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (A+B Cot[e+f x]+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (A-B Tan[e+Pi/2+f x]+C Tan[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_.+B_.*cot[e_.+f_.*x_]+C_.*cot[e_.+f_.*x_]^2),x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(A-B*tan[e+Pi/2+f*x]+C*tan[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,e,f,A,B,C,m},x]
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (A+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (A+C Tan[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(A_.+C_.*cot[e_.+f_.*x_]^2),x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(A+C*tan[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,e,f,A,C,m},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.4.2 (a+b tan)^m (c+d tan)^n (A+B tan+C tan^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+B Cot[e+f x]+C Cot[e+f x]^2) == *)
-(*		(a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A-B Tan[e+Pi/2+f x]+C Tan[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+B_.*cot[e_.+f_.*x_]+C_.*cot[e_.+f_.*x_]^2),x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A-B*tan[e+Pi/2+f*x]+C*tan[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,d,e,f,A,B,C,m,n},x]
-
-
-(* ::Text:: *)
-(*(a+b Cot[e+f x])^m (c+d Cot[e+f x])^n (A+C Cot[e+f x]^2) == (a-b Tan[e+Pi/2+f x])^m (c-d Tan[e+Pi/2+f x])^n (A+C Tan[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*cot[e_.+f_.*x_])^m_.*(c_.+d_.*cot[e_.+f_.*x_])^n_.*(A_.+C_.*cot[e_.+f_.*x_]^2),x_] :=
-  (a-b*tan[e+Pi/2+f*x])^m*(c-d*tan[e+Pi/2+f*x])^n*(A+C*tan[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,c,d,e,f,A,C,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*2.7 trig^m (a+b (c tan)^n)^p*)
-
-
-(* ::Text:: *)
-(*(a+b (c Cot[e+f x])^n)^p == (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_,x_] :=
-  (a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cos[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*sin[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sin[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cos[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cot[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*tan[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Tan[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cot[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Csc[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*sec[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sec[e+f x])^m (a+b (c Cot[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (-c Tan[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*cot[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*csc[e+Pi/2+f*x])^m*(a+b*(-c*tan[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Subsubsection:: *)
-(*Cosecant to secant*)
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.1.1 (a+b sec)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^n == (a+b Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (a+b*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,e,f,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.1.2 (d sec)^n (a+b sec)^m*)
-
-
-(* ::Text:: *)
-(*(g Sec[e+f x])^p (a+b Sec[e+f x])^m == (g Csc[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
-  (g*csc[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.1.3 (d sin)^n (a+b sec)^m*)
-
-
-(* ::Text:: *)
-(*(g Sin[e+f x])^p (a+b Sec[e+f x])^m == (g Cos[e-Pi/2+f x])^p (a-b Csc[e-Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*sin[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
-  (g*cos[e-Pi/2+f*x])^p*(a-b*csc[e-Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Text:: *)
-(*(g Csc[e+f x])^p (a+b Sec[e+f x])^m == (g Sec[e-Pi/2+f x])^p (a-b Csc[e-Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*csc[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
-  (g*sec[e-Pi/2+f*x])^p*(a-b*csc[e-Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.1.4 (d tan)^n (a+b sec)^m*)
-
-
-(* ::Text:: *)
-(*(g Tan[e+f x])^p (a+b Sec[e+f x])^m == (-g Cot[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m*)
-
-
-UnifyInertTrigFunction[(g_.*tan[e_.+f_.*x_])^p_.*(a_+b_.*sec[e_.+f_.*x_])^m_.,x_] :=
-  (-g*cot[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m /;
-FreeQ[{a,b,e,f,g,m,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.2.1 (a+b sec)^m (c+d sec)^n*)
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,m,n},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.2.2 (g sec)^p (a+b sec)^m (c+d sec)^n*)
-
-
-(* ::Text:: *)
-(*(g Sec[e+f x])^p (a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (g Csc[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*sec[e_.+f_.*x_])^p_.*(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (g*csc[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Text:: *)
-(*(g Cos[e+f x])^p (a+b Sec[e+f x])^m (c+d Sec[e+f x])^n == (g Sin[e+Pi/2+f x])^p (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n*)
-
-
-UnifyInertTrigFunction[(g_.*cos[e_.+f_.*x_])^p_.*(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.,x_] :=
-  (g*sin[e+Pi/2+f*x])^p*(a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n /;
-FreeQ[{a,b,c,d,e,f,g,m,n,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.3.1 (a+b sec)^m (d sec)^n (A+B sec)*)
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+B Sec[e+f x]) == (a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x])*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_]),x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x]) /;
-FreeQ[{a,b,d,e,f,A,B,m,n},x]
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (c+d Sec[e+f x])^n (A+B Sec[e+f x])^p == (a+b Csc[e+Pi/2+f x])^m (c+d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x])^p*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(c_.+d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_])^p_.,x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(c+d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x])^p /;
-FreeQ[{a,b,c,d,e,f,A,B,m,n,p},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.4.1 (a+b sec)^m (A+B sec+C sec^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (A+B Sec[e+f x]+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (A+B Csc[e+Pi/2+f x]+C Csc[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(A+B*csc[e+Pi/2+f*x]+C*csc[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,e,f,A,B,C,m},x]
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (A+B Sec[e+f x]+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (A+C Csc[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(A_.+C_.*sec[e_.+f_.*x_]^2),x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(A+C*csc[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,e,f,A,C,m},x]
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.4.2 (a+b sec)^m (d sec)^n (A+B sec+C sec^2)*)
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+B Sec[e+f x]+C Sec[e+f x]^2) == *)
-(*		(a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+B Csc[e+Pi/2+f x]+C Csc[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+B_.*sec[e_.+f_.*x_]+C_.*sec[e_.+f_.*x_]^2),x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+B*csc[e+Pi/2+f*x]+C*csc[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,d,e,f,A,B,C,m,n},x]
-
-
-(* ::Text:: *)
-(*(a+b Sec[e+f x])^m (d Sec[e+f x])^n (A+C Sec[e+f x]^2) == (a+b Csc[e+Pi/2+f x])^m (d Csc[e+Pi/2+f x])^n (A+C Csc[e+Pi/2+f x]^2)*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*sec[e_.+f_.*x_])^m_.*(d_.*sec[e_.+f_.*x_])^n_.*(A_.+C_.*sec[e_.+f_.*x_]^2),x_] :=
-  (a+b*csc[e+Pi/2+f*x])^m*(d*csc[e+Pi/2+f*x])^n*(A+C*csc[e+Pi/2+f*x]^2) /;
-FreeQ[{a,b,d,e,f,A,C,m,n},x]
-
-
-UnifyInertTrigFunction[u_,x_] := u
-
-
-(* ::Subsubsection::Closed:: *)
-(*3.7 (d trig)^m (a+b (c sec)^n)^p*)
-
-
-(* ::Text:: *)
-(*(a+b (c Csc[e+f x])^n)^p == (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_,x_] :=
-  (a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,e,f,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cos[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (d Sin[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cos[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*sin[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sin[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Cos[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sin[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cos[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Cot[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Tan[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*cot[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*tan[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Tan[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Cot[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*tan[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*cot[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Csc[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (-d Sec[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*csc[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (-d*sec[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[n,2] && EqQ[p,1]] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Text:: *)
-(*(d Sec[e+f x])^m (a+b (c Csc[e+f x])^n)^p == (d Csc[e+Pi/2+f x])^m (a+b (-c Sec[e+Pi/2+f x])^n)^p*)
-
-
-UnifyInertTrigFunction[(d_.*sec[e_.+f_.*x_])^m_.*(a_.+b_.*(c_.*csc[e_.+f_.*x_])^n_)^p_.,x_] :=
-  (d*csc[e+Pi/2+f*x])^m*(a+b*(-c*sec[e+Pi/2+f*x])^n)^p /;
-FreeQ[{a,b,c,d,e,f,m,n,p},x] && Not[EqQ[a,0] && IntegerQ[p]]
-
-
-(* ::Subsection::Closed:: *)
-(*KnownTrigIntegrandQ[u,x]*)
-
-
-KnownSineIntegrandQ[u_,x_Symbol] :=
-  KnownTrigIntegrandQ[{sin,cos},u,x]
-
-
-KnownTangentIntegrandQ[u_,x_Symbol] :=
-  KnownTrigIntegrandQ[{tan},u,x]
-
-
-KnownCotangentIntegrandQ[u_,x_Symbol] :=
-  KnownTrigIntegrandQ[{cot},u,x]
-
-
-KnownSecantIntegrandQ[u_,x_Symbol] :=
-  KnownTrigIntegrandQ[{sec,csc},u,x]
-
-
-KnownTrigIntegrandQ[list_,u_,x_Symbol] :=
-  u===1 || 
-  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_. /; MemberQ[list,func] && FreeQ[{a,b,e,f,m},x]] || 
-  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+B_.*func_[e_.+f_.*x]) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,B,m},x]] || 
-  MatchQ[u,(A_.+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{e,f,A,C},x]] || 
-  MatchQ[u,(A_.+B_.*func_[e_.+f_.*x]+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{e,f,A,B,C},x]] || 
-  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,C,m},x]] || 
-  MatchQ[u,(a_.+b_.*func_[e_.+f_.*x])^m_.*(A_.+B_.*func_[e_.+f_.*x]+C_.*func_[e_.+f_.*x]^2) /; MemberQ[list,func] && FreeQ[{a,b,e,f,A,B,C,m},x]]
-
-
-(* ::Section::Closed:: *)
-(*Derivative divides function*)
-
-
-(* If the derivative of u wrt x is a constant wrt x, PiecewiseLinearQ[u,x] returns True;
-	else it returns False. *)
-PiecewiseLinearQ[u_,v_,x_Symbol] :=
-  PiecewiseLinearQ[u,x] && PiecewiseLinearQ[v,x]
-
-PiecewiseLinearQ[u_,x_Symbol] :=
-  LinearQ[u,x] (* && Not[MonomialQ[u,x]] *) || 
-  MatchQ[u,Log[c_.*F_^(v_)] /; FreeQ[{F,c},x] && LinearQ[v,x]] || 
-  MatchQ[u,F_[G_[v_]] /; LinearQ[v,x] && MemberQ[{
-	{ArcTanh,Tanh},{ArcTanh,Coth},{ArcCoth,Coth},{ArcCoth,Tanh},
-	{ArcTan,Tan},{ArcTan,Cot},{ArcCot,Cot},{ArcCot,Tan}
-   },{F,G}]]
-
-
-(* If u divided by y is free of x, Divides[y,u,x] returns the quotient; else it returns False. *)
-Divides[y_,u_,x_Symbol] :=
-  With[{v=Simplify[u/y]},
-  If[FreeQ[v,x],
-    v,
-  False]]
-
-
-(* If y not equal to x, y is easy to differentiate wrt x, and u divided by the derivative of y 
-  is free of x, DerivativeDivides[y,u,x] returns the quotient; else it returns False. *)
-DerivativeDivides[y_,u_,x_Symbol] :=
-  If[MatchQ[y,a_.*x /; FreeQ[a,x]],
-    False,
-  If[If[PolynomialQ[y,x], PolynomialQ[u,x] && Exponent[u,x]==Exponent[y,x]-1, EasyDQ[y,x]],
-    Module[{v=Block[{ShowSteps=False}, D[y,x]]},
-    If[EqQ[v,0],
-      False,
-    v=Simplify[u/v];
-    If[FreeQ[v,x],
-      v,
-    False]]],
-  False]]
-
-
-(* If u is easy to differentiate wrt x, EasyDQ[u,x] returns True; else it returns False. *)
-EasyDQ[u_.*x_^m_.,x_Symbol] :=
-  EasyDQ[u,x] /;
-FreeQ[m,x]
-
-EasyDQ[u_,x_Symbol] :=
-  If[AtomQ[u] || FreeQ[u,x] || Length[u]==0,
-    True,
-  If[CalculusQ[u],
-    False,
-  If[Length[u]==1,
-    EasyDQ[u[[1]],x],
-  If[BinomialQ[u,x] || ProductOfLinearPowersQ[u,x],
-    True,
-  If[RationalFunctionQ[u,x] && RationalFunctionExponents[u,x]==={1,1},
-    True,
-  If[ProductQ[u],
-    If[FreeQ[First[u],x],
-      EasyDQ[Rest[u],x],
-    If[FreeQ[Rest[u],x],
-      EasyDQ[First[u],x],
-    False]],
-  If[SumQ[u],
-    EasyDQ[First[u],x] && EasyDQ[Rest[u],x],
-  If[Length[u]==2,
-    If[FreeQ[u[[1]],x],
-      EasyDQ[u[[2]],x],
-    If[FreeQ[u[[2]],x],
-      EasyDQ[u[[1]],x],
-    False]],
-  False]]]]]]]]
-
-
-(* ProductOfLinearPowersQ[u,x] returns True iff u is a product of factors of the form v^n where v is linear in x. *)
-ProductOfLinearPowersQ[u_,x_Symbol] :=
-  FreeQ[u,x] ||
-  MatchQ[u, v_^n_. /; LinearQ[v,x] && FreeQ[n,x]] || 
-  ProductQ[u] && ProductOfLinearPowersQ[First[u],x] && ProductOfLinearPowersQ[Rest[u],x]
-
-
-(* ::Section::Closed:: *)
-(*Simplest nth root function*)
-
-
-(* ::Subsection::Closed:: *)
-(*Rt[u,n]*)
-
-
-(* Rt[u,n] returns the simplest nth root of u. *)
-Rt[u_,n_Integer] :=
-  RtAux[TogetherSimplify[u],n]
-
-
-(* ::Subsection::Closed:: *)
-(*NthRoot[u,n]*)
-
-
-NthRoot[u_,n_] := u^(1/n)
-
-
-(* ::Subsection::Closed:: *)
-(*TrigSquare[u]*)
-
-
-(* If u is an expression of the form a-a*Sin[z]^2 or a-a*Cos[z]^2, TrigSquare[u] returns Cos[z]^2 or Sin[z]^2 respectively, else it returns False. *)
-TrigSquare[u_] :=
-  If[SumQ[u],
-    With[{lst=SplitSum[Function[SplitProduct[TrigSquareQ,#]],u]},
-    If[Not[AtomQ[lst]] && EqQ[lst[[1,2]]+lst[[2]],0],
-      If[Head[lst[[1,1]][[1]]]===Sin,
-        lst[[2]]*Cos[lst[[1,1]][[1,1]]]^2,
-      lst[[2]]*Sin[lst[[1,1]][[1,1]]]^2],
-    False]],
-  False]
-
-
-(* ::Section::Closed:: *)
-(*Simplest nth root helper functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*RtAux[u,n]*)
-
-
-RtAux[u_,n_] :=
-  If[PowerQ[u],
-    u[[1]]^(u[[2]]/n),
-  If[ProductQ[u],
-    Module[{lst},
-    lst=SplitProduct[PositiveQ,u];
-    If[ListQ[lst],
-      RtAux[lst[[1]],n]*RtAux[lst[[2]],n],
-    lst=SplitProduct[NegativeQ,u];
-    If[ListQ[lst],
-      If[EqQ[lst[[1]],-1],
-        With[{v=lst[[2]]},
-        If[PowerQ[v] && NegativeQ[v[[2]]],
-          1/RtAux[-v[[1]]^(-v[[2]]),n],
-        If[ProductQ[v],
-          If[ListQ[SplitProduct[SumBaseQ,v]],
-            lst=SplitProduct[AllNegTermQ,v];
-            If[ListQ[lst],
-              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
-            lst=SplitProduct[NegSumBaseQ,v];
-            If[ListQ[lst],
-              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
-            lst=SplitProduct[SomeNegTermQ,v];
-            If[ListQ[lst],
-              RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
-            lst=SplitProduct[SumBaseQ,v];
-            RtAux[-lst[[1]],n]*RtAux[lst[[2]],n]]]],
-          lst=SplitProduct[AtomBaseQ,v];
-          If[ListQ[lst],
-            RtAux[-lst[[1]],n]*RtAux[lst[[2]],n],
-          RtAux[-First[v],n]*RtAux[Rest[v],n]]],
-        If[OddQ[n],
-          -RtAux[v,n],
-        NthRoot[u,n]]]]],
-      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n]],
-    lst=SplitProduct[AllNegTermQ,u];
-    If[ListQ[lst] && ListQ[SplitProduct[SumBaseQ,lst[[2]]]],
-      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n],
-    lst=SplitProduct[NegSumBaseQ,u];
-    If[ListQ[lst] && ListQ[SplitProduct[NegSumBaseQ,lst[[2]]]],
-      RtAux[-lst[[1]],n]*RtAux[-lst[[2]],n],
-    Map[Function[RtAux[#,n]],u]]]]]],
-  With[{v=TrigSquare[u]},
-  If[Not[AtomQ[v]],
-    RtAux[v,n],
-  If[OddQ[n] && NegativeQ[u],
-    -RtAux[-u,n],
-  If[ComplexNumberQ[u],
-    With[{a=Re[u],b=Im[u]},
-    If[Not[IntegerQ[a] && IntegerQ[b]] && IntegerQ[a/(a^2+b^2)] && IntegerQ[b/(a^2+b^2)],
-(* Basis: a+b*I==1/(a/(a^2+b^2)-b/(a^2+b^2)*I) *)
-      1/RtAux[a/(a^2+b^2)-b/(a^2+b^2)*I,n],
-    NthRoot[u,n]]],
-  If[OddQ[n] && NegQ[u] && PosQ[-u],
-    -RtAux[-u,n],
-  NthRoot[u,n]]]]]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*Factor base predicates*)
-
-
-(* If u is an atom or an atom raised to an odd degree, AtomBaseQ[u] returns True; else it returns False. *)
-AtomBaseQ[u_] :=
-  AtomQ[u] || PowerQ[u] && OddQ[u[[2]]] && AtomBaseQ[u[[1]]]
-
-
-(* If u is an sum or a sum raised to an odd degree, SumBaseQ[u] returns True; else it returns False. *)
-SumBaseQ[u_] :=
-  SumQ[u] || PowerQ[u] && OddQ[u[[2]]] && SumBaseQ[u[[1]]]
-
-
-(* If u is a sum or a sum raised to an odd degree whose lead term has a negative form, NegSumBaseQ[u] returns True; else it returns False. *)
-NegSumBaseQ[u_] :=
-  SumQ[u] && NegQ[First[u]] || PowerQ[u] && OddQ[u[[2]]] && NegSumBaseQ[u[[1]]]
-
-
-(* If all terms of u have a negative form, AllNegTermQ[u] returns True; else it returns False. *)
-AllNegTermQ[u_] :=
-  If[PowerQ[u] && OddQ[u[[2]]],
-    AllNegTermQ[u[[1]]],
-  If[SumQ[u],
-    NegQ[First[u]] && AllNegTermQ[Rest[u]],
-  NegQ[u]]]
-
-
-(* If some term of u has a negative form, SomeNegTermQ[u] returns True; else it returns False. *)
-SomeNegTermQ[u_] :=
-  If[PowerQ[u] && OddQ[u[[2]]],
-    SomeNegTermQ[u[[1]]],
-  If[SumQ[u],
-    NegQ[First[u]] || SomeNegTermQ[Rest[u]],
-  NegQ[u]]]
-
-
-(* ::Subsection::Closed:: *)
-(*TrigSquareQ[u]*)
-
-
-(* If u is an expression of the form Sin[z]^2 or Cos[z]^2, TrigSquareQ[u] returns True, else it returns False. *)
-TrigSquareQ[u_] :=
-  PowerQ[u] && EqQ[u[[2]],2] && MemberQ[{Sin,Cos},Head[u[[1]]]]
-
-
-(* ::Subsection::Closed:: *)
-(*SplitProduct[func,u]*)
-
-
-(* If func[v] is True for a factor v of u, SplitProduct[func,u] returns {v, u/v} where v is the first such factor; else it returns False. *)
-SplitProduct[func_,u_] :=
-  If[ProductQ[u],
-    If[func[First[u]],
-      {First[u], Rest[u]},
-    With[{lst=SplitProduct[func,Rest[u]]},
-    If[AtomQ[lst],
-      False,
-    {lst[[1]],First[u]*lst[[2]]}]]],
-  If[func[u],
-    {u, 1},
-  False]]
-
-
-(* ::Subsection::Closed:: *)
-(*SplitSum[func,u]*)
-
-
-(* If func[v] is nonatomic for a term v of u, SplitSum[func,u] returns {func[v], u-v} where v is the first such term; else it returns False. *)
-SplitSum[func_,u_] :=
-  If[SumQ[u],
-    If[Not[AtomQ[func[First[u]]]],
-      {func[First[u]], Rest[u]},
-    With[{lst=SplitSum[func,Rest[u]]},
-    If[AtomQ[lst],
-      False,
-    {lst[[1]],First[u]+lst[[2]]}]]],
-  If[Not[AtomQ[func[u]]],
-    {func[u], 0},
-  False]]
-
-
-(* ::Section::Closed:: *)
-(*IntSum*)
-
-
-(* If u is free of x or of the form c*(a+b*x)^m, IntSum[u,x] returns the antiderivative of u wrt x; 
-	else it returns d*Int[v,x] where d*v=u and d is free of x. *)
-IntSum[u_,x_Symbol] :=
-  Simp[FreeTerms[u,x]*x,x] + IntTerm[NonfreeTerms[u,x],x]
-
-
-(* If u is of the form c*(a+b*x)^m, IntTerm[u,x] returns the antiderivative of u wrt x; 
-	else it returns d*Int[v,x] where d*v=u and d is free of x. *)
-IntTerm[c_./v_,x_Symbol] :=
-  Simp[c*Log[RemoveContent[v,x]]/Coefficient[v,x,1],x] /;
-FreeQ[c,x] && LinearQ[v,x]
-
-IntTerm[c_.*v_^m_.,x_Symbol] :=
-  Simp[c*v^(m+1)/(Coefficient[v,x,1]*(m+1)),x] /;
-FreeQ[{c,m},x] && NeQ[m,-1] && LinearQ[v,x]
-
-IntTerm[u_,x_Symbol] :=
-  Map[Function[IntTerm[#,x]],u] /;
-SumQ[u]
-
-IntTerm[u_,x_Symbol] :=
-  Dist[FreeFactors[u,x], Int[NonfreeFactors[u,x],x], x]
-
-
-(* ::Section::Closed:: *)
-(*Fix integration rules functions*)
-
-
-(* ::Subsection::Closed:: *)
-(*RuleName[name]*)
-
-
-$RuleNameList={};
-
-
-RuleName[name_] :=
- (AppendTo[$RuleNameList,name]; Null)
-
-
-(* ::Subsection::Closed:: *)
-(*FixIntRules[rulelist]*)
-
-
-ClearAll[FixIntRules,FixIntRule,FixRhsIntRule]
-
-
-FixIntRules[] :=
-  (DownValues[Int]=FixIntRules[DownValues[Int]]; Null)
-
-
-FixIntRules[rulelist_] :=
-  Module[{IntDownValues=DownValues[Int],SubstDownValues=DownValues[Subst],
-	SimpDownValues=DownValues[Simp],DistDownValues=DownValues[Dist],lst,object},
-  object=PrintTemporary[Row[{"Modifying ",Length[rulelist]," integration rules to distribute coefficients over sums..."}]];
-  Clear[Int,Subst,Simp,Dist];
-  SetAttributes[{Simp,Dist,Int,Subst},HoldAll];
-  lst=Map[Function[FixIntRule[#,#[[1,1,2,1]]]],rulelist];
-  DownValues[Int]=IntDownValues;
-  DownValues[Subst]=SubstDownValues;
-  DownValues[Simp]=SimpDownValues;
-  DownValues[Dist]=DistDownValues;
-  ClearAttributes[{Simp,Dist,Int,Subst},HoldAll];
-  NotebookDelete[object];
-  lst]
-
-
-(* ::Subsection::Closed:: *)
-(*FixIntRule[rule]*)
-
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[u_+v_,test2_]],test1_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list,F[u+v,test2]],test1]],{{2,1,2,1,1}->FixRhsIntRule[u,x],{2,1,2,1,2}->FixRhsIntRule[v,x]}] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,G_[list_,F_[u_+v_,test2_]]],x_] :=
-  ReplacePart[RuleDelayed[lhs,G[list,F[u+v,test2]]],{{2,2,1,1}->FixRhsIntRule[u,x],{2,2,1,2}->FixRhsIntRule[v,x]}] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list_,u_+v_],test_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list,u+v],test]],{{2,1,2,1}->FixRhsIntRule[u,x],{2,1,2,2}->FixRhsIntRule[v,x]}] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,G_[list_,u_+v_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,G[list,u+v]],{{2,2,1}->FixRhsIntRule[u,x],{2,2,2}->FixRhsIntRule[v,x]}] /;
-(G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[u_+v_,test_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[u+v,test]],{{2,1,1}->FixRhsIntRule[u,x],{2,1,2}->FixRhsIntRule[v,x]}] /;
-F===Condition
-
-FixIntRule[RuleDelayed[lhs_,u_+v_],x_] :=
-  ReplacePart[RuleDelayed[lhs,u+v],{{2,1}->FixRhsIntRule[u,x],{2,2}->FixRhsIntRule[v,x]}]
-
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list1_,F_[H_[list2_,u_],test2_]],test1_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list1,F[H[list2,u],test2]],test1]],{2,1,2,1,2}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block) && (H===With || H===Module || H===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list1_,H_[list2_,u_]],test1_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list1,H[list2,u]],test1]],{2,1,2,2}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block) && (H===With || H===Module || H===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[H_[str1_,str2_,str3_,J_[u_]],test2_]],test1_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list,F[H[str1,str2,str3,J[u]],test2]],test1]],{2,1,2,1,4,1}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block) && H===ShowStep && J===Hold
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list_,F_[u_,test2_]],test1_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list,F[u,test2]],test1]],{2,1,2,1}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,G_[list_,F_[u_,test2_]]],x_] :=
-  ReplacePart[RuleDelayed[lhs,G[list,F[u,test2]]],{2,2,1}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[G_[list_,u_],test_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[G[list,u],test]],{2,1,2}->FixRhsIntRule[u,x]] /;
-F===Condition && (G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,G_[list_,u_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,G[list,u]],{2,2}->FixRhsIntRule[u,x]] /;
-(G===With || G===Module || G===Block)
-
-FixIntRule[RuleDelayed[lhs_,F_[u_,test_]],x_] :=
-  ReplacePart[RuleDelayed[lhs,F[u,test]],{2,1}->FixRhsIntRule[u,x]] /;
-F===Condition
-
-FixIntRule[RuleDelayed[lhs_,u_],x_] :=
-  ReplacePart[RuleDelayed[lhs,u],{2}->FixRhsIntRule[u,x]]
-
-
-(* ::Subsection::Closed:: *)
-(*FixRhsIntRule[rhs,x]*)
-
-
-SetAttributes[FixRhsIntRule,HoldAll];
-
-FixRhsIntRule[u_+v_,x_] :=
-  FixRhsIntRule[u,x]+FixRhsIntRule[v,x]
-
-FixRhsIntRule[u_-v_,x_] :=
-  FixRhsIntRule[u,x]-FixRhsIntRule[v,x]
-
-FixRhsIntRule[-u_,x_] :=
-  -FixRhsIntRule[u,x]
-
-FixRhsIntRule[a_*u_,x_] :=
-  Dist[a,u,x] /;
-MemberQ[{Int,Subst},Head[Unevaluated[u]]]
-
-FixRhsIntRule[u_,x_] :=
-  If[Head[Unevaluated[u]]===Dist && Length[Unevaluated[u]]==2,
-    Insert[Unevaluated[u],x,3],
-  If[MemberQ[{Int,Subst,Defer[Int],Simp,Dist},Head[Unevaluated[u]]],
-    u,
-  Simp[u,x]]]
+FixRhsIntRule[u_,x_] :=
+  If[Head[Unevaluated[u]]===Dist && Length[Unevaluated[u]]==2,
+    Insert[Unevaluated[u],x,3],
+  If[MemberQ[{Int,Subst,Defer[Int],Simp,Dist},Head[Unevaluated[u]]],
+    u,
+  Simp[u,x]]]
 `)
 
 func resourcesRubiIntegrationUtilityFunctionsMBytes() ([]byte, error) {
@@ -53078,68 +53078,68 @@ func resourcesRubiIntegrationUtilityFunctionsM() (*asset, error) {
 	return a, nil
 }
 
-var _resourcesRubiMakerubimxfileM = []byte(`(* ::Package:: *)
-
-(* ::Title:: *)
-(*Make Rubi MX file*)
-
-
-(* ::Subsubtitle:: *)
-(*Run this package to generate a fast-loading Rubi4.8.mx file that can be read using a Get ["Rubi4.8.mx"] command.*)
-
-
-(* ::Subsubtitle:: *)
-(*Set the control variable ShowSteps to True before running this package to generate a ShowRubi4.8.mx file that enables Rubi to display the steps required to integrate an expression.*)
-
-
-(* ::Subsubtitle:: *)
-(*Note that MX files cannot be exchanged between different operating systems or versions of Mathematica.*)
-
-
-ShowSteps=False;
-
-
-Get[NotebookDirectory[]<>"ShowStep Routines.m"];
-Get[NotebookDirectory[]<>"Integration Utility Functions.m"];
-
-Clear[Int];
-Int::usage="Int[expn,var] returns the indefinite integral of <expn> with respect to <var>.";
-
-LoadPackage["8.1 Integrand Simplification Rules"];
-
-LoadPackage["1.1 Linear Product Rules"];
-LoadPackage["1.2 Quadratic Product Rules"];
-LoadPackage["1.3 Binomial Product Rules"];
-LoadPackage["1.4 Trinomial Product Rules"];
-LoadPackage["1.5 Algebraic Function Rules"];
-
-LoadPackage["8.3 Piecewise Linear Function Rules"];
-LoadPackage["2 Exponential Function Rules"];
-
-LoadPackage["3.1 Sine Function Rules"];
-LoadPackage["3.2 Tangent Function Rules"];
-LoadPackage["3.3 Secant Function Rules"];
-LoadPackage["3.4 Trig Function Rules"];
-
-LoadPackage["4 Hyperbolic Function Rules"];
-
-LoadPackage["5 Inverse Trig Function Rules"];
-
-LoadPackage["6 Inverse Hyperbolic Function Rules"];
-
-LoadPackage["7 Special Function Rules"];
-
-LoadPackage["8.2 Derivative Integration Rules"];
-LoadPackage["8.4 Miscellaneous Integration Rules"];
-FixIntRules[];
-
-
-If[ShowSteps, StepFunction[Int]];
-
-
-SetDirectory[NotebookDirectory[]];
-DumpSave[If[ShowSteps===True, "StepRubi4.8.mx", "Rubi4.8.mx"], "Global`+"`"+`"];
-ResetDirectory[];
+var _resourcesRubiMakerubimxfileM = []byte(`(* ::Package:: *)
+
+(* ::Title:: *)
+(*Make Rubi MX file*)
+
+
+(* ::Subsubtitle:: *)
+(*Run this package to generate a fast-loading Rubi4.8.mx file that can be read using a Get ["Rubi4.8.mx"] command.*)
+
+
+(* ::Subsubtitle:: *)
+(*Set the control variable ShowSteps to True before running this package to generate a ShowRubi4.8.mx file that enables Rubi to display the steps required to integrate an expression.*)
+
+
+(* ::Subsubtitle:: *)
+(*Note that MX files cannot be exchanged between different operating systems or versions of Mathematica.*)
+
+
+ShowSteps=False;
+
+
+Get[NotebookDirectory[]<>"ShowStep Routines.m"];
+Get[NotebookDirectory[]<>"Integration Utility Functions.m"];
+
+Clear[Int];
+Int::usage="Int[expn,var] returns the indefinite integral of <expn> with respect to <var>.";
+
+LoadPackage["8.1 Integrand Simplification Rules"];
+
+LoadPackage["1.1 Linear Product Rules"];
+LoadPackage["1.2 Quadratic Product Rules"];
+LoadPackage["1.3 Binomial Product Rules"];
+LoadPackage["1.4 Trinomial Product Rules"];
+LoadPackage["1.5 Algebraic Function Rules"];
+
+LoadPackage["8.3 Piecewise Linear Function Rules"];
+LoadPackage["2 Exponential Function Rules"];
+
+LoadPackage["3.1 Sine Function Rules"];
+LoadPackage["3.2 Tangent Function Rules"];
+LoadPackage["3.3 Secant Function Rules"];
+LoadPackage["3.4 Trig Function Rules"];
+
+LoadPackage["4 Hyperbolic Function Rules"];
+
+LoadPackage["5 Inverse Trig Function Rules"];
+
+LoadPackage["6 Inverse Hyperbolic Function Rules"];
+
+LoadPackage["7 Special Function Rules"];
+
+LoadPackage["8.2 Derivative Integration Rules"];
+LoadPackage["8.4 Miscellaneous Integration Rules"];
+FixIntRules[];
+
+
+If[ShowSteps, StepFunction[Int]];
+
+
+SetDirectory[NotebookDirectory[]];
+DumpSave[If[ShowSteps===True, "StepRubi4.8.mx", "Rubi4.8.mx"], "Global`+"`"+`"];
+ResetDirectory[];
 `)
 
 func resourcesRubiMakerubimxfileMBytes() ([]byte, error) {
@@ -53179,106 +53179,106 @@ func resourcesRubiReadme() (*asset, error) {
 	return a, nil
 }
 
-var _resourcesRubiRubiM = []byte(`(* ::Package:: *)
-
-(* ::Title:: *)
-(*Rubi (Rule-Based Integrator) Package*)
-
-
-BeginPackage["Rubi`+"`"+`"];
-
-
-Int::usage = 
-"Int[expn,var] returns the antiderivative (indefinite integral) of <expn> with respect to <var>.
-Int[list,var] returns a list of the antiderivatives of the elements of <list> with respect to <var>.";
-
-
-IntShowSteps::usage = "IntShowSteps[expn,var] shows all the rules and intermediate steps required to integrate <expn> with respect to <var>, and returns Null.";
-
-
-Dist::usage = "Dist[expn1,expn2,var] distributes <expn1> over <expn2>.";
-Subst::usage = "Subst[expn1,var,expn2] substitutes <expn2> for <var> in <expn1>.";
-
-
-ShowSteps::usage = "If ShowSteps is True and the ShowSteps package has been loaded, integration steps are displayed.";
-$StepCounter::usage = "If the ShowSteps package has been loaded and $StepCounter is an integer, it is incremented each time an integration rule is applied.";
-
-
-$RuleColor::usage = "$RuleColor is the color used to display rules when showing integration steps. The default rule color is red."
-$ConditionColor::usage = "$ConditionColor is the color used to display application conditions when showing integration steps. The default condition color is blue."
-
-
-sin::usage = "Inert sine function";
-cos::usage = "Inert cosine function";
-tan::usage = "Inert tangent function";
-cot::usage = "Inert cotangent function";
-sec::usage = "Inert secant function";
-csc::usage = "Inert cosecant function";
-
-
-Begin["`+"`"+`Private`+"`"+`"];
-
-
-LoadRules[filename_String] :=
-  Module[{object},
-  object=PrintTemporary["Loading "<>filename<>".m..."];
-  Get[NotebookDirectory[]<>filename<>".m"];
-  NotebookDelete[object];
-  Null]
-
-
-Unprotect[Int];  Clear[Int];
-
-
-SetAttributes [Int, {Listable}];
-
-
-ShowSteps = Global`+"`"+`$LoadShowSteps===True;
-
-
-LoadRules["ShowStep routines"];
-LoadRules["Integration utility functions"];
-LoadRules["9.1 Integrand simplification rules"];
-
-
-LoadRules["1.1.1 Linear binomial products"];
-LoadRules["1.1.3 General binomial products"];
-
-LoadRules["1.2.1 Quadratic trinomial products"];
-LoadRules["1.2.2 Quartic trinomial products"];
-LoadRules["1.2.3 General trinomial products"];
-LoadRules["1.2.4 Improper trinomial products"];
-
-LoadRules["1.1.4 Improper binomial products"];
-LoadRules["1.3 Miscellaneous algebraic functions"];
-
-
-LoadRules["9.3 Piecewise linear functions"];
-LoadRules["2 Exponentials"];
-LoadRules["3 Logarithms"];
-LoadRules["4.1 Sine"];
-LoadRules["4.2 Tangent"];
-LoadRules["4.3 Secant"];
-LoadRules["4.4 Miscellaneous trig functions"];
-LoadRules["5 Inverse trig functions"];
-LoadRules["6 Hyperbolic functions"];
-LoadRules["7 Inverse hyperbolic functions"];
-LoadRules["8 Special functions"];
-LoadRules["9.2 Derivative integration rules"];
-LoadRules["9.4 Miscellaneous integration rules"];
-
-
-FixIntRules[];
-
-
-If[Global`+"`"+`$LoadShowSteps===True, StepFunction[Int]];
-
-
-Protect[Int];
-
-
-End [];
-EndPackage [];
+var _resourcesRubiRubiM = []byte(`(* ::Package:: *)
+
+(* ::Title:: *)
+(*Rubi (Rule-Based Integrator) Package*)
+
+
+BeginPackage["Rubi`+"`"+`"];
+
+
+Int::usage = 
+"Int[expn,var] returns the antiderivative (indefinite integral) of <expn> with respect to <var>.
+Int[list,var] returns a list of the antiderivatives of the elements of <list> with respect to <var>.";
+
+
+IntShowSteps::usage = "IntShowSteps[expn,var] shows all the rules and intermediate steps required to integrate <expn> with respect to <var>, and returns Null.";
+
+
+Dist::usage = "Dist[expn1,expn2,var] distributes <expn1> over <expn2>.";
+Subst::usage = "Subst[expn1,var,expn2] substitutes <expn2> for <var> in <expn1>.";
+
+
+ShowSteps::usage = "If ShowSteps is True and the ShowSteps package has been loaded, integration steps are displayed.";
+$StepCounter::usage = "If the ShowSteps package has been loaded and $StepCounter is an integer, it is incremented each time an integration rule is applied.";
+
+
+$RuleColor::usage = "$RuleColor is the color used to display rules when showing integration steps. The default rule color is red."
+$ConditionColor::usage = "$ConditionColor is the color used to display application conditions when showing integration steps. The default condition color is blue."
+
+
+sin::usage = "Inert sine function";
+cos::usage = "Inert cosine function";
+tan::usage = "Inert tangent function";
+cot::usage = "Inert cotangent function";
+sec::usage = "Inert secant function";
+csc::usage = "Inert cosecant function";
+
+
+Begin["`+"`"+`Private`+"`"+`"];
+
+
+LoadRules[filename_String] :=
+  Module[{object},
+  object=PrintTemporary["Loading "<>filename<>".m..."];
+  Get[NotebookDirectory[]<>filename<>".m"];
+  NotebookDelete[object];
+  Null]
+
+
+Unprotect[Int];  Clear[Int];
+
+
+SetAttributes [Int, {Listable}];
+
+
+ShowSteps = Global`+"`"+`$LoadShowSteps===True;
+
+
+LoadRules["ShowStep routines"];
+LoadRules["Integration utility functions"];
+LoadRules["9.1 Integrand simplification rules"];
+
+
+LoadRules["1.1.1 Linear binomial products"];
+LoadRules["1.1.3 General binomial products"];
+
+LoadRules["1.2.1 Quadratic trinomial products"];
+LoadRules["1.2.2 Quartic trinomial products"];
+LoadRules["1.2.3 General trinomial products"];
+LoadRules["1.2.4 Improper trinomial products"];
+
+LoadRules["1.1.4 Improper binomial products"];
+LoadRules["1.3 Miscellaneous algebraic functions"];
+
+
+LoadRules["9.3 Piecewise linear functions"];
+LoadRules["2 Exponentials"];
+LoadRules["3 Logarithms"];
+LoadRules["4.1 Sine"];
+LoadRules["4.2 Tangent"];
+LoadRules["4.3 Secant"];
+LoadRules["4.4 Miscellaneous trig functions"];
+LoadRules["5 Inverse trig functions"];
+LoadRules["6 Hyperbolic functions"];
+LoadRules["7 Inverse hyperbolic functions"];
+LoadRules["8 Special functions"];
+LoadRules["9.2 Derivative integration rules"];
+LoadRules["9.4 Miscellaneous integration rules"];
+
+
+FixIntRules[];
+
+
+If[Global`+"`"+`$LoadShowSteps===True, StepFunction[Int]];
+
+
+Protect[Int];
+
+
+End [];
+EndPackage [];
 `)
 
 func resourcesRubiRubiMBytes() ([]byte, error) {
@@ -53296,434 +53296,434 @@ func resourcesRubiRubiM() (*asset, error) {
 	return a, nil
 }
 
-var _resourcesRubiRubi412Nb = []byte(`(* Content-type: application/mathematica *)
-
-(*** Wolfram Notebook File ***)
-(* http://www.wolfram.com/nb *)
-
-(* CreatedBy='Mathematica 7.0' *)
-
-(*CacheID: 234*)
-(* Internal cache information:
-NotebookFileLineBreakTest
-NotebookFileLineBreakTest
-NotebookDataPosition[       145,          7]
-NotebookDataLength[     18593,        419]
-NotebookOptionsPosition[     17655,        387]
-NotebookOutlinePosition[     18064,        404]
-CellTagsIndexPosition[     18021,        401]
-WindowFrame->Normal*)
-
-(* Beginning of Notebook Content *)
-Notebook[{
-
-Cell[CellGroupData[{
-Cell[TextData[{
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " 4.12.1"
-}], "Title",
- CellChangeTimes->{{3.4897813784127054`+"`"+`*^9, 3.4897813794267073`+"`"+`*^9}, 
-   3.518320509030015*^9, {3.5769613958072157`+"`"+`*^9, 3.576961399157221*^9}, {
-   3.5818113211358624`+"`"+`*^9, 3.581811322505864*^9}, {3.588014284106391*^9, 
-   3.5880142845587916`+"`"+`*^9}, {3.5933144297049866`+"`"+`*^9, 
-   3.5933144300349865`+"`"+`*^9}, {3.5953446914325457`+"`"+`*^9, 3.595344691902547*^9}, {
-   3.612238596642627*^9, 3.612238596892227*^9}, {3.6235574469855204`+"`"+`*^9, 
-   3.623557447305521*^9}, {3.6336310694366074`+"`"+`*^9, 3.633631070093645*^9}, {
-   3.6414292510530057`+"`"+`*^9, 3.6414292518174067`+"`"+`*^9}, {3.6669851230264883`+"`"+`*^9, 
-   3.66698512435649*^9}, {3.6809646450469093`+"`"+`*^9, 3.6809646561585455`+"`"+`*^9}, {
-   3.682799968357607*^9, 3.682799968746629*^9}, {3.683231370531602*^9, 
-   3.6832313714826565`+"`"+`*^9}, {3.685735947623728*^9, 3.6857359497737303`+"`"+`*^9}, {
-   3.686789919766761*^9, 3.6867899200487766`+"`"+`*^9}, {3.687230099297368*^9, 
-   3.6872300995693836`+"`"+`*^9}, {3.6892138635040665`+"`"+`*^9, 3.689213863730079*^9}, {
-   3.690146376179472*^9, 3.690146376547493*^9}, {3.6919485296883698`+"`"+`*^9, 
-   3.6919485300683703`+"`"+`*^9}, {3.6932827954675274`+"`"+`*^9, 
-   3.6932827957483277`+"`"+`*^9}, {3.695091542008456*^9, 3.6950915425794888`+"`"+`*^9}, {
-   3.6966170132343836`+"`"+`*^9, 3.696617013554384*^9}, {3.6976798751471663`+"`"+`*^9, 
-   3.6976798774002953`+"`"+`*^9}, {3.702673552626842*^9, 3.7026735531568427`+"`"+`*^9}, {
-   3.705885647832942*^9, 3.705885649283745*^9}, {3.706152621368204*^9, 
-   3.7061526217682047`+"`"+`*^9}, {3.7063765173533025`+"`"+`*^9, 3.706376517609317*^9}, {
-   3.706393141129644*^9, 3.7063931434617777`+"`"+`*^9}, {3.7090906465542336`+"`"+`*^9, 
-   3.7090906473842807`+"`"+`*^9}},
- TextAlignment->Center],
-
-Cell["Rule-Based Integrator", "Subtitle",
- CellChangeTimes->{{3.4897814556796412`+"`"+`*^9, 3.4897814580976458`+"`"+`*^9}, {
-  3.5769621785283117`+"`"+`*^9, 3.576962186368323*^9}},
- TextAlignment->Center,
- FontWeight->"Bold"],
-
-Cell["Crafted by Albert D. Rich, Applied Logician", "Subsubtitle",
- TextAlignment->Center],
-
-Cell[TextData[{
- "Store this ",
- StyleBox["Mathematica",
-  FontSlant->"Italic"],
- " notebook file and the ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " package files in a directory of your choice.  Then press Shift-Enter or \
-use ",
- StyleBox["Mathematica'",
-  FontSlant->"Italic"],
- "s Evaluation>Evaluate Initialization Cells command to evaluate the cells in \
-this notebook.  This loads ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- "\[CloseCurlyQuote]s integration rules, show-step routines and required \
-utility functions.  This process may require a few minutes, depending on the \
-speed of your computer."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.4905072763181257`+"`"+`*^9, 3.490507283291338*^9}, {
-   3.4905073468458495`+"`"+`*^9, 3.490507371852693*^9}, {3.4905080078118114`+"`"+`*^9, 
-   3.490508028559848*^9}, {3.4905107317414007`+"`"+`*^9, 3.4905107735806737`+"`"+`*^9}, 
-   3.490510813766344*^9, {3.4905108637176323`+"`"+`*^9, 3.490510901812899*^9}, {
-   3.490511168120967*^9, 3.4905112618615313`+"`"+`*^9}, {3.490511322108837*^9, 
-   3.490511340345269*^9}, {3.490511371077323*^9, 3.4905113713113236`+"`"+`*^9}, {
-   3.5769622262183785`+"`"+`*^9, 3.5769622320083866`+"`"+`*^9}, {3.5769666010375414`+"`"+`*^9, 
-   3.576966623167572*^9}, {3.5769666536376147`+"`"+`*^9, 3.5769667748577843`+"`"+`*^9}, {
-   3.581811338675887*^9, 3.581811339045888*^9}, {3.5880143026080236`+"`"+`*^9, 
-   3.5880143030292244`+"`"+`*^9}, {3.593314440145001*^9, 3.5933144404550014`+"`"+`*^9}, 
-   3.623557507675606*^9, {3.633631105913694*^9, 3.6336311099999275`+"`"+`*^9}, {
-   3.6414292622226253`+"`"+`*^9, 3.641429263969828*^9}, {3.6669851340075035`+"`"+`*^9, 
-   3.6669851344275045`+"`"+`*^9}, {3.685735975257767*^9, 3.6857359759677677`+"`"+`*^9}, {
-   3.686330797987679*^9, 3.6863307983126974`+"`"+`*^9}, {3.696617275962763*^9, 
-   3.6966172778627653`+"`"+`*^9}, {3.697679910094166*^9, 3.6976799160475063`+"`"+`*^9}, {
-   3.706393246928695*^9, 3.7063932472577143`+"`"+`*^9}},
- FontSize->16],
-
-Cell[TextData[{
- "If the control variable ",
- StyleBox["$LoadShowSteps",
-  FontWeight->"Bold"],
- " is ",
- StyleBox["True",
-  FontWeight->"Bold"],
- " when the rules are being loaded, their definitions are modified so the \
-steps used to integrate expressions can be displayed.  To load ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " without this considerable overhead, change the value of the following \
-assignment to ",
- StyleBox["False",
-  FontWeight->"Bold"],
- " ",
- StyleBox["before",
-  FontSlant->"Italic"],
- " loading the system."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
-   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, 3.4905074310943985`+"`"+`*^9, {
-   3.4905074899377017`+"`"+`*^9, 3.4905075045861273`+"`"+`*^9}, {3.4905076088723106`+"`"+`*^9, 
-   3.4905077000388703`+"`"+`*^9}, {3.4905077353105326`+"`"+`*^9, 
-   3.4905077417533436`+"`"+`*^9}, {3.4905077785850086`+"`"+`*^9, 
-   3.4905078144338713`+"`"+`*^9}, {3.490507855789544*^9, 3.4905078566007457`+"`"+`*^9}, {
-   3.490507922557661*^9, 3.490507970886546*^9}, {3.4905082544950447`+"`"+`*^9, 
-   3.4905082803130894`+"`"+`*^9}, {3.4905083779848614`+"`"+`*^9, 
-   3.4905083782812614`+"`"+`*^9}, {3.4905084158617277`+"`"+`*^9, 3.490508416033328*^9}, {
-   3.4905088136396275`+"`"+`*^9, 3.490508818304035*^9}, {3.490511426847421*^9, 
-   3.4905114499666615`+"`"+`*^9}, {3.576966785177799*^9, 3.5769668198978477`+"`"+`*^9}, {
-   3.7063765327261815`+"`"+`*^9, 3.706376547279014*^9}, {3.706376654571151*^9, 
-   3.706376659223417*^9}, {3.7063932941673975`+"`"+`*^9, 3.706393305249031*^9}, {
-   3.706393380809353*^9, 3.7063934646011457`+"`"+`*^9}, {3.7063935962866774`+"`"+`*^9, 
-   3.7063935965546927`+"`"+`*^9}, {3.706399491723877*^9, 3.706399495302082*^9}, {
-   3.7063997364058723`+"`"+`*^9, 3.706399779607343*^9}},
- FontSize->16],
-
-Cell[BoxData[
- RowBox[{
-  RowBox[{"$LoadShowSteps", " ", "=", " ", "True"}], ";"}]], "Code",
- CellChangeTimes->{{3.4897820121794186`+"`"+`*^9, 3.4897820382626643`+"`"+`*^9}, {
-  3.7062395371073294`+"`"+`*^9, 3.706239538477331*^9}, {3.7063765636919527`+"`"+`*^9, 
-  3.7063765650210285`+"`"+`*^9}}],
-
-Cell[BoxData[
- RowBox[{
-  RowBox[{"Get", "[", 
-   RowBox[{
-    RowBox[{"NotebookDirectory", "[", "]"}], "<>", "\"\<Rubi.m\>\""}], "]"}], 
-  ";"}]], "Code",
- CellChangeTimes->{{3.4897813390382366`+"`"+`*^9, 3.489781344779046*^9}, {
-   3.489782578869215*^9, 3.489782580725618*^9}, {3.490508624536095*^9, 
-   3.49050875250312*^9}, {3.4905090125087767`+"`"+`*^9, 3.49050901444318*^9}, {
-   3.490509114111755*^9, 3.4905091205077662`+"`"+`*^9}, {3.490510930204949*^9, 
-   3.490510959673401*^9}, {3.518320785100402*^9, 3.518320823170455*^9}, {
-   3.518321371471223*^9, 3.5183214048112693`+"`"+`*^9}, {3.518321436071313*^9, 
-   3.5183214540713387`+"`"+`*^9}, {3.518321503801408*^9, 3.5183215396314583`+"`"+`*^9}, {
-   3.576961432047267*^9, 3.576961570947461*^9}, {3.576961607167512*^9, 
-   3.5769616303175445`+"`"+`*^9}, {3.576961661427588*^9, 3.576961695047635*^9}, {
-   3.5769617588277245`+"`"+`*^9, 3.5769618302878246`+"`"+`*^9}, {3.5769619293479633`+"`"+`*^9, 
-   3.576961935817972*^9}, {3.576962004338068*^9, 3.5769620153680835`+"`"+`*^9}, {
-   3.576962478824736*^9, 3.5769624799947376`+"`"+`*^9}, {3.576965706486283*^9, 
-   3.5769657335563207`+"`"+`*^9}, 3.5981526491463847`+"`"+`*^9, 3.612238809426402*^9, {
-   3.6414293246225367`+"`"+`*^9, 3.6414293251373377`+"`"+`*^9}, {3.641429366322812*^9, 
-   3.641429494050638*^9}, {3.641435429004635*^9, 3.64143551650064*^9}, {
-   3.6414361647507176`+"`"+`*^9, 3.641436360038887*^9}, {3.641436542370316*^9, 
-   3.6414365842197094`+"`"+`*^9}, {3.6428031601188593`+"`"+`*^9, 3.642803169928873*^9}, {
-   3.6466313554150295`+"`"+`*^9, 3.6466313700328655`+"`"+`*^9}, {3.646631424689992*^9, 
-   3.646631444188107*^9}, {3.6466315486800833`+"`"+`*^9, 3.646631548931098*^9}, 
-   3.646631850006318*^9, {3.650664373911137*^9, 3.650664438781228*^9}, {
-   3.6506644734412766`+"`"+`*^9, 3.650664623111486*^9}, {3.650664665331545*^9, 
-   3.650664665801546*^9}, {3.650664703321598*^9, 3.6506647778017025`+"`"+`*^9}, {
-   3.6506705925161247`+"`"+`*^9, 3.6506706012861366`+"`"+`*^9}, {3.6832327302853756`+"`"+`*^9, 
-   3.6832327457572603`+"`"+`*^9}, {3.68323290414032*^9, 3.6832329107706985`+"`"+`*^9}, {
-   3.6976869146198015`+"`"+`*^9, 3.697686933288869*^9}, {3.706376572842476*^9, 
-   3.7063765753146176`+"`"+`*^9}, {3.706378010821724*^9, 3.7063780118937855`+"`"+`*^9}, {
-   3.7063796188806996`+"`"+`*^9, 3.706379628102227*^9}, {3.706379859684473*^9, 
-   3.706379875088354*^9}}],
-
-Cell[TextData[{
- "The function ",
- StyleBox["Int",
-  FontWeight->"Bold"],
- " returns the antiderivative (indefinite integral) of an expression with \
-respect to a given variable.  ",
- StyleBox["Int",
-  FontWeight->"Bold"],
- " is ",
- StyleBox["not",
-  FontSlant->"Italic"],
- " able to compute definite integrals."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
-   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
-   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
-   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
-   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
-   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
-   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
-   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
-   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
-   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
-   3.706400022249222*^9, 3.7064000373220835`+"`"+`*^9}, {3.7064000680278397`+"`"+`*^9, 
-   3.7064001117953434`+"`"+`*^9}, {3.7064001435691605`+"`"+`*^9, 3.706400148399437*^9}, {
-   3.706400178509159*^9, 3.706400204874667*^9}, {3.7064005515774975`+"`"+`*^9, 
-   3.7064005938339148`+"`"+`*^9}, {3.7064006957517433`+"`"+`*^9, 
-   3.7064007156428814`+"`"+`*^9}, {3.7070019314478283`+"`"+`*^9, 3.707001951677985*^9}, {
-   3.7070039353025103`+"`"+`*^9, 3.707004082873951*^9}},
- FontSize->16],
-
-Cell[BoxData[
- RowBox[{"?", " ", "Int"}]], "Code",
- CellChangeTimes->{
-  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}}],
-
-Cell[TextData[{
- "If ",
- StyleBox["$LoadShowSteps",
-  FontWeight->"Bold"],
- " was ",
- StyleBox["True",
-  FontWeight->"Bold"],
- " when ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " was loaded ",
- StyleBox["and",
-  FontSlant->"Italic"],
- " the control variable ",
- StyleBox["ShowSteps",
-  FontWeight->"Bold"],
- " is ",
- StyleBox["True",
-  FontWeight->"Bold"],
- ", ",
- StyleBox["Int",
-  FontWeight->"Bold"],
- " shows just one step of the integration and returns the intermediate \
-result.  If ",
- StyleBox["$LoadShowSteps",
-  FontWeight->"Bold"],
- " was ",
- StyleBox["False",
-  FontWeight->"Bold"],
- " when ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " was loaded ",
- StyleBox["or",
-  FontSlant->"Italic"],
- " the control variable ",
- StyleBox["ShowSteps",
-  FontWeight->"Bold"],
- " is ",
- StyleBox["False",
-  FontWeight->"Bold"],
- ", ",
- StyleBox["Int",
-  FontWeight->"Bold"],
- " returns the antiderivative without showing the steps."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
-   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
-   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
-   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
-   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
-   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
-   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
-   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
-   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
-   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
-   3.706400022249222*^9, 3.7064000373220835`+"`"+`*^9}, {3.7064000680278397`+"`"+`*^9, 
-   3.7064001117953434`+"`"+`*^9}, {3.7064001435691605`+"`"+`*^9, 3.706400148399437*^9}, {
-   3.706400178509159*^9, 3.706400204874667*^9}, {3.7064005515774975`+"`"+`*^9, 
-   3.7064006532903147`+"`"+`*^9}, {3.7064007512299166`+"`"+`*^9, 
-   3.7064008230720263`+"`"+`*^9}, {3.7064010427835927`+"`"+`*^9, 
-   3.7064010739973783`+"`"+`*^9}, {3.7064011124925795`+"`"+`*^9, 3.706401133173763*^9}, {
-   3.706401199246542*^9, 3.7064013036675143`+"`"+`*^9}, {3.7064013764556775`+"`"+`*^9, 
-   3.70640146339265*^9}},
- FontSize->16],
-
-Cell[BoxData[
- RowBox[{
-  RowBox[{"ShowSteps", " ", "=", " ", "True"}], ";"}]], "Code",
- CellChangeTimes->{
-  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
-   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}, {3.7070041710129924`+"`"+`*^9, 
-   3.707004172412072*^9}}],
-
-Cell[BoxData[
- RowBox[{"?", " ", "ShowSteps"}]], "Code",
- CellChangeTimes->{
-  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
-   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}}],
-
-Cell[TextData[{
- "To see the remaining steps, successively evaluate the intermediate results \
-until it is completely integrated.  To change the display color of the rules \
-and conditions, set the control variables ",
- StyleBox["$RuleColor",
-  FontWeight->"Bold"],
- " and ",
- StyleBox["$ConditionColor",
-  FontWeight->"Bold"],
- " to the desired colors."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
-   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
-   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
-   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
-   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
-   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
-   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
-   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
-   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
-   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
-   3.706400253238433*^9, 3.706400285841298*^9}, {3.7064003254025607`+"`"+`*^9, 
-   3.706400351123032*^9}, {3.7064003851039753`+"`"+`*^9, 3.7064004756851563`+"`"+`*^9}, {
-   3.7064005442440777`+"`"+`*^9, 3.7064005499824057`+"`"+`*^9}, {3.70640085250871*^9, 
-   3.7064008527707243`+"`"+`*^9}, 3.7064008935520573`+"`"+`*^9, {3.7064009277310123`+"`"+`*^9, 
-   3.706400928899079*^9}, 3.706401268059478*^9, 3.7064013005593367`+"`"+`*^9, {
-   3.7064013410226507`+"`"+`*^9, 3.706401345291895*^9}},
- FontSize->16],
-
-Cell[BoxData[{
- RowBox[{
-  RowBox[{"$RuleColor", " ", "=", " ", "Red"}], ";"}], "\n", 
- RowBox[{
-  RowBox[{"$ConditionColor", " ", "=", " ", "Blue"}], ";"}]}], "Code",
- CellChangeTimes->{
-  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
-   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}, {3.706400992084693*^9, 
-   3.7064010187052155`+"`"+`*^9}, {3.7070016839306707`+"`"+`*^9, 3.7070017095881386`+"`"+`*^9}, 
-   3.7070041689718757`+"`"+`*^9}],
-
-Cell[TextData[{
- "If ",
- StyleBox["$LoadShowSteps",
-  FontWeight->"Bold"],
- " was ",
- StyleBox["True",
-  FontWeight->"Bold"],
- " when ",
- StyleBox["Rubi",
-  FontSlant->"Italic"],
- " was loaded, the function ",
- StyleBox["IntShowSteps",
-  FontWeight->"Bold"],
- " displays all the integration rules and intermediate results required to \
-integrate an expression."
-}], "Text",
- CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
-   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
-   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
-   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
-   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
-   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
-   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
-   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
-   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
-   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
-   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
-   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
-   3.706400253238433*^9, 3.706400285841298*^9}, {3.7064003254025607`+"`"+`*^9, 
-   3.706400351123032*^9}, {3.7064003851039753`+"`"+`*^9, 3.7064004756851563`+"`"+`*^9}, {
-   3.7064005442440777`+"`"+`*^9, 3.7064005499824057`+"`"+`*^9}, {3.70640085250871*^9, 
-   3.7064008527707243`+"`"+`*^9}, 3.7064008935520573`+"`"+`*^9, {3.7064009277310123`+"`"+`*^9, 
-   3.706400928899079*^9}, 3.706401268059478*^9, 3.7064013005593367`+"`"+`*^9, {
-   3.7064013410226507`+"`"+`*^9, 3.706401345291895*^9}, {3.7064015247661605`+"`"+`*^9, 
-   3.706401590952946*^9}, {3.707001880847934*^9, 3.7070018988469634`+"`"+`*^9}},
- FontSize->16],
-
-Cell[BoxData[
- RowBox[{"?", " ", "IntShowSteps"}]], "Code",
- CellChangeTimes->{
-  3.4905089424334536`+"`"+`*^9, 3.7063777703489695`+"`"+`*^9, {3.7064015427701902`+"`"+`*^9, 
-   3.706401555594924*^9}}]
-}, Open  ]]
-},
-AutoGeneratedPackage->None,
-WindowSize->{1286, 687},
-WindowMargins->{{Automatic, 138}, {Automatic, 20}},
-Magnification->1.3000000715255737`+"`"+`,
-FrontEndVersion->"8.0 for Microsoft Windows (64-bit) (October 6, 2011)",
-StyleDefinitions->"Default.nb"
-]
-(* End of Notebook Content *)
-
-(* Internal cache information *)
-(*CellTagsOutline
-CellTagsIndex->{}
-*)
-(*CellTagsIndex
-CellTagsIndex->{}
-*)
-(*NotebookFileOutline
-Notebook[{
-Cell[CellGroupData[{
-Cell[567, 22, 1678, 27, 107, "Title"],
-Cell[2248, 51, 207, 4, 64, "Subtitle"],
-Cell[2458, 57, 90, 1, 37, "Subsubtitle"],
-Cell[2551, 60, 1980, 37, 122, "Text"],
-Cell[4534, 99, 1833, 38, 97, "Text"],
-Cell[6370, 139, 266, 5, 58, "Code"],
-Cell[6639, 146, 2205, 33, 58, "Code"],
-Cell[8847, 181, 1636, 31, 69, "Text"],
-Cell[10486, 214, 145, 3, 58, "Code"],
-Cell[10634, 219, 2365, 66, 98, "Text"],
-Cell[13002, 287, 288, 6, 58, "Code"],
-Cell[13293, 295, 205, 4, 58, "Code"],
-Cell[13501, 301, 1697, 29, 89, "Text"],
-Cell[15201, 332, 446, 9, 106, "Code"],
-Cell[15650, 343, 1804, 35, 89, "Text"],
-Cell[17457, 380, 182, 4, 75, "Code"]
-}, Open  ]]
-}
-]
-*)
-
-(* End of internal cache information *)
+var _resourcesRubiRubi412Nb = []byte(`(* Content-type: application/mathematica *)
+
+(*** Wolfram Notebook File ***)
+(* http://www.wolfram.com/nb *)
+
+(* CreatedBy='Mathematica 7.0' *)
+
+(*CacheID: 234*)
+(* Internal cache information:
+NotebookFileLineBreakTest
+NotebookFileLineBreakTest
+NotebookDataPosition[       145,          7]
+NotebookDataLength[     18593,        419]
+NotebookOptionsPosition[     17655,        387]
+NotebookOutlinePosition[     18064,        404]
+CellTagsIndexPosition[     18021,        401]
+WindowFrame->Normal*)
+
+(* Beginning of Notebook Content *)
+Notebook[{
+
+Cell[CellGroupData[{
+Cell[TextData[{
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " 4.12.1"
+}], "Title",
+ CellChangeTimes->{{3.4897813784127054`+"`"+`*^9, 3.4897813794267073`+"`"+`*^9}, 
+   3.518320509030015*^9, {3.5769613958072157`+"`"+`*^9, 3.576961399157221*^9}, {
+   3.5818113211358624`+"`"+`*^9, 3.581811322505864*^9}, {3.588014284106391*^9, 
+   3.5880142845587916`+"`"+`*^9}, {3.5933144297049866`+"`"+`*^9, 
+   3.5933144300349865`+"`"+`*^9}, {3.5953446914325457`+"`"+`*^9, 3.595344691902547*^9}, {
+   3.612238596642627*^9, 3.612238596892227*^9}, {3.6235574469855204`+"`"+`*^9, 
+   3.623557447305521*^9}, {3.6336310694366074`+"`"+`*^9, 3.633631070093645*^9}, {
+   3.6414292510530057`+"`"+`*^9, 3.6414292518174067`+"`"+`*^9}, {3.6669851230264883`+"`"+`*^9, 
+   3.66698512435649*^9}, {3.6809646450469093`+"`"+`*^9, 3.6809646561585455`+"`"+`*^9}, {
+   3.682799968357607*^9, 3.682799968746629*^9}, {3.683231370531602*^9, 
+   3.6832313714826565`+"`"+`*^9}, {3.685735947623728*^9, 3.6857359497737303`+"`"+`*^9}, {
+   3.686789919766761*^9, 3.6867899200487766`+"`"+`*^9}, {3.687230099297368*^9, 
+   3.6872300995693836`+"`"+`*^9}, {3.6892138635040665`+"`"+`*^9, 3.689213863730079*^9}, {
+   3.690146376179472*^9, 3.690146376547493*^9}, {3.6919485296883698`+"`"+`*^9, 
+   3.6919485300683703`+"`"+`*^9}, {3.6932827954675274`+"`"+`*^9, 
+   3.6932827957483277`+"`"+`*^9}, {3.695091542008456*^9, 3.6950915425794888`+"`"+`*^9}, {
+   3.6966170132343836`+"`"+`*^9, 3.696617013554384*^9}, {3.6976798751471663`+"`"+`*^9, 
+   3.6976798774002953`+"`"+`*^9}, {3.702673552626842*^9, 3.7026735531568427`+"`"+`*^9}, {
+   3.705885647832942*^9, 3.705885649283745*^9}, {3.706152621368204*^9, 
+   3.7061526217682047`+"`"+`*^9}, {3.7063765173533025`+"`"+`*^9, 3.706376517609317*^9}, {
+   3.706393141129644*^9, 3.7063931434617777`+"`"+`*^9}, {3.7090906465542336`+"`"+`*^9, 
+   3.7090906473842807`+"`"+`*^9}},
+ TextAlignment->Center],
+
+Cell["Rule-Based Integrator", "Subtitle",
+ CellChangeTimes->{{3.4897814556796412`+"`"+`*^9, 3.4897814580976458`+"`"+`*^9}, {
+  3.5769621785283117`+"`"+`*^9, 3.576962186368323*^9}},
+ TextAlignment->Center,
+ FontWeight->"Bold"],
+
+Cell["Crafted by Albert D. Rich, Applied Logician", "Subsubtitle",
+ TextAlignment->Center],
+
+Cell[TextData[{
+ "Store this ",
+ StyleBox["Mathematica",
+  FontSlant->"Italic"],
+ " notebook file and the ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " package files in a directory of your choice.  Then press Shift-Enter or \
+use ",
+ StyleBox["Mathematica'",
+  FontSlant->"Italic"],
+ "s Evaluation>Evaluate Initialization Cells command to evaluate the cells in \
+this notebook.  This loads ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ "\[CloseCurlyQuote]s integration rules, show-step routines and required \
+utility functions.  This process may require a few minutes, depending on the \
+speed of your computer."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.4905072763181257`+"`"+`*^9, 3.490507283291338*^9}, {
+   3.4905073468458495`+"`"+`*^9, 3.490507371852693*^9}, {3.4905080078118114`+"`"+`*^9, 
+   3.490508028559848*^9}, {3.4905107317414007`+"`"+`*^9, 3.4905107735806737`+"`"+`*^9}, 
+   3.490510813766344*^9, {3.4905108637176323`+"`"+`*^9, 3.490510901812899*^9}, {
+   3.490511168120967*^9, 3.4905112618615313`+"`"+`*^9}, {3.490511322108837*^9, 
+   3.490511340345269*^9}, {3.490511371077323*^9, 3.4905113713113236`+"`"+`*^9}, {
+   3.5769622262183785`+"`"+`*^9, 3.5769622320083866`+"`"+`*^9}, {3.5769666010375414`+"`"+`*^9, 
+   3.576966623167572*^9}, {3.5769666536376147`+"`"+`*^9, 3.5769667748577843`+"`"+`*^9}, {
+   3.581811338675887*^9, 3.581811339045888*^9}, {3.5880143026080236`+"`"+`*^9, 
+   3.5880143030292244`+"`"+`*^9}, {3.593314440145001*^9, 3.5933144404550014`+"`"+`*^9}, 
+   3.623557507675606*^9, {3.633631105913694*^9, 3.6336311099999275`+"`"+`*^9}, {
+   3.6414292622226253`+"`"+`*^9, 3.641429263969828*^9}, {3.6669851340075035`+"`"+`*^9, 
+   3.6669851344275045`+"`"+`*^9}, {3.685735975257767*^9, 3.6857359759677677`+"`"+`*^9}, {
+   3.686330797987679*^9, 3.6863307983126974`+"`"+`*^9}, {3.696617275962763*^9, 
+   3.6966172778627653`+"`"+`*^9}, {3.697679910094166*^9, 3.6976799160475063`+"`"+`*^9}, {
+   3.706393246928695*^9, 3.7063932472577143`+"`"+`*^9}},
+ FontSize->16],
+
+Cell[TextData[{
+ "If the control variable ",
+ StyleBox["$LoadShowSteps",
+  FontWeight->"Bold"],
+ " is ",
+ StyleBox["True",
+  FontWeight->"Bold"],
+ " when the rules are being loaded, their definitions are modified so the \
+steps used to integrate expressions can be displayed.  To load ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " without this considerable overhead, change the value of the following \
+assignment to ",
+ StyleBox["False",
+  FontWeight->"Bold"],
+ " ",
+ StyleBox["before",
+  FontSlant->"Italic"],
+ " loading the system."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
+   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, 3.4905074310943985`+"`"+`*^9, {
+   3.4905074899377017`+"`"+`*^9, 3.4905075045861273`+"`"+`*^9}, {3.4905076088723106`+"`"+`*^9, 
+   3.4905077000388703`+"`"+`*^9}, {3.4905077353105326`+"`"+`*^9, 
+   3.4905077417533436`+"`"+`*^9}, {3.4905077785850086`+"`"+`*^9, 
+   3.4905078144338713`+"`"+`*^9}, {3.490507855789544*^9, 3.4905078566007457`+"`"+`*^9}, {
+   3.490507922557661*^9, 3.490507970886546*^9}, {3.4905082544950447`+"`"+`*^9, 
+   3.4905082803130894`+"`"+`*^9}, {3.4905083779848614`+"`"+`*^9, 
+   3.4905083782812614`+"`"+`*^9}, {3.4905084158617277`+"`"+`*^9, 3.490508416033328*^9}, {
+   3.4905088136396275`+"`"+`*^9, 3.490508818304035*^9}, {3.490511426847421*^9, 
+   3.4905114499666615`+"`"+`*^9}, {3.576966785177799*^9, 3.5769668198978477`+"`"+`*^9}, {
+   3.7063765327261815`+"`"+`*^9, 3.706376547279014*^9}, {3.706376654571151*^9, 
+   3.706376659223417*^9}, {3.7063932941673975`+"`"+`*^9, 3.706393305249031*^9}, {
+   3.706393380809353*^9, 3.7063934646011457`+"`"+`*^9}, {3.7063935962866774`+"`"+`*^9, 
+   3.7063935965546927`+"`"+`*^9}, {3.706399491723877*^9, 3.706399495302082*^9}, {
+   3.7063997364058723`+"`"+`*^9, 3.706399779607343*^9}},
+ FontSize->16],
+
+Cell[BoxData[
+ RowBox[{
+  RowBox[{"$LoadShowSteps", " ", "=", " ", "True"}], ";"}]], "Code",
+ CellChangeTimes->{{3.4897820121794186`+"`"+`*^9, 3.4897820382626643`+"`"+`*^9}, {
+  3.7062395371073294`+"`"+`*^9, 3.706239538477331*^9}, {3.7063765636919527`+"`"+`*^9, 
+  3.7063765650210285`+"`"+`*^9}}],
+
+Cell[BoxData[
+ RowBox[{
+  RowBox[{"Get", "[", 
+   RowBox[{
+    RowBox[{"NotebookDirectory", "[", "]"}], "<>", "\"\<Rubi.m\>\""}], "]"}], 
+  ";"}]], "Code",
+ CellChangeTimes->{{3.4897813390382366`+"`"+`*^9, 3.489781344779046*^9}, {
+   3.489782578869215*^9, 3.489782580725618*^9}, {3.490508624536095*^9, 
+   3.49050875250312*^9}, {3.4905090125087767`+"`"+`*^9, 3.49050901444318*^9}, {
+   3.490509114111755*^9, 3.4905091205077662`+"`"+`*^9}, {3.490510930204949*^9, 
+   3.490510959673401*^9}, {3.518320785100402*^9, 3.518320823170455*^9}, {
+   3.518321371471223*^9, 3.5183214048112693`+"`"+`*^9}, {3.518321436071313*^9, 
+   3.5183214540713387`+"`"+`*^9}, {3.518321503801408*^9, 3.5183215396314583`+"`"+`*^9}, {
+   3.576961432047267*^9, 3.576961570947461*^9}, {3.576961607167512*^9, 
+   3.5769616303175445`+"`"+`*^9}, {3.576961661427588*^9, 3.576961695047635*^9}, {
+   3.5769617588277245`+"`"+`*^9, 3.5769618302878246`+"`"+`*^9}, {3.5769619293479633`+"`"+`*^9, 
+   3.576961935817972*^9}, {3.576962004338068*^9, 3.5769620153680835`+"`"+`*^9}, {
+   3.576962478824736*^9, 3.5769624799947376`+"`"+`*^9}, {3.576965706486283*^9, 
+   3.5769657335563207`+"`"+`*^9}, 3.5981526491463847`+"`"+`*^9, 3.612238809426402*^9, {
+   3.6414293246225367`+"`"+`*^9, 3.6414293251373377`+"`"+`*^9}, {3.641429366322812*^9, 
+   3.641429494050638*^9}, {3.641435429004635*^9, 3.64143551650064*^9}, {
+   3.6414361647507176`+"`"+`*^9, 3.641436360038887*^9}, {3.641436542370316*^9, 
+   3.6414365842197094`+"`"+`*^9}, {3.6428031601188593`+"`"+`*^9, 3.642803169928873*^9}, {
+   3.6466313554150295`+"`"+`*^9, 3.6466313700328655`+"`"+`*^9}, {3.646631424689992*^9, 
+   3.646631444188107*^9}, {3.6466315486800833`+"`"+`*^9, 3.646631548931098*^9}, 
+   3.646631850006318*^9, {3.650664373911137*^9, 3.650664438781228*^9}, {
+   3.6506644734412766`+"`"+`*^9, 3.650664623111486*^9}, {3.650664665331545*^9, 
+   3.650664665801546*^9}, {3.650664703321598*^9, 3.6506647778017025`+"`"+`*^9}, {
+   3.6506705925161247`+"`"+`*^9, 3.6506706012861366`+"`"+`*^9}, {3.6832327302853756`+"`"+`*^9, 
+   3.6832327457572603`+"`"+`*^9}, {3.68323290414032*^9, 3.6832329107706985`+"`"+`*^9}, {
+   3.6976869146198015`+"`"+`*^9, 3.697686933288869*^9}, {3.706376572842476*^9, 
+   3.7063765753146176`+"`"+`*^9}, {3.706378010821724*^9, 3.7063780118937855`+"`"+`*^9}, {
+   3.7063796188806996`+"`"+`*^9, 3.706379628102227*^9}, {3.706379859684473*^9, 
+   3.706379875088354*^9}}],
+
+Cell[TextData[{
+ "The function ",
+ StyleBox["Int",
+  FontWeight->"Bold"],
+ " returns the antiderivative (indefinite integral) of an expression with \
+respect to a given variable.  ",
+ StyleBox["Int",
+  FontWeight->"Bold"],
+ " is ",
+ StyleBox["not",
+  FontSlant->"Italic"],
+ " able to compute definite integrals."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
+   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
+   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
+   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
+   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
+   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
+   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
+   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
+   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
+   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
+   3.706400022249222*^9, 3.7064000373220835`+"`"+`*^9}, {3.7064000680278397`+"`"+`*^9, 
+   3.7064001117953434`+"`"+`*^9}, {3.7064001435691605`+"`"+`*^9, 3.706400148399437*^9}, {
+   3.706400178509159*^9, 3.706400204874667*^9}, {3.7064005515774975`+"`"+`*^9, 
+   3.7064005938339148`+"`"+`*^9}, {3.7064006957517433`+"`"+`*^9, 
+   3.7064007156428814`+"`"+`*^9}, {3.7070019314478283`+"`"+`*^9, 3.707001951677985*^9}, {
+   3.7070039353025103`+"`"+`*^9, 3.707004082873951*^9}},
+ FontSize->16],
+
+Cell[BoxData[
+ RowBox[{"?", " ", "Int"}]], "Code",
+ CellChangeTimes->{
+  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}}],
+
+Cell[TextData[{
+ "If ",
+ StyleBox["$LoadShowSteps",
+  FontWeight->"Bold"],
+ " was ",
+ StyleBox["True",
+  FontWeight->"Bold"],
+ " when ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " was loaded ",
+ StyleBox["and",
+  FontSlant->"Italic"],
+ " the control variable ",
+ StyleBox["ShowSteps",
+  FontWeight->"Bold"],
+ " is ",
+ StyleBox["True",
+  FontWeight->"Bold"],
+ ", ",
+ StyleBox["Int",
+  FontWeight->"Bold"],
+ " shows just one step of the integration and returns the intermediate \
+result.  If ",
+ StyleBox["$LoadShowSteps",
+  FontWeight->"Bold"],
+ " was ",
+ StyleBox["False",
+  FontWeight->"Bold"],
+ " when ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " was loaded ",
+ StyleBox["or",
+  FontSlant->"Italic"],
+ " the control variable ",
+ StyleBox["ShowSteps",
+  FontWeight->"Bold"],
+ " is ",
+ StyleBox["False",
+  FontWeight->"Bold"],
+ ", ",
+ StyleBox["Int",
+  FontWeight->"Bold"],
+ " returns the antiderivative without showing the steps."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
+   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
+   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
+   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
+   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
+   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
+   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
+   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
+   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
+   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
+   3.706400022249222*^9, 3.7064000373220835`+"`"+`*^9}, {3.7064000680278397`+"`"+`*^9, 
+   3.7064001117953434`+"`"+`*^9}, {3.7064001435691605`+"`"+`*^9, 3.706400148399437*^9}, {
+   3.706400178509159*^9, 3.706400204874667*^9}, {3.7064005515774975`+"`"+`*^9, 
+   3.7064006532903147`+"`"+`*^9}, {3.7064007512299166`+"`"+`*^9, 
+   3.7064008230720263`+"`"+`*^9}, {3.7064010427835927`+"`"+`*^9, 
+   3.7064010739973783`+"`"+`*^9}, {3.7064011124925795`+"`"+`*^9, 3.706401133173763*^9}, {
+   3.706401199246542*^9, 3.7064013036675143`+"`"+`*^9}, {3.7064013764556775`+"`"+`*^9, 
+   3.70640146339265*^9}},
+ FontSize->16],
+
+Cell[BoxData[
+ RowBox[{
+  RowBox[{"ShowSteps", " ", "=", " ", "True"}], ";"}]], "Code",
+ CellChangeTimes->{
+  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
+   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}, {3.7070041710129924`+"`"+`*^9, 
+   3.707004172412072*^9}}],
+
+Cell[BoxData[
+ RowBox[{"?", " ", "ShowSteps"}]], "Code",
+ CellChangeTimes->{
+  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
+   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}}],
+
+Cell[TextData[{
+ "To see the remaining steps, successively evaluate the intermediate results \
+until it is completely integrated.  To change the display color of the rules \
+and conditions, set the control variables ",
+ StyleBox["$RuleColor",
+  FontWeight->"Bold"],
+ " and ",
+ StyleBox["$ConditionColor",
+  FontWeight->"Bold"],
+ " to the desired colors."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
+   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
+   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
+   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
+   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
+   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
+   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
+   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
+   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
+   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
+   3.706400253238433*^9, 3.706400285841298*^9}, {3.7064003254025607`+"`"+`*^9, 
+   3.706400351123032*^9}, {3.7064003851039753`+"`"+`*^9, 3.7064004756851563`+"`"+`*^9}, {
+   3.7064005442440777`+"`"+`*^9, 3.7064005499824057`+"`"+`*^9}, {3.70640085250871*^9, 
+   3.7064008527707243`+"`"+`*^9}, 3.7064008935520573`+"`"+`*^9, {3.7064009277310123`+"`"+`*^9, 
+   3.706400928899079*^9}, 3.706401268059478*^9, 3.7064013005593367`+"`"+`*^9, {
+   3.7064013410226507`+"`"+`*^9, 3.706401345291895*^9}},
+ FontSize->16],
+
+Cell[BoxData[{
+ RowBox[{
+  RowBox[{"$RuleColor", " ", "=", " ", "Red"}], ";"}], "\n", 
+ RowBox[{
+  RowBox[{"$ConditionColor", " ", "=", " ", "Blue"}], ";"}]}], "Code",
+ CellChangeTimes->{
+  3.4905089424334536`+"`"+`*^9, {3.7063777742591934`+"`"+`*^9, 3.706377775711276*^9}, {
+   3.7064006167422247`+"`"+`*^9, 3.7064006200564137`+"`"+`*^9}, {3.706400992084693*^9, 
+   3.7064010187052155`+"`"+`*^9}, {3.7070016839306707`+"`"+`*^9, 3.7070017095881386`+"`"+`*^9}, 
+   3.7070041689718757`+"`"+`*^9}],
+
+Cell[TextData[{
+ "If ",
+ StyleBox["$LoadShowSteps",
+  FontWeight->"Bold"],
+ " was ",
+ StyleBox["True",
+  FontWeight->"Bold"],
+ " when ",
+ StyleBox["Rubi",
+  FontSlant->"Italic"],
+ " was loaded, the function ",
+ StyleBox["IntShowSteps",
+  FontWeight->"Bold"],
+ " displays all the integration rules and intermediate results required to \
+integrate an expression."
+}], "Text",
+ CellChangeTimes->{{3.4897816406959662`+"`"+`*^9, 3.489781641288767*^9}, {
+   3.4897816777304316`+"`"+`*^9, 3.489781737369336*^9}, {3.489781785947821*^9, 
+   3.4897818697199683`+"`"+`*^9}, {3.48978190503843*^9, 3.489781921356059*^9}, {
+   3.489781958094124*^9, 3.4897819858777723`+"`"+`*^9}, {3.4897820637063093`+"`"+`*^9, 
+   3.4897820981199694`+"`"+`*^9}, 3.4897822161497765`+"`"+`*^9, {3.4897840774906487`+"`"+`*^9, 
+   3.4897840907506723`+"`"+`*^9}, {3.4897842079224777`+"`"+`*^9, 
+   3.4897842092952805`+"`"+`*^9}, {3.4905088717965293`+"`"+`*^9, 3.490508881172146*^9}, {
+   3.4905089196730137`+"`"+`*^9, 3.4905089314354343`+"`"+`*^9}, {3.5769669579280405`+"`"+`*^9, 
+   3.5769671537783155`+"`"+`*^9}, {3.5770818401387987`+"`"+`*^9, 3.577082065184794*^9}, {
+   3.5770821198940897`+"`"+`*^9, 3.577082170594179*^9}, 3.577082332896864*^9, {
+   3.7063936678217688`+"`"+`*^9, 3.7063936685528107`+"`"+`*^9}, {3.706399437183758*^9, 
+   3.706399471405715*^9}, {3.706399511039982*^9, 3.7063995141081576`+"`"+`*^9}, {
+   3.706400253238433*^9, 3.706400285841298*^9}, {3.7064003254025607`+"`"+`*^9, 
+   3.706400351123032*^9}, {3.7064003851039753`+"`"+`*^9, 3.7064004756851563`+"`"+`*^9}, {
+   3.7064005442440777`+"`"+`*^9, 3.7064005499824057`+"`"+`*^9}, {3.70640085250871*^9, 
+   3.7064008527707243`+"`"+`*^9}, 3.7064008935520573`+"`"+`*^9, {3.7064009277310123`+"`"+`*^9, 
+   3.706400928899079*^9}, 3.706401268059478*^9, 3.7064013005593367`+"`"+`*^9, {
+   3.7064013410226507`+"`"+`*^9, 3.706401345291895*^9}, {3.7064015247661605`+"`"+`*^9, 
+   3.706401590952946*^9}, {3.707001880847934*^9, 3.7070018988469634`+"`"+`*^9}},
+ FontSize->16],
+
+Cell[BoxData[
+ RowBox[{"?", " ", "IntShowSteps"}]], "Code",
+ CellChangeTimes->{
+  3.4905089424334536`+"`"+`*^9, 3.7063777703489695`+"`"+`*^9, {3.7064015427701902`+"`"+`*^9, 
+   3.706401555594924*^9}}]
+}, Open  ]]
+},
+AutoGeneratedPackage->None,
+WindowSize->{1286, 687},
+WindowMargins->{{Automatic, 138}, {Automatic, 20}},
+Magnification->1.3000000715255737`+"`"+`,
+FrontEndVersion->"8.0 for Microsoft Windows (64-bit) (October 6, 2011)",
+StyleDefinitions->"Default.nb"
+]
+(* End of Notebook Content *)
+
+(* Internal cache information *)
+(*CellTagsOutline
+CellTagsIndex->{}
+*)
+(*CellTagsIndex
+CellTagsIndex->{}
+*)
+(*NotebookFileOutline
+Notebook[{
+Cell[CellGroupData[{
+Cell[567, 22, 1678, 27, 107, "Title"],
+Cell[2248, 51, 207, 4, 64, "Subtitle"],
+Cell[2458, 57, 90, 1, 37, "Subsubtitle"],
+Cell[2551, 60, 1980, 37, 122, "Text"],
+Cell[4534, 99, 1833, 38, 97, "Text"],
+Cell[6370, 139, 266, 5, 58, "Code"],
+Cell[6639, 146, 2205, 33, 58, "Code"],
+Cell[8847, 181, 1636, 31, 69, "Text"],
+Cell[10486, 214, 145, 3, 58, "Code"],
+Cell[10634, 219, 2365, 66, 98, "Text"],
+Cell[13002, 287, 288, 6, 58, "Code"],
+Cell[13293, 295, 205, 4, 58, "Code"],
+Cell[13501, 301, 1697, 29, 89, "Text"],
+Cell[15201, 332, 446, 9, 106, "Code"],
+Cell[15650, 343, 1804, 35, 89, "Text"],
+Cell[17457, 380, 182, 4, 75, "Code"]
+}, Open  ]]
+}
+]
+*)
+
+(* End of internal cache information *)
 `)
 
 func resourcesRubiRubi412NbBytes() ([]byte, error) {
@@ -53741,276 +53741,276 @@ func resourcesRubiRubi412Nb() (*asset, error) {
 	return a, nil
 }
 
-var _resourcesRubiShowstepRoutinesM = []byte(`(* ::Package:: *)
-
-(* ShowSteps controls the use of special definitions when defining rules AND display of steps when simplify expressions. *) 
-If[ShowSteps=!=False, ShowSteps=True];
-SimplifyFlag=True;
-
-
-$StepCounter = 0;
-$RuleColor = Red;
-$ConditionColor = Blue;
-
-
-Unprotect[IntShowSteps];  Clear[IntShowSteps];
-
-IntShowSteps[u_,x_Symbol] :=
- Block[{ShowSteps=True},
-  FixedPoint[
-    Function[CellPrint[ExpressionCell[#,"Input"]]; 
-    ReplaceAll[#,{Defer[Int]->Int,Defer[Dist]->Dist,Defer[Subst]->Subst}]],Int[u,x]];
-  Null]
-
-Protect[IntShowSteps];
-
-
-(* If func is a function defined using properly defined transformation rules,
-   StepFunction[func] modifies the rules to display steps when the control
-   variable ShowSteps is True. *)
-StepFunction[func_] :=
-  Module[{lst=DownValues[func]},
-  Print["Modifying ",Length[lst]," integration rules to display steps..."];
-  Block[{ShowStep,SimplifyFlag},
-    Monitor[Do[
-      lst[[i]]=ModifyRule[i,lst[[i]],SimplifyFlag],
-      {i,1,Length[lst]}],
-    ProgressIndicator[i,{1,Length[lst]+1},ImageSize->{500,20}]]];
-  ClearDownValues[func];
-  SetDownValues[func,lst];
-  Unprotect[func]]
-
-StepFunction[func1_,func2_] :=
-  Block[{lst,num=0,ShowStep,SimplifyFlag},
-  lst=Map[Function[ModifyRule[num++,#, SimplifyFlag]],DownValues[func1]];
-  ClearDownValues[func1];
-  SetDownValues[func2,ReplaceAll[lst,{func1->func2}]]]
-
-
-(* rule is a rule as an expression of the form RuleDelayed[lhs,rhs].
-	flag has the value SimplifyFlag.  ModifyRule[rule,flag] 
-	formats the rule's left hand side as a string (lhsStrg) in InputForm,
-	formats the rule's conditions as a string (condStrg) in StandardForm,
-	formats the rule's let statements as a string (letStrg) in StandardForm,
-	splices the conditions string and let strings together as a string (condStrg) in StandardForm,
-	formats the rule's right hand side as a string (rhsStrg) in InputForm,
-	then it returns rule with the body replaced with the expression 
-		ShowStep[num,condStrg,lhsStrg,rhsStrg,rhs] /; flag. *)
-ModifyRule[num_,rule_RuleDelayed, flag_] :=
-    Module[{lhsStrg,rhsStrg,condStrg,letStrg},
-  If[Not[FreeQ[Hold[rule],ShowStep]] || 
-     Not[FreeQ[Hold[rule],Identity]] || 
-     Not[FreeQ[Hold[rule],DeactivateTrig]] || 
-     Not[FreeQ[Hold[rule],Defer[Int]]] || 
-     Not[FreeQ[Hold[rule],Preprocess]],
-    rule,
-  lhsStrg=FormatLhs[rule];
-  If[rule[[2,0]]===Condition,
-    condStrg=FormatConditions[Extract[rule,{2,2},Defer]];
-    If[rule[[2,1,0]]===With || rule[[2,1,0]]===Module || rule[[2,1,0]]===Block,
-      letStrg=FormatLets[Extract[rule,{2,1,1},Defer]];
-      If[rule[[2,1,2,0]]===Condition,
-        condStrg=SpliceConditionString[condStrg,letStrg,FormatConditions[Extract[rule,{2,1,2,2},Defer]]];
-		rhsStrg=FormatRhs[Extract[rule,{2,1,2,1},Defer]];
-        WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1,2,1},Hold]], {2,1,2,1}], flag],
-      condStrg=SpliceConditionString[condStrg,letStrg,""];
-	  rhsStrg=FormatRhs[Extract[rule,{2,1,2},Defer]];
-      WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1,2},Hold]], {2,1,2}], flag]],
-    condStrg=SpliceConditionString[condStrg,"",""];
-	rhsStrg=FormatRhs[Extract[rule,{2,1},Defer]];
-    WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1},Hold]], {2,1}], flag]],
-  If[rule[[2,0]]===With || rule[[2,0]]===Module || rule[[2,0]]===Block,
-    letStrg=FormatLets[Extract[rule,{2,1},Defer]];
-    If[rule[[2,2,0]]===Condition,
-      condStrg=FormatConditions[Extract[rule,{2,2,2},Defer]];
-      condStrg=SpliceConditionString["",letStrg,condStrg];
-	  rhsStrg=FormatRhs[Extract[rule,{2,2,1},Defer]];
-      WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,2,1},Hold]], {2,2,1}], flag],
-    condStrg=SpliceConditionString["",letStrg,""];
-	rhsStrg=FormatRhs[Extract[rule,{2,2},Defer]];
-    WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,2},Hold]], {2,2}], flag]],
-  rhsStrg=FormatRhs[Extract[rule,2,Defer]];
-  WrapCondition[ReplacePart[rule, ShowStep[num,"",lhsStrg,rhsStrg,Extract[rule,2,Hold]], 2], flag]]]]]
-
-
-WrapCondition[rule_RuleDelayed,condition_] :=
-  ReplacePart[ReplacePart[rule,Append[Extract[rule,{2},Hold],condition],{2}],Condition,{2,0}]
-
-
-(* rule is a rule as an expression of the form RuleDelayed[lhs,rhs].
-	FormatLhs[rule] returns returns a string for the lhs of the rule in InputForm with the 
-	pattern tags "_." and "_" removed from the dummy variable names. *) 
-FormatLhs[rule_] :=
-  Module[{lhs=Extract[rule,{1,1},Defer],conditions,func,var},
-  ( If[rule[[2,0]]===Condition,
-	  conditions=Extract[rule,{2,2},Defer];
-	  If[conditions[[1,0]]===FunctionOfQ,
-	    func=conditions[[1,1]];
-	    var=conditions[[1,2]];
-        lhs=ReplaceVariable[lhs,var,func],
-	  If[conditions[[1,0]]===And && MemberQ[conditions,FunctionOfQ,{3},Heads->True],
-	    func=conditions[[1,Position[conditions,FunctionOfQ,{3},1][[1,2]],1]];
-	    var=conditions[[1,Position[conditions,FunctionOfQ,{3},1][[1,2]],2]];
-        lhs=ReplaceVariable[lhs,var,func]]]] );
-  DropDefer[StringReplace[ToString[lhs, InputForm],{"_Symbol"->"", "_."->"", "_"->""}]]]
-
-(* ReplaceVariable[lhs,var,func] returns lhs with the var replaced by F[func] *)
-ReplaceVariable[lhs_,var_,func_] :=
-  Block[{F},
-  If[PatternEqualQ[lhs[[1,1]],var],
-    ReplacePart[lhs,F[func],{1,1}],
-  If[PatternEqualQ[lhs[[1,1,1]],var],
-    ReplacePart[lhs,F[func],{1,1,1}],
-  If[PatternEqualQ[lhs[[1,1,2]],var],
-    ReplacePart[lhs,F[func],{1,1,2}],
-  If[PatternEqualQ[lhs[[1,1,3]],var],
-    ReplacePart[lhs,F[func],{1,1,3}],
-  Print["Function of expression variable not found: ",lhs," ",var," ",func];
-  Abort[]]]]]]
-
-PatternEqualQ[pattern_,var_] :=
-  Head[pattern]===Pattern && pattern[[1]]===var
-
-
-(* rhs is an expression of the form Defer[...] where ... is the right hand side of a rule.
-	FormatRhs[rhs] returns a string for the rhs of the rule in InputForm. *)
-FormatRhs[rhs_] :=
-  Block[{SubstFor,Rt,F},
-  DropDefer[ToString[ReplaceAll[rhs,{
-		SubstFor[v_,u_,x_] -> F[x],
-		Rt[u_,2] -> Sqrt[u],
-		Rt[u_,n_] -> u^(1/n)
-  }], InputForm]]]
-
-
-(* strg is a string of the form "Defer[...]".  DropDefer[strg] returns the string "...", with 
-	all occurrences of the string "Int[" replaced with "Integrate" and "Dif" with "D" so they will
-	display using integral and differential signs when the string is converted to StandardForm. *)
-DropDefer[strg_] :=
-  StringDrop[StringDrop[StringReplace[strg,{
-	"Int["->"Integrate[",
-	"Dif["->"D["
-(*, "sin["->"Sin[",  "cos["->"Cos[",  "tan["->"Tan[",  "cot["->"Cot[",  "sec["->"Sec[",  "csc["->"csc[",
-	"sinh["->"Sinh[",  "cosh["->"Cosh[",  "tanh["->"Tanh[",  "coth["->"Coth[",  "sech["->"Sech[",  "csch["->"csch[" *)
-		}],6],-1]
-
-
-(* conditions is an expression comprising the conditions on a rule.  FormatConditions[conditions]
-	replaces expressions of the form Not[FalseQ[u]] with u in conditions,
-	deletes expressions of the form FreeQ[u,x], FunctionOfQ[u,v,x] and EasyDQ[u,x] in conditions,
-	replaces expressions of the form Rt[u,2] with Sqrt[u] and Rt[u,n] with u^(1/n) in conditions,
-	and then returns the conditions as a string formatted in Mathematica's StandardForm. *)
-FormatConditions[conditions_] :=
-  If[conditions[[1,0]]===Not && conditions[[1,1,0]]===FalseQ,
-    FormatConditions[Extract[conditions,{1,1,1},Defer]],
-  If[conditions[[1,0]]===FreeQ,
-    "",
-  If[conditions[[1,0]]===And && MemberQ[conditions,FreeQ,{3},Heads->True],
-    FormatConditions[DeleteCondition[FreeQ,conditions]],
-  If[conditions[[1,0]]===FunctionOfQ,
-    "",
-  If[conditions[[1,0]]===And && MemberQ[conditions,FunctionOfQ,{3},Heads->True],
-    FormatConditions[DeleteCondition[FunctionOfQ,conditions]],
-  If[conditions[[1,0]]===EasyDQ,
-    "",
-  If[conditions[[1,0]]===And && MemberQ[conditions,EasyDQ,{3},Heads->True],
-    FormatConditions[DeleteCondition[EasyDQ,conditions]],
-  ToConditionString[conditions] <> ","]]]]]]]
-
-DeleteCondition[func_,conditions_] :=
-  If[Quiet[Head[Extract[conditions,{1,3},Defer]]===Extract],
-    If[Position[conditions,func,{3},1][[1,2]]==1,
-      Extract[conditions,{1,2},Defer],
-    Extract[conditions,{1,1},Defer]],
-  Delete[conditions,{1,Position[conditions,func,{3},1][[1,2]]}]] 
-
-
-(* let is a body of a With, Module or Block statement.  FormatLets[let] returns the assignment as a
-	string in the form "var=expression, then" formatted in Mathematica's StandardForm. *)
-FormatLets[let_] :=
-  If[MatchQ[let,Defer[{u_}]],
-    If[let[[1,1,0]]===Set &&
-		  let[[1,1,2,0]]===Block &&
-		  Extract[let,{1,1,2,1},Defer]===Defer[{ShowSteps=False}],
-      If[let[[1,1,2,2,0]]===Simplify,
-        ToConditionString[Extract[let,{1,1,1},Defer]] <> "=" <>
-        ToConditionString[Extract[let,{1,1,2,2,1},Defer]] <> ", then",
-      ToConditionString[Extract[let,{1,1,1},Defer]] <> "=" <>
-      ToConditionString[Extract[let,{1,1,2,2},Defer]] <> ", then"],
-    ToConditionString[Extract[let,{1,1},Defer]] <> ", then"],
-  ToConditionString[let] <> ", then"]
-
-
-(* conditions is an expression comprising the conditions on a rule.  ToConditionString[conditions]
-	replace calls in the conditions on the function Rt[u,2] with Sqrt[u] and Rt[u,n] with u^(1/n), 
-	and then returns the conditions as a string formatted in Mathematica's StandardForm. *)
-ToConditionString[conditions_] :=
-  ToString[ReplaceAll[conditions,{
-    Rt[u_,2]->Sqrt[u],
-    Rt[u_,n_]->u^(1/n)
-      }],StandardForm]
-
-
-(* cond1, lets and cond2 are strings.  SpliceConditionString[cond1,lets,cond2] concatenates and
-	returns the condition and let strings along with the "if" and "let" to make a human readable
-	condition string. *)
-SpliceConditionString[cond1_,lets_,cond2_] :=
-  If[cond2==="",
-    If[lets==="",
-      If[cond1==="",
-        "",
-      "If " <> cond1],
-    If[cond1==="",
-      "Let " <> lets,
-    "If " <> cond1 <> " let " <> lets]],
-  If[lets==="",
-    If[cond1==="",
-      "If " <> cond2,
-    "If " <> cond1 <> " if " <> cond2],
-  If[cond1==="",
-    "Let " <> lets <> " if " <> cond2,
-  "If " <> cond1 <> " let " <> lets <> " if " <> cond2]]]  
-
-
-(* condStrg, lhsStrg and rhsStrg are the strings required to display the rule being applied.
-	rhs is the expression on the right side of the rule (i.e. the consequent of the rule).
-	If ShowSteps is True, ShowStep[num,condStrg,lhsStrg,rhsStrg,rhs] displays the rule being applied, 
-	sets SimplifyFlag to False to turn off further simplification, and release the hold on the rhs 
-	of the rule. *)
-ShowStep[condStrg_,lhsStrg_,rhsStrg_,rhs_] := (
-  If[IntegerQ[$StepCounter], $StepCounter++];
-  If[ShowSteps,
-    Print["Rule: ",Style[condStrg,$ConditionColor]];
-    Print["  ",Style[ToExpression["Defer["<>lhsStrg<>"]"],$RuleColor],Style[" \[LongRightArrow] ",Bold],Style[ToExpression["Defer["<>rhsStrg<>"]"],$RuleColor]];
-    Block[{SimplifyFlag=False},
-    ReleaseHold[rhs]],
-  ReleaseHold[rhs]] )
-
-ShowStep[num_,condStrg_,lhsStrg_,rhsStrg_,rhs_] := (
-  If[IntegerQ[$StepCounter], $StepCounter++];
-  If[ShowSteps,
-    Print["Rule ",num+1,": ",Style[condStrg,$ConditionColor]];
-    Print["  ",Style[ToExpression["Defer["<>lhsStrg<>"]"],$RuleColor],Style[" \[LongRightArrow] ",Bold],Style[ToExpression["Defer["<>rhsStrg<>"]"],$RuleColor]];
-    Block[{SimplifyFlag=False},
-    ReleaseHold[rhs]],
-  ReleaseHold[rhs]] )
-
-
-(* Note: Clear[func] also eliminates 2-D display of functions like Integrate. *) 
-ClearDownValues[func_Symbol] := (
-  Unprotect[func];
-  DownValues[func]={};
-  Protect[func])
-
-
-(* Note: A bug in earlier versions of Mathematica prevents setting more than 529 DownValues using a simple assignment! *)
-SetDownValues[func_Symbol,lst_List] := (
-  Unprotect[func];
-  ( If[$VersionNumber>=8,
-      DownValues[func]=lst,
-    DownValues[func]=Take[lst,Min[529,Length[lst]]];
-    Scan[Function[ReplacePart[ReplacePart[#,#[[1,1]],1],SetDelayed,0]],Drop[lst,Min[529,Length[lst]]]]] );
-  Protect[func])
+var _resourcesRubiShowstepRoutinesM = []byte(`(* ::Package:: *)
+
+(* ShowSteps controls the use of special definitions when defining rules AND display of steps when simplify expressions. *) 
+If[ShowSteps=!=False, ShowSteps=True];
+SimplifyFlag=True;
+
+
+$StepCounter = 0;
+$RuleColor = Red;
+$ConditionColor = Blue;
+
+
+Unprotect[IntShowSteps];  Clear[IntShowSteps];
+
+IntShowSteps[u_,x_Symbol] :=
+ Block[{ShowSteps=True},
+  FixedPoint[
+    Function[CellPrint[ExpressionCell[#,"Input"]]; 
+    ReplaceAll[#,{Defer[Int]->Int,Defer[Dist]->Dist,Defer[Subst]->Subst}]],Int[u,x]];
+  Null]
+
+Protect[IntShowSteps];
+
+
+(* If func is a function defined using properly defined transformation rules,
+   StepFunction[func] modifies the rules to display steps when the control
+   variable ShowSteps is True. *)
+StepFunction[func_] :=
+  Module[{lst=DownValues[func]},
+  Print["Modifying ",Length[lst]," integration rules to display steps..."];
+  Block[{ShowStep,SimplifyFlag},
+    Monitor[Do[
+      lst[[i]]=ModifyRule[i,lst[[i]],SimplifyFlag],
+      {i,1,Length[lst]}],
+    ProgressIndicator[i,{1,Length[lst]+1},ImageSize->{500,20}]]];
+  ClearDownValues[func];
+  SetDownValues[func,lst];
+  Unprotect[func]]
+
+StepFunction[func1_,func2_] :=
+  Block[{lst,num=0,ShowStep,SimplifyFlag},
+  lst=Map[Function[ModifyRule[num++,#, SimplifyFlag]],DownValues[func1]];
+  ClearDownValues[func1];
+  SetDownValues[func2,ReplaceAll[lst,{func1->func2}]]]
+
+
+(* rule is a rule as an expression of the form RuleDelayed[lhs,rhs].
+	flag has the value SimplifyFlag.  ModifyRule[rule,flag] 
+	formats the rule's left hand side as a string (lhsStrg) in InputForm,
+	formats the rule's conditions as a string (condStrg) in StandardForm,
+	formats the rule's let statements as a string (letStrg) in StandardForm,
+	splices the conditions string and let strings together as a string (condStrg) in StandardForm,
+	formats the rule's right hand side as a string (rhsStrg) in InputForm,
+	then it returns rule with the body replaced with the expression 
+		ShowStep[num,condStrg,lhsStrg,rhsStrg,rhs] /; flag. *)
+ModifyRule[num_,rule_RuleDelayed, flag_] :=
+    Module[{lhsStrg,rhsStrg,condStrg,letStrg},
+  If[Not[FreeQ[Hold[rule],ShowStep]] || 
+     Not[FreeQ[Hold[rule],Identity]] || 
+     Not[FreeQ[Hold[rule],DeactivateTrig]] || 
+     Not[FreeQ[Hold[rule],Defer[Int]]] || 
+     Not[FreeQ[Hold[rule],Preprocess]],
+    rule,
+  lhsStrg=FormatLhs[rule];
+  If[rule[[2,0]]===Condition,
+    condStrg=FormatConditions[Extract[rule,{2,2},Defer]];
+    If[rule[[2,1,0]]===With || rule[[2,1,0]]===Module || rule[[2,1,0]]===Block,
+      letStrg=FormatLets[Extract[rule,{2,1,1},Defer]];
+      If[rule[[2,1,2,0]]===Condition,
+        condStrg=SpliceConditionString[condStrg,letStrg,FormatConditions[Extract[rule,{2,1,2,2},Defer]]];
+		rhsStrg=FormatRhs[Extract[rule,{2,1,2,1},Defer]];
+        WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1,2,1},Hold]], {2,1,2,1}], flag],
+      condStrg=SpliceConditionString[condStrg,letStrg,""];
+	  rhsStrg=FormatRhs[Extract[rule,{2,1,2},Defer]];
+      WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1,2},Hold]], {2,1,2}], flag]],
+    condStrg=SpliceConditionString[condStrg,"",""];
+	rhsStrg=FormatRhs[Extract[rule,{2,1},Defer]];
+    WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,1},Hold]], {2,1}], flag]],
+  If[rule[[2,0]]===With || rule[[2,0]]===Module || rule[[2,0]]===Block,
+    letStrg=FormatLets[Extract[rule,{2,1},Defer]];
+    If[rule[[2,2,0]]===Condition,
+      condStrg=FormatConditions[Extract[rule,{2,2,2},Defer]];
+      condStrg=SpliceConditionString["",letStrg,condStrg];
+	  rhsStrg=FormatRhs[Extract[rule,{2,2,1},Defer]];
+      WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,2,1},Hold]], {2,2,1}], flag],
+    condStrg=SpliceConditionString["",letStrg,""];
+	rhsStrg=FormatRhs[Extract[rule,{2,2},Defer]];
+    WrapCondition[ReplacePart[rule, ShowStep[num,condStrg,lhsStrg,rhsStrg,Extract[rule,{2,2},Hold]], {2,2}], flag]],
+  rhsStrg=FormatRhs[Extract[rule,2,Defer]];
+  WrapCondition[ReplacePart[rule, ShowStep[num,"",lhsStrg,rhsStrg,Extract[rule,2,Hold]], 2], flag]]]]]
+
+
+WrapCondition[rule_RuleDelayed,condition_] :=
+  ReplacePart[ReplacePart[rule,Append[Extract[rule,{2},Hold],condition],{2}],Condition,{2,0}]
+
+
+(* rule is a rule as an expression of the form RuleDelayed[lhs,rhs].
+	FormatLhs[rule] returns returns a string for the lhs of the rule in InputForm with the 
+	pattern tags "_." and "_" removed from the dummy variable names. *) 
+FormatLhs[rule_] :=
+  Module[{lhs=Extract[rule,{1,1},Defer],conditions,func,var},
+  ( If[rule[[2,0]]===Condition,
+	  conditions=Extract[rule,{2,2},Defer];
+	  If[conditions[[1,0]]===FunctionOfQ,
+	    func=conditions[[1,1]];
+	    var=conditions[[1,2]];
+        lhs=ReplaceVariable[lhs,var,func],
+	  If[conditions[[1,0]]===And && MemberQ[conditions,FunctionOfQ,{3},Heads->True],
+	    func=conditions[[1,Position[conditions,FunctionOfQ,{3},1][[1,2]],1]];
+	    var=conditions[[1,Position[conditions,FunctionOfQ,{3},1][[1,2]],2]];
+        lhs=ReplaceVariable[lhs,var,func]]]] );
+  DropDefer[StringReplace[ToString[lhs, InputForm],{"_Symbol"->"", "_."->"", "_"->""}]]]
+
+(* ReplaceVariable[lhs,var,func] returns lhs with the var replaced by F[func] *)
+ReplaceVariable[lhs_,var_,func_] :=
+  Block[{F},
+  If[PatternEqualQ[lhs[[1,1]],var],
+    ReplacePart[lhs,F[func],{1,1}],
+  If[PatternEqualQ[lhs[[1,1,1]],var],
+    ReplacePart[lhs,F[func],{1,1,1}],
+  If[PatternEqualQ[lhs[[1,1,2]],var],
+    ReplacePart[lhs,F[func],{1,1,2}],
+  If[PatternEqualQ[lhs[[1,1,3]],var],
+    ReplacePart[lhs,F[func],{1,1,3}],
+  Print["Function of expression variable not found: ",lhs," ",var," ",func];
+  Abort[]]]]]]
+
+PatternEqualQ[pattern_,var_] :=
+  Head[pattern]===Pattern && pattern[[1]]===var
+
+
+(* rhs is an expression of the form Defer[...] where ... is the right hand side of a rule.
+	FormatRhs[rhs] returns a string for the rhs of the rule in InputForm. *)
+FormatRhs[rhs_] :=
+  Block[{SubstFor,Rt,F},
+  DropDefer[ToString[ReplaceAll[rhs,{
+		SubstFor[v_,u_,x_] -> F[x],
+		Rt[u_,2] -> Sqrt[u],
+		Rt[u_,n_] -> u^(1/n)
+  }], InputForm]]]
+
+
+(* strg is a string of the form "Defer[...]".  DropDefer[strg] returns the string "...", with 
+	all occurrences of the string "Int[" replaced with "Integrate" and "Dif" with "D" so they will
+	display using integral and differential signs when the string is converted to StandardForm. *)
+DropDefer[strg_] :=
+  StringDrop[StringDrop[StringReplace[strg,{
+	"Int["->"Integrate[",
+	"Dif["->"D["
+(*, "sin["->"Sin[",  "cos["->"Cos[",  "tan["->"Tan[",  "cot["->"Cot[",  "sec["->"Sec[",  "csc["->"csc[",
+	"sinh["->"Sinh[",  "cosh["->"Cosh[",  "tanh["->"Tanh[",  "coth["->"Coth[",  "sech["->"Sech[",  "csch["->"csch[" *)
+		}],6],-1]
+
+
+(* conditions is an expression comprising the conditions on a rule.  FormatConditions[conditions]
+	replaces expressions of the form Not[FalseQ[u]] with u in conditions,
+	deletes expressions of the form FreeQ[u,x], FunctionOfQ[u,v,x] and EasyDQ[u,x] in conditions,
+	replaces expressions of the form Rt[u,2] with Sqrt[u] and Rt[u,n] with u^(1/n) in conditions,
+	and then returns the conditions as a string formatted in Mathematica's StandardForm. *)
+FormatConditions[conditions_] :=
+  If[conditions[[1,0]]===Not && conditions[[1,1,0]]===FalseQ,
+    FormatConditions[Extract[conditions,{1,1,1},Defer]],
+  If[conditions[[1,0]]===FreeQ,
+    "",
+  If[conditions[[1,0]]===And && MemberQ[conditions,FreeQ,{3},Heads->True],
+    FormatConditions[DeleteCondition[FreeQ,conditions]],
+  If[conditions[[1,0]]===FunctionOfQ,
+    "",
+  If[conditions[[1,0]]===And && MemberQ[conditions,FunctionOfQ,{3},Heads->True],
+    FormatConditions[DeleteCondition[FunctionOfQ,conditions]],
+  If[conditions[[1,0]]===EasyDQ,
+    "",
+  If[conditions[[1,0]]===And && MemberQ[conditions,EasyDQ,{3},Heads->True],
+    FormatConditions[DeleteCondition[EasyDQ,conditions]],
+  ToConditionString[conditions] <> ","]]]]]]]
+
+DeleteCondition[func_,conditions_] :=
+  If[Quiet[Head[Extract[conditions,{1,3},Defer]]===Extract],
+    If[Position[conditions,func,{3},1][[1,2]]==1,
+      Extract[conditions,{1,2},Defer],
+    Extract[conditions,{1,1},Defer]],
+  Delete[conditions,{1,Position[conditions,func,{3},1][[1,2]]}]] 
+
+
+(* let is a body of a With, Module or Block statement.  FormatLets[let] returns the assignment as a
+	string in the form "var=expression, then" formatted in Mathematica's StandardForm. *)
+FormatLets[let_] :=
+  If[MatchQ[let,Defer[{u_}]],
+    If[let[[1,1,0]]===Set &&
+		  let[[1,1,2,0]]===Block &&
+		  Extract[let,{1,1,2,1},Defer]===Defer[{ShowSteps=False}],
+      If[let[[1,1,2,2,0]]===Simplify,
+        ToConditionString[Extract[let,{1,1,1},Defer]] <> "=" <>
+        ToConditionString[Extract[let,{1,1,2,2,1},Defer]] <> ", then",
+      ToConditionString[Extract[let,{1,1,1},Defer]] <> "=" <>
+      ToConditionString[Extract[let,{1,1,2,2},Defer]] <> ", then"],
+    ToConditionString[Extract[let,{1,1},Defer]] <> ", then"],
+  ToConditionString[let] <> ", then"]
+
+
+(* conditions is an expression comprising the conditions on a rule.  ToConditionString[conditions]
+	replace calls in the conditions on the function Rt[u,2] with Sqrt[u] and Rt[u,n] with u^(1/n), 
+	and then returns the conditions as a string formatted in Mathematica's StandardForm. *)
+ToConditionString[conditions_] :=
+  ToString[ReplaceAll[conditions,{
+    Rt[u_,2]->Sqrt[u],
+    Rt[u_,n_]->u^(1/n)
+      }],StandardForm]
+
+
+(* cond1, lets and cond2 are strings.  SpliceConditionString[cond1,lets,cond2] concatenates and
+	returns the condition and let strings along with the "if" and "let" to make a human readable
+	condition string. *)
+SpliceConditionString[cond1_,lets_,cond2_] :=
+  If[cond2==="",
+    If[lets==="",
+      If[cond1==="",
+        "",
+      "If " <> cond1],
+    If[cond1==="",
+      "Let " <> lets,
+    "If " <> cond1 <> " let " <> lets]],
+  If[lets==="",
+    If[cond1==="",
+      "If " <> cond2,
+    "If " <> cond1 <> " if " <> cond2],
+  If[cond1==="",
+    "Let " <> lets <> " if " <> cond2,
+  "If " <> cond1 <> " let " <> lets <> " if " <> cond2]]]  
+
+
+(* condStrg, lhsStrg and rhsStrg are the strings required to display the rule being applied.
+	rhs is the expression on the right side of the rule (i.e. the consequent of the rule).
+	If ShowSteps is True, ShowStep[num,condStrg,lhsStrg,rhsStrg,rhs] displays the rule being applied, 
+	sets SimplifyFlag to False to turn off further simplification, and release the hold on the rhs 
+	of the rule. *)
+ShowStep[condStrg_,lhsStrg_,rhsStrg_,rhs_] := (
+  If[IntegerQ[$StepCounter], $StepCounter++];
+  If[ShowSteps,
+    Print["Rule: ",Style[condStrg,$ConditionColor]];
+    Print["  ",Style[ToExpression["Defer["<>lhsStrg<>"]"],$RuleColor],Style[" \[LongRightArrow] ",Bold],Style[ToExpression["Defer["<>rhsStrg<>"]"],$RuleColor]];
+    Block[{SimplifyFlag=False},
+    ReleaseHold[rhs]],
+  ReleaseHold[rhs]] )
+
+ShowStep[num_,condStrg_,lhsStrg_,rhsStrg_,rhs_] := (
+  If[IntegerQ[$StepCounter], $StepCounter++];
+  If[ShowSteps,
+    Print["Rule ",num+1,": ",Style[condStrg,$ConditionColor]];
+    Print["  ",Style[ToExpression["Defer["<>lhsStrg<>"]"],$RuleColor],Style[" \[LongRightArrow] ",Bold],Style[ToExpression["Defer["<>rhsStrg<>"]"],$RuleColor]];
+    Block[{SimplifyFlag=False},
+    ReleaseHold[rhs]],
+  ReleaseHold[rhs]] )
+
+
+(* Note: Clear[func] also eliminates 2-D display of functions like Integrate. *) 
+ClearDownValues[func_Symbol] := (
+  Unprotect[func];
+  DownValues[func]={};
+  Protect[func])
+
+
+(* Note: A bug in earlier versions of Mathematica prevents setting more than 529 DownValues using a simple assignment! *)
+SetDownValues[func_Symbol,lst_List] := (
+  Unprotect[func];
+  ( If[$VersionNumber>=8,
+      DownValues[func]=lst,
+    DownValues[func]=Take[lst,Min[529,Length[lst]]];
+    Scan[Function[ReplacePart[ReplacePart[#,#[[1,1]],1],SetDelayed,0]],Drop[lst,Min[529,Length[lst]]]]] );
+  Protect[func])
 `)
 
 func resourcesRubiShowstepRoutinesMBytes() ([]byte, error) {
@@ -55538,13 +55538,15 @@ Tests`+"`"+`DownValues = {
 
 ClearAll::usage = "`+"`"+`ClearAll[s1, s2, ...]`+"`"+` clears all definitions associated with the symbols.";
 Attributes[ClearAll] = {HoldAll, Protected};
-ClearAll[syms___] := Scan[
-   (
-      Attributes[#] = {};
-      Clear[#];
-   )&,
-   {syms}
-];
+ClearAll[] := Null;
+ClearAll[sym_] := (
+   Attributes[sym] = {};
+   Clear[sym];
+);
+ClearAll[sym_, syms__] := (
+   ClearAll[sym];
+   ClearAll[syms];
+);
 Tests`+"`"+`ClearAll = {
     ESimpleExamples[
         ESameTest[{HoldAll}, Attributes[mytestsym] = {HoldAll}],
diff --git a/expreduce/resources/system.m b/expreduce/resources/system.m
index 9ac3c4c..d6c6a1f 100644
--- a/expreduce/resources/system.m
+++ b/expreduce/resources/system.m
@@ -291,13 +291,15 @@ Tests`DownValues = {
 
 ClearAll::usage = "`ClearAll[s1, s2, ...]` clears all definitions associated with the symbols.";
 Attributes[ClearAll] = {HoldAll, Protected};
-ClearAll[syms___] := Scan[
-   (
-      Attributes[#] = {};
-      Clear[#];
-   )&,
-   {syms}
-];
+ClearAll[] := Null;
+ClearAll[sym_] := (
+   Attributes[sym] = {};
+   Clear[sym];
+);
+ClearAll[sym_, syms__] := (
+   ClearAll[sym];
+   ClearAll[syms];
+);
 Tests`ClearAll = {
     ESimpleExamples[
         ESameTest[{HoldAll}, Attributes[mytestsym] = {HoldAll}],
-- 
2.43.0


From fd242fb5d4fae257e6be607666c45432f0a3efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 012/100] fix: integer powers of exact rationals and complex
 numbers are computed exactly

---
 expreduce/resources.go      | 10 +++++++---
 expreduce/resources/power.m | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index fb47566..618d89c 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -3880,6 +3880,7 @@ Power[b_, -Infinity] := Indeterminate;
 (*These take up time. Possibly convert to Upvalues.*)
 Power[Rational[a_,b_], -1] := Rational[b,a];
 Power[Rational[a_,b_], e_Integer?Positive] := Rational[a^e,b^e];
+Power[Rational[a_,b_], e_Integer?Negative] := Rational[b^(-e),a^(-e)];
 Power[-1, -1/2] := -I;
 Power[-1, 1/2] := I;
 Power[Rational[a_?Positive,b_?Positive], 1/2] := Power[a, 1/2] * Power[b, -1/2];
@@ -3890,9 +3891,12 @@ Complex[0,1]^e_Integer := Switch[Mod[e, 4],
   1, I,
   2, -1,
   3, -I];
-Complex[re_,im_]^n_Integer := If[n===-1,
-  Complex[re/(re^2+im^2), -(im/(re^2+im^2))],
-  Module[{theta = ArcTan[re,im]}, Sqrt[re^2+im^2]^n*Complex[Cos[n*theta],Sin[n*theta]]]];
+Complex[re_,im_]^n_Integer := Which[
+  n === 0, 1,
+  n === -1, Complex[re/(re^2+im^2), -(im/(re^2+im^2))],
+  n < 0, (Complex[re,im]^(-n))^(-1),
+  EvenQ[n], (#*#)&[Complex[re,im]^(n/2)],
+  True, Complex[re,im]*Complex[re,im]^(n-1)];
 Complex[re_,im_]^n_Real := Module[{theta = ArcTan[re,im]}, Sqrt[re^2+im^2]^n*Complex[Cos[n*theta],Sin[n*theta]]];
 Power[ComplexInfinity+_, -1] := 0;
 _^ComplexInfinity := Indeterminate;
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index 9a66d2e..8828080 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -58,6 +58,7 @@ Power[b_, -Infinity] := Indeterminate;
 (*These take up time. Possibly convert to Upvalues.*)
 Power[Rational[a_,b_], -1] := Rational[b,a];
 Power[Rational[a_,b_], e_Integer?Positive] := Rational[a^e,b^e];
+Power[Rational[a_,b_], e_Integer?Negative] := Rational[b^(-e),a^(-e)];
 Power[-1, -1/2] := -I;
 Power[-1, 1/2] := I;
 Power[Rational[a_?Positive,b_?Positive], 1/2] := Power[a, 1/2] * Power[b, -1/2];
@@ -68,9 +69,12 @@ Complex[0,1]^e_Integer := Switch[Mod[e, 4],
   1, I,
   2, -1,
   3, -I];
-Complex[re_,im_]^n_Integer := If[n===-1,
-  Complex[re/(re^2+im^2), -(im/(re^2+im^2))],
-  Module[{theta = ArcTan[re,im]}, Sqrt[re^2+im^2]^n*Complex[Cos[n*theta],Sin[n*theta]]]];
+Complex[re_,im_]^n_Integer := Which[
+  n === 0, 1,
+  n === -1, Complex[re/(re^2+im^2), -(im/(re^2+im^2))],
+  n < 0, (Complex[re,im]^(-n))^(-1),
+  EvenQ[n], (#*#)&[Complex[re,im]^(n/2)],
+  True, Complex[re,im]*Complex[re,im]^(n-1)];
 Complex[re_,im_]^n_Real := Module[{theta = ArcTan[re,im]}, Sqrt[re^2+im^2]^n*Complex[Cos[n*theta],Sin[n*theta]]];
 Power[ComplexInfinity+_, -1] := 0;
 _^ComplexInfinity := Indeterminate;
-- 
2.43.0


From 1d8f74e1144f1eef1b01723796e1d341a8eb8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 013/100] fix: powers with one approximate operand neither
 crash, hang nor stay unevaluated

---
 expreduce/builtin_power.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index bc15926..95735fb 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -203,6 +203,9 @@ func getPowerDefinitions() (defs []Definition) {
 			powerFlt, powerIsFlt := this.GetParts()[2].(*atoms.Flt)
 			//baseRat, baseIsRat := this.Parts[1].(*Rational)
 			powerRat, powerIsRat := this.GetParts()[2].(*atoms.Rational)
+			if baseIsFlt && powerIsRat {
+				powerFlt, powerIsFlt = atoms.RationalToFlt(powerRat)
+			}
 			// Anything raised to the 1st power is itself
 			if powerIsFlt {
 				if powerFlt.Val.Cmp(big.NewFloat(1)) == 0 {
@@ -235,21 +238,22 @@ func getPowerDefinitions() (defs []Definition) {
 			if powerPositivity == 1 && basePositivity == 0 {
 				return this.GetParts()[1]
 			}
+			if powerPositivity == -1 && basePositivity == 0 && (baseIsFlt || powerIsFlt) {
+				return atoms.NewSymbol("System`ComplexInfinity")
+			}
+			// An approximate exponent makes the base approximate.
+			if baseRat, isRat := this.GetParts()[1].(*atoms.Rational); isRat && powerIsFlt {
+				baseFlt, baseIsFlt = atoms.RationalToFlt(baseRat)
+				basePositivity = baseFlt.Val.Sign()
+			} else if baseIsInt && powerIsFlt {
+				baseFlt, baseIsFlt = atoms.IntegerToFlt(baseInt)
+				baseIsInt = false
+			}
 			if basePositivity == -1 && powerIsFlt {
 				if powerFlt.Val.Cmp(big.NewFloat(-1)) == 0 {
-					if baseIsInt {
-						return atoms.NewReal(
-							mathbigext.Pow(
-								big.NewFloat(0).SetInt(baseInt.Val),
-								powerFlt.Val,
-							),
-						)
-					}
-					if baseIsFlt {
-						return atoms.NewReal(
-							mathbigext.Pow(baseFlt.Val, powerFlt.Val),
-						)
-					}
+					return atoms.NewReal(
+						mathbigext.Pow(baseFlt.Val, powerFlt.Val),
+					)
 				}
 				// TODO(corywalker): Optimize this logic. There should be no
 				// need for Eval-ing expressions. Simply use numerics built-in
@@ -349,14 +353,6 @@ func getPowerDefinitions() (defs []Definition) {
 					),
 				)
 			}
-			if baseIsInt && powerIsFlt {
-				return atoms.NewReal(
-					mathbigext.Pow(
-						big.NewFloat(0).SetInt(baseInt.Val),
-						powerFlt.Val,
-					),
-				)
-			}
 			if baseIsFlt && powerIsFlt {
 				return atoms.NewReal(mathbigext.Pow(baseFlt.Val, powerFlt.Val))
 			}
-- 
2.43.0


From 09571082ccf5823a94276154c0079f3579f53688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 014/100] fix: N makes exact complex numbers approximate

---
 expreduce/builtin_system.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 29cfd4b..f1d3bc4 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -53,6 +53,10 @@ func exprToN(
 		toReturn, _ := atoms.RationalToFlt(asRat)
 		return toReturn
 	}
+	asComp, isComp := e.(*atoms.Complex)
+	if isComp {
+		return atoms.NewComplex(exprToN(es, asComp.Re), exprToN(es, asComp.Im))
+	}
 	_, isSym := e.(*atoms.Symbol)
 	if isSym {
 		toReturn, defined, _ := es.GetDef(
-- 
2.43.0


From 56011dd62a7a6dd890f825e2ee725aa9d42f8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 015/100] fix: Log of a unit fraction

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/power.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 618d89c..7226544 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4063,7 +4063,7 @@ Log[0] := -Infinity;
 Log[1] := 0;
 Log[E] := 1;
 Log[E^p_?NumberQ] := p;
-Log[Rational[1,b_]] := -Log[a];
+Log[Rational[1,b_]] := -Log[b];
 Attributes[Log] = {Listable,NumericFunction,Protected};
 Tests`+"`"+`Log = {
     ESimpleExamples[
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index 8828080..affbbbf 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -241,7 +241,7 @@ Log[0] := -Infinity;
 Log[1] := 0;
 Log[E] := 1;
 Log[E^p_?NumberQ] := p;
-Log[Rational[1,b_]] := -Log[a];
+Log[Rational[1,b_]] := -Log[b];
 Attributes[Log] = {Listable,NumericFunction,Protected};
 Tests`Log = {
     ESimpleExamples[
-- 
2.43.0


From 131b811d69a11be7ad7e499db11051c4f3460d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 016/100] fix: fractional powers of products do not split off
 negative numbers

---
 expreduce/resources.go      | 6 ++++--
 expreduce/resources/power.m | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 7226544..86ebbf2 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -3872,8 +3872,10 @@ Power[b_?NumberQ, -Infinity] := Which[
 Power[b_Integer, Rational[n_, d_]] := b^((n-Mod[n,d])/d) * b^(Mod[n,d]/d) /; Or[n > d, -n > d];
 Power[b_, -Infinity] := Indeterminate;
 (*Power definitions*)
-(*Distribute any kind of power for numeric values in Times:*)
-((first:(_Integer | _Real | _Rational)?((#!=-1)&)) * inner__)^pow_ := first^pow * Times[inner]^pow;
+(*Distribute any kind of power for positive numeric values in Times. The sign
+of a negative value stays inside unless the power is an integer:*)
+((first:(_Integer | _Real | _Rational)?Positive) * inner__)^pow_ := first^pow * Times[inner]^pow;
+((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^pow_ := (-first)^pow * (-Times[inner])^pow;
 (*Otherwise, only distribute integer powers*)
 (first_ * inner___)^pow_Integer := first^pow * Times[inner]^pow;
 (*Rational simplifications*)
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index affbbbf..9e637ca 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -50,8 +50,10 @@ Power[b_?NumberQ, -Infinity] := Which[
 Power[b_Integer, Rational[n_, d_]] := b^((n-Mod[n,d])/d) * b^(Mod[n,d]/d) /; Or[n > d, -n > d];
 Power[b_, -Infinity] := Indeterminate;
 (*Power definitions*)
-(*Distribute any kind of power for numeric values in Times:*)
-((first:(_Integer | _Real | _Rational)?((#!=-1)&)) * inner__)^pow_ := first^pow * Times[inner]^pow;
+(*Distribute any kind of power for positive numeric values in Times. The sign
+of a negative value stays inside unless the power is an integer:*)
+((first:(_Integer | _Real | _Rational)?Positive) * inner__)^pow_ := first^pow * Times[inner]^pow;
+((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^pow_ := (-first)^pow * (-Times[inner])^pow;
 (*Otherwise, only distribute integer powers*)
 (first_ * inner___)^pow_Integer := first^pow * Times[inner]^pow;
 (*Rational simplifications*)
-- 
2.43.0


From a9b37dcb4dc9c73e51386fe33389d105aedef883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 017/100] fix: Sin and ArcSin of sums starting with a negative
 constant terminate

---
 expreduce/resources.go     | 4 ++--
 expreduce/resources/trig.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 86ebbf2..a9255e8 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -55748,7 +55748,7 @@ func resourcesTimeM() (*asset, error) {
 var _resourcesTrigM = []byte(`Sin::usage = "`+"`"+`Sin[x]`+"`"+` is the sine of `+"`"+`x`+"`"+`.";
 Sin[0] := 0;
 Sin[-x_] := -Sin[x];
-Sin[p_Plus] := -Sin[-p] /; (MatchQ[p[[1]], -_] || p[[1]] < 0);
+Sin[p_Plus] := -Sin[-p] /; (MatchQ[p[[1]], -_] || (NumberQ[p[[1]]] && p[[1]] < 0));
 Sin[x_Integer?Negative] := -Sin[-x];
 Sin[Pi] := 0;
 Sin[n_Integer*Pi] := 0;
@@ -55815,7 +55815,7 @@ Attributes[Csc] = {Listable, NumericFunction, Protected};
 Cosh[a_]*Csch[a_]^(b_Integer?Positive)*rest___ := Coth[a]*Csch[a]^(b - 1)*rest
 Attributes[Cosh] = {Listable, NumericFunction, Protected};
 
-ArcSin[p_Plus] := -ArcSin[-p] /; (MatchQ[p[[1]], -_] || p[[1]] < 0);
+ArcSin[p_Plus] := -ArcSin[-p] /; (MatchQ[p[[1]], -_] || (NumberQ[p[[1]]] && p[[1]] < 0));
 ArcSin[-x_] := -ArcSin[x];
 ArcSin[0] := 0;
 Attributes[ArcSin] = {Listable, NumericFunction, Protected, ReadProtected};
diff --git a/expreduce/resources/trig.m b/expreduce/resources/trig.m
index 97d0d9c..59d67d0 100644
--- a/expreduce/resources/trig.m
+++ b/expreduce/resources/trig.m
@@ -1,7 +1,7 @@
 Sin::usage = "`Sin[x]` is the sine of `x`.";
 Sin[0] := 0;
 Sin[-x_] := -Sin[x];
-Sin[p_Plus] := -Sin[-p] /; (MatchQ[p[[1]], -_] || p[[1]] < 0);
+Sin[p_Plus] := -Sin[-p] /; (MatchQ[p[[1]], -_] || (NumberQ[p[[1]]] && p[[1]] < 0));
 Sin[x_Integer?Negative] := -Sin[-x];
 Sin[Pi] := 0;
 Sin[n_Integer*Pi] := 0;
@@ -68,7 +68,7 @@ Attributes[Csc] = {Listable, NumericFunction, Protected};
 Cosh[a_]*Csch[a_]^(b_Integer?Positive)*rest___ := Coth[a]*Csch[a]^(b - 1)*rest
 Attributes[Cosh] = {Listable, NumericFunction, Protected};
 
-ArcSin[p_Plus] := -ArcSin[-p] /; (MatchQ[p[[1]], -_] || p[[1]] < 0);
+ArcSin[p_Plus] := -ArcSin[-p] /; (MatchQ[p[[1]], -_] || (NumberQ[p[[1]]] && p[[1]] < 0));
 ArcSin[-x_] := -ArcSin[x];
 ArcSin[0] := 0;
 Attributes[ArcSin] = {Listable, NumericFunction, Protected, ReadProtected};
-- 
2.43.0


From c96990f5849634930e3a7268c31a633c560b4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 018/100] fix: like terms are adjacent in canonical order

---
 expreduce/atoms/order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index 12a1e42..55e4418 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -191,7 +191,7 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 		}
 		ai := len(aAsExp.GetParts()) - 1
 		bi := len(bAsExp.GetParts()) - 1
-		for ai >= 0 && bi >= 0 {
+		for ai >= 1 && bi >= 1 {
 			aPart, bPart := aAsExp.GetParts()[ai], bAsExp.GetParts()[bi]
 			ai, bi = ai-1, bi-1
 			if NumberQ(aPart) && NumberQ(bPart) {
-- 
2.43.0


From fdcb8b15f76174ce11483fc44a88414388dc3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 019/100] fix: integer powers distribute over products with a
 negative number as before

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/power.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index a9255e8..2980785 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -3875,7 +3875,7 @@ Power[b_, -Infinity] := Indeterminate;
 (*Distribute any kind of power for positive numeric values in Times. The sign
 of a negative value stays inside unless the power is an integer:*)
 ((first:(_Integer | _Real | _Rational)?Positive) * inner__)^pow_ := first^pow * Times[inner]^pow;
-((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^pow_ := (-first)^pow * (-Times[inner])^pow;
+((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^(pow:Except[_Integer]) := (-first)^pow * (-Times[inner])^pow;
 (*Otherwise, only distribute integer powers*)
 (first_ * inner___)^pow_Integer := first^pow * Times[inner]^pow;
 (*Rational simplifications*)
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index 9e637ca..70c6ff2 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -53,7 +53,7 @@ Power[b_, -Infinity] := Indeterminate;
 (*Distribute any kind of power for positive numeric values in Times. The sign
 of a negative value stays inside unless the power is an integer:*)
 ((first:(_Integer | _Real | _Rational)?Positive) * inner__)^pow_ := first^pow * Times[inner]^pow;
-((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^pow_ := (-first)^pow * (-Times[inner])^pow;
+((first:(_Integer | _Real | _Rational)?((# < -1 || (-1 < # && # < 0))&)) * inner__)^(pow:Except[_Integer]) := (-first)^pow * (-Times[inner])^pow;
 (*Otherwise, only distribute integer powers*)
 (first_ * inner___)^pow_Integer := first^pow * Times[inner]^pow;
 (*Rational simplifications*)
-- 
2.43.0


From 7f6c36d71c3531938745a618035110c6cd8b66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 020/100] fix: expressions evaluated earlier are evaluated
 afresh after definitions change

An expression was taken as evaluated for ever once its hash was recorded,
so that a stored f[1] stayed as it was after f got a definition. The mark
now includes the version of the definitions, which changes with every
change of a definition that an evaluation has looked up.
---
 expreduce/definition_map.go | 48 +++++++++++++++++++++++++++++++++++++
 expreduce/eval.go           | 36 ++++++++++++++++++++++++----
 expreduce/evalstate.go      | 10 +++++++-
 3 files changed, 89 insertions(+), 5 deletions(-)

diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index b7a70c6..efa9deb 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -1,22 +1,70 @@
 package expreduce
 
 import (
+	"sync"
+	"sync/atomic"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 	"github.com/orcaman/concurrent-map"
 )
 
 type threadSafeDefinitionMap struct {
 	internalMap cmap.ConcurrentMap
+	versions    *definitionVersions
+}
+
+// definitionVersions decides whether an expression evaluated earlier is still
+// completely evaluated. This is so until a definition that has been looked up
+// in an evaluation changes. Every such change starts a new version.
+type definitionVersions struct {
+	// Unique among all versions of all definition maps.
+	current uint64
+	// The version in which each name was last looked up: string to *uint64
+	lookedUp sync.Map
+}
+
+var lastDefinitionVersion uint64
+
+func (dv *definitionVersions) next() {
+	atomic.StoreUint64(&dv.current, atomic.AddUint64(&lastDefinitionVersion, 1))
+}
+
+func (dv *definitionVersions) lookUp(key string) {
+	seen, ok := dv.lookedUp.Load(key)
+	if !ok {
+		seen, _ = dv.lookedUp.LoadOrStore(key, new(uint64))
+	}
+	atomic.StoreUint64(seen.(*uint64), atomic.LoadUint64(&dv.current))
+}
+
+func (dv *definitionVersions) change(key string) {
+	seen, ok := dv.lookedUp.Load(key)
+	if ok && atomic.LoadUint64(seen.(*uint64)) == atomic.LoadUint64(&dv.current) {
+		dv.next()
+	}
 }
 
 func newDefinitionMap() *threadSafeDefinitionMap {
 	var dm threadSafeDefinitionMap
 	dm.internalMap = cmap.New()
+	dm.versions = &definitionVersions{}
+	dm.versions.next()
 	return &dm
 }
 
 func (dm threadSafeDefinitionMap) Set(key string, value expreduceapi.Def) {
 	dm.internalMap.Set(key, value)
+	dm.versions.change(key)
+}
+
+// lookUp records that the result of an evaluation depends on the definition.
+func (dm threadSafeDefinitionMap) lookUp(key string) {
+	dm.versions.lookUp(key)
+}
+
+// currentVersion changes whenever evaluated expressions may have become stale.
+func (dm threadSafeDefinitionMap) currentVersion() uint64 {
+	return atomic.LoadUint64(&dm.versions.current)
 }
 
 func (dm threadSafeDefinitionMap) Get(key string) (expreduceapi.Def, bool) {
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 32568e8..88ea8e5 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -53,16 +53,18 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	lastExHash := uint64(0)
 	var lastEx expreduceapi.Ex = this
 	currExHash := hashEx(this)
-	if currExHash == this.EvaledHash {
+	version := es.defined.currentVersion()
+	if evaledMark(currExHash, version) == this.EvaledHash {
 		return this
 	}
 	var currEx expreduceapi.Ex = this
 	insideDefinition := false
 	for currExHash != lastExHash {
 		lastExHash = currExHash
+		version = es.defined.currentVersion()
 		curr, isExpr := currEx.(*atoms.Expression)
 		if *checkhashes {
-			if isExpr && curr.EvaledHash != 0 && currExHash != curr.EvaledHash {
+			if isExpr && curr.EvaledHash != 0 && evaledMark(currExHash, version) != curr.EvaledHash {
 				fmt.Printf("invalid cache: %v. Used to be %v\n", curr, lastEx)
 			}
 			lastEx = currEx
@@ -74,7 +76,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				return retVal
 			}
 		}
-		if isExpr && currExHash == curr.EvaledHash {
+		if isExpr && evaledMark(currExHash, version) == curr.EvaledHash {
 			return curr
 		}
 
@@ -115,6 +117,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			headSym, headIsSym = curr.GetParts()[0].(*atoms.Symbol)
 		}
 		if headIsSym {
+			es.defined.lookUp(headSym.Name)
 			attrs = headSym.Attrs(es.GetDefinedMap())
 		}
 		if attrs.NumericFunction {
@@ -260,6 +263,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 					)
 					currEx = theRes
 					insideDefinition = true
+				} else if hasLegacyEvalFn && (attrs.HoldFirst || attrs.HoldRest || attrs.HoldAll || attrs.HoldAllComplete) {
+					// The function may have evaluated the held arguments.
+					es.lookUpSymbols(curr)
 				}
 			}
 		} else if isPureFunction {
@@ -279,11 +285,27 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	curr, isExpr := currEx.(*atoms.Expression)
 	if isExpr {
 		curr.SetNeedsEval(false)
-		curr.EvaledHash = currExHash
+		curr.EvaledHash = evaledMark(currExHash, version)
 	}
 	return currEx
 }
 
+func (es *EvalState) lookUpSymbols(e expreduceapi.Ex) {
+	if sym, isSym := e.(*atoms.Symbol); isSym {
+		es.defined.lookUp(sym.Name)
+	} else if expr, isExpr := e.(expreduceapi.ExpressionInterface); isExpr {
+		for _, part := range expr.GetParts() {
+			es.lookUpSymbols(part)
+		}
+	}
+}
+
+// Marks an expression with the given hash as completely evaluated under the
+// given version of the definitions.
+func evaledMark(hash uint64, version uint64) uint64 {
+	return hash + 0x9e3779b97f4a7c15*version
+}
+
 func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 	if this.Num.Cmp(big.NewInt(0)) == 0 && this.Den.Cmp(big.NewInt(0)) == 0 {
 		return atoms.NewSymbol("System`Indeterminate")
@@ -329,6 +351,11 @@ func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 func (es *EvalState) evalSymbol(this *atoms.Symbol) expreduceapi.Ex {
 	//definition, isdefined := es.defined[this.Name]
 	definition, isdefined, _ := es.GetDef(this.Name, this)
+	// The value replaces the symbol, so that the symbol does not stay in the
+	// result, but it can still decide whether a rule applies.
+	if !isdefined || es.inCondition() {
+		es.defined.lookUp(this.Name)
+	}
 	if isdefined {
 		// We must call Eval because, at this point, the expression has broken
 		// out of the evaluation loop.
@@ -336,6 +363,7 @@ func (es *EvalState) evalSymbol(this *atoms.Symbol) expreduceapi.Ex {
 		// To handle the case where we set a variable to itself.
 		if sym, isSym := definition.(*atoms.Symbol); isSym {
 			if sym.Name == this.Name {
+				es.defined.lookUp(this.Name)
 				return toReturn
 			}
 		}
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4a2843f..3419609 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"os/signal"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
@@ -22,7 +23,8 @@ type EvalState struct {
 	// Embedded type for logging
 	logging.CASLogger
 
-	defined                 expreduceapi.DefinitionMap
+	defined                 *threadSafeDefinitionMap
+	conditionDepth          int32
 	trace                   expreduceapi.ExpressionInterface
 	NoInit                  bool
 	timeCounter             timecounter.Group
@@ -297,6 +299,10 @@ func NewEvalState() *EvalState {
 	return &es
 }
 
+func (es *EvalState) inCondition() bool {
+	return atomic.LoadInt32(&es.conditionDepth) != 0
+}
+
 func (es *EvalState) IsDef(name string) bool {
 	_, isd := es.defined.Get(name)
 	return isd
@@ -336,7 +342,9 @@ func (es *EvalState) GetDef(
 			started = time.Now().UnixNano()
 		}
 
+		atomic.AddInt32(&es.conditionDepth, 1)
 		res, replaced := replace(lhs, def, es)
+		atomic.AddInt32(&es.conditionDepth, -1)
 
 		if es.IsProfiling() {
 			elapsed := float64(time.Now().UnixNano()-started) / 1000000000
-- 
2.43.0


From 5b2434a9a6a17193a7490a194d03b9a7de8aceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 021/100] fix: an expression that throws is not taken as
 completely evaluated

The second call of f[] := Catch[{1, Throw[a]}] gave {1, Throw[a]}, because
the body was marked as evaluated while the exception was in flight.
---
 expreduce/eval.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 88ea8e5..8d4efdf 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -271,6 +271,11 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		} else if isPureFunction {
 			currEx = evalFunction(pureFunction, es, curr.GetParts()[1:])
 		}
+		// An expression that throws is not completely evaluated: it throws again
+		// when it is evaluated again.
+		if es.HasThrown() {
+			return es.Thrown()
+		}
 		currExHash = hashEx(currEx)
 
 		// Handle end of profiling
-- 
2.43.0


From ec3dbf54a40e8d7afa419c262d7ff6f3f0d483cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 022/100] fix: the stream "stderr" is found without its index

---
 expreduce/streammanager/streammanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/streammanager/streammanager.go b/expreduce/streammanager/streammanager.go
index 57ff85d..d2ae21b 100644
--- a/expreduce/streammanager/streammanager.go
+++ b/expreduce/streammanager/streammanager.go
@@ -33,7 +33,7 @@ func (sm streamManagerImpl) fillMissingIndex(key *streamKey) {
 	if key.id == -1 {
 		if key.name == "stdout" {
 			key.id = 1
-		} else if key.name == "stdin" {
+		} else if key.name == "stderr" {
 			key.id = 2
 		}
 	}
-- 
2.43.0


From ba9a1711c0e2fef32335e8d97db8d281bb2e7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 023/100] fix: OutputStream with an index beyond 64 bits is not
 another stream

---
 expreduce/builtin_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index f1d3bc4..1a59c66 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -294,7 +294,7 @@ func parseOutputStream(outputStreamDef expreduceapi.Ex) (string, int64, bool) {
 		return "", -1, false
 	}
 	streamIndex, ok := outputStream.GetPart(2).(*atoms.Integer)
-	if !ok {
+	if !ok || !streamIndex.Val.IsInt64() {
 		return "", -1, false
 	}
 	return streamName.GetValue(), streamIndex.Val.Int64(), true
-- 
2.43.0


From 390f54cff6205591ab61da895abc00715128703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 024/100] fix: merging time counters adds their counts

---
 expreduce/timecounter/timecounter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 78cc356..98eb67c 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -28,7 +28,8 @@ func (tc *timeCounter) addTime(key string, elapsed float64) {
 
 func (tc *timeCounter) update(other *timeCounter) {
 	for k, v := range other.times {
-		tc.addTime(k, v)
+		tc.times[k] += v
+		tc.counts[k] += other.counts[k]
 	}
 }
 
-- 
2.43.0


From 6b70e1b0de051c4fbe97c1d14d7cd78e95aad155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 025/100] fix: RGBColor does not reset the opacity

---
 expreduce/graphics/graphics.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/expreduce/graphics/graphics.go b/expreduce/graphics/graphics.go
index cc71e02..886e0df 100644
--- a/expreduce/graphics/graphics.go
+++ b/expreduce/graphics/graphics.go
@@ -81,7 +81,6 @@ func setColor(colorExpr *atoms.Expression, color *drawing.Color) error {
 			color.B = intVal
 		}
 	}
-	color.A = 255
 	return nil
 }
 
-- 
2.43.0


From e44693f73464e49ec9a221b1ad9471998c3508ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 026/100] fix: named patterns, conditions, tests and
 alternatives backtrack and leave no bindings behind

---
 expreduce/matcher/blank.go     |  11 +-
 expreduce/matcher/matchq.go    | 233 +++++++++++++++++++--------------
 expreduce/matcher/pdmanager.go |  30 +++++
 3 files changed, 165 insertions(+), 109 deletions(-)

diff --git a/expreduce/matcher/blank.go b/expreduce/matcher/blank.go
index e98e3b5..66dac8d 100644
--- a/expreduce/matcher/blank.go
+++ b/expreduce/matcher/blank.go
@@ -81,15 +81,8 @@ func isBlankTypeCapturing(
 				if sAsSymbolOk {
 					// TODO: we should handle matches with BlankSequences
 					// differently here.
-					toMatch, ispd := pm.patternDefined[sAsSymbol.Name]
-					if !ispd {
-						toMatch = target
-						pm.lazyMakeMap()
-						pm.patternDefined[sAsSymbol.Name] = target
-					}
-					if !atoms.IsSameQ(toMatch, target) {
-						return false, pm
-					}
+					newPm, ok := pm.with(sAsSymbol.Name, target)
+					return ok, newPm
 				}
 				return true, pm
 			}
diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index be537ce..e4df160 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -31,6 +31,83 @@ func (dmi *dummyMatchIter) Next() (bool, *PDManager, bool) {
 	return true, dmi.pm, true
 }
 
+// filterMatchIter passes on the matches that accept accepts, as it returns them.
+type filterMatchIter struct {
+	mi     MatchIter
+	accept func(*PDManager) (*PDManager, bool)
+}
+
+func (fmi *filterMatchIter) Next() (bool, *PDManager, bool) {
+	matchq, pm, done := fmi.mi.Next()
+	if matchq {
+		pm, matchq = fmi.accept(pm)
+	}
+	return matchq, pm, done
+}
+
+// alternativesMatchIter yields the matches of each alternative in turn, those
+// with the same bindings once.
+type alternativesMatchIter struct {
+	a     expreduceapi.Ex
+	alts  []expreduceapi.Ex
+	pm    *PDManager
+	es    expreduceapi.EvalStateInterface
+	mi    MatchIter
+	cont  bool
+	found []*PDManager
+}
+
+func (ami *alternativesMatchIter) Next() (bool, *PDManager, bool) {
+	for {
+		for ami.cont {
+			matchq, newPD, done := ami.mi.Next()
+			ami.cont = !done
+			if matchq && ami.isNew(newPD) {
+				ami.found = append(ami.found, newPD)
+				// Without new bindings, no other match can differ.
+				return true, newPD, newPD.same(ami.pm)
+			}
+		}
+		if len(ami.alts) == 0 {
+			return false, ami.pm, true
+		}
+		ami.mi, ami.cont = NewMatchIter(ami.a, ami.alts[0], ami.pm, ami.es)
+		ami.alts = ami.alts[1:]
+	}
+}
+
+func (ami *alternativesMatchIter) isNew(pm *PDManager) bool {
+	for _, other := range ami.found {
+		if pm.same(other) {
+			return false
+		}
+	}
+	return true
+}
+
+func isTrue(e expreduceapi.Ex) bool {
+	sym, isSym := e.(*atoms.Symbol)
+	return isSym && sym.Name == "System`True"
+}
+
+func passesTest(
+	a expreduceapi.Ex,
+	test expreduceapi.Ex,
+	es expreduceapi.EvalStateInterface,
+) bool {
+	// Some Q functions are very simple and occur very often. For some of these,
+	// skip the Eval() call and return the boolean directly.
+	testSym, testIsSym := test.(*atoms.Symbol)
+	if testIsSym && testSym.Name == "System`NumberQ" {
+		return atoms.NumberQ(a)
+	}
+	// I used to create a NewEvalState here, but I have evidence that the same
+	// evalstate is used:
+	// MatchQ[1, a_?((mytestval = 999; NumberQ[#]) &)] // Timing
+	//tmpEs := NewEvalStateNoLog(true)
+	return isTrue(es.Eval(atoms.NewExpression([]expreduceapi.Ex{test, a})))
+}
+
 var realSym = atoms.NewSymbol("System`Real")
 var intSym = atoms.NewSymbol("System`Integer")
 var strSym = atoms.NewSymbol("System`String")
@@ -54,109 +131,73 @@ func NewMatchIter(
 	}
 	if patternHead == "System`Except" {
 		except := patExpr
-		if len(except.GetParts()) == 2 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
-			if !matchq {
-				return &dummyMatchIter{pm}, true
+		if len(except.GetParts()) == 2 || len(except.GetParts()) == 3 {
+			if matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es); matchq {
+				return nil, false
 			}
-			return nil, false
-		} else if len(except.GetParts()) == 3 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
-			if !matchq {
-				matchqb, newPm := IsMatchQ(a, except.GetParts()[2], pm, es)
-				if matchqb {
-					return &dummyMatchIter{newPm}, true
-				}
+			if len(except.GetParts()) == 2 {
+				return &dummyMatchIter{pm}, true
 			}
-			return nil, false
+			return NewMatchIter(a, except.GetParts()[2], pm, es)
 		}
 	} else if patternHead == "System`Alternatives" {
-		alts := patExpr
-		for _, alt := range alts.GetParts()[1:] {
-			// I recently changed the third argument from EmptyPD() to pm
-			// because MatchQ[{a, b}, {a_, k | a_}] was returning True, causing
-			// problems in some of the boolean patterns. Might need to make
-			// similar changes to the other pattern clauses.
-			matchq, newPD := IsMatchQ(a, alt, pm, es)
-			if matchq {
-				return &dummyMatchIter{newPD}, true
-			}
-		}
-		return nil, false
+		return &alternativesMatchIter{
+			a: a, alts: patExpr.GetParts()[1:], pm: pm, es: es,
+		}, true
 	} else if patternHead == "System`PatternTest" {
 		patternTest := patExpr
 		if len(patternTest.GetParts()) == 3 {
-			matchq, newPD := IsMatchQ(a, patternTest.GetParts()[1], pm, es)
-			if matchq {
-				// Some Q functions are very simple and occur very often. For
-				// some of these, skip the Eval() call and return the boolean
-				// directly.
-				testSym, testIsSym := patternTest.GetParts()[2].(*atoms.Symbol)
-				if testIsSym {
-					var qFunction (func(expreduceapi.Ex) bool)
-					if testSym.Name == "System`NumberQ" {
-						qFunction = atoms.NumberQ
-					}
-					if qFunction != nil {
-						if qFunction(a) {
-							return &dummyMatchIter{newPD}, true
-						}
-						return nil, false
-					}
-				}
-				// I used to create a NewEvalState here, but I have evidence
-				// that the same evalstate is used:
-				// MatchQ[1, a_?((mytestval = 999; NumberQ[#]) &)] // Timing
-				//tmpEs := NewEvalStateNoLog(true)
-				res :=
-
-					es.Eval((atoms.NewExpression([]expreduceapi.Ex{
-						patternTest.GetParts()[2],
-						a,
-					})))
-
-				resSymbol, resIsSymbol := res.(*atoms.Symbol)
-				if resIsSymbol {
-					if resSymbol.Name == "System`True" {
-						return &dummyMatchIter{newPD}, true
-					}
-				}
+			tested, passes := false, false
+			mi, cont := NewMatchIter(a, patternTest.GetParts()[1], pm, es)
+			if !cont {
+				return nil, false
 			}
-			return nil, false
+			return &filterMatchIter{mi, func(newPD *PDManager) (*PDManager, bool) {
+				// The test sees all of the expression, however it matched.
+				if !tested {
+					tested = true
+					passes = passesTest(a, patternTest.GetParts()[2], es)
+				}
+				return newPD, passes
+			}}, true
 		}
 	} else if patternHead == "System`Condition" {
 		condition := patExpr
 		if len(condition.GetParts()) == 3 {
 			mi, cont := NewMatchIter(a, condition.GetParts()[1], pm, es)
-			for cont {
-				matchq, newPD, done := mi.Next()
-				cont = !done
-				if matchq {
-					//tmpEs := NewEvalStateNoLog(true)
-					res := condition.GetParts()[2].DeepCopy()
-					res = es.Eval(ReplacePD(res, es, newPD))
-					resSymbol, resIsSymbol := res.(*atoms.Symbol)
-					if resIsSymbol {
-						if resSymbol.Name == "System`True" {
-							return &dummyMatchIter{newPD}, true
-						}
-					}
-				}
+			if !cont {
+				return nil, false
 			}
+			return &filterMatchIter{mi, func(newPD *PDManager) (*PDManager, bool) {
+				//tmpEs := NewEvalStateNoLog(true)
+				res := condition.GetParts()[2].DeepCopy()
+				return newPD, isTrue(es.Eval(ReplacePD(res, es, newPD)))
+			}}, true
 		}
 	} else if patternHead == "System`Optional" {
 		optional := patExpr
 		if len(optional.GetParts()) == 2 {
-			matchq, newPD := IsMatchQ(a, optional.GetParts()[1], pm, es)
-			if matchq {
-				return &dummyMatchIter{newPD}, true
-			}
+			return NewMatchIter(a, optional.GetParts()[1], pm, es)
 		}
 	} else if patternHead == "System`HoldPattern" {
 		holdPattern := patExpr
 		if len(holdPattern.GetParts()) == 2 {
 			return NewMatchIter(a, holdPattern.GetParts()[1], pm, es)
 		}
+	} else if patternHead == "System`Pattern" && !isBlankTypeOnly(b) {
+		// A named pattern such as x:f[_]
+		if len(patExpr.GetParts()) == 3 {
+			name, nameIsSym := patExpr.GetParts()[1].(*atoms.Symbol)
+			if nameIsSym {
+				mi, cont := NewMatchIter(a, patExpr.GetParts()[2], pm, es)
+				if !cont {
+					return nil, false
+				}
+				return &filterMatchIter{mi, func(newPD *PDManager) (*PDManager, bool) {
+					return newPD.with(name.Name, a)
+				}}, true
+			}
+		}
 	}
 
 	// Continue normally
@@ -223,20 +264,12 @@ func NewMatchIter(
 
 	// Handle special case for matching Rational[a_Integer, b_Integer]
 	if aIsRational && bIsExpression {
-		matchq, newPm := isMatchQRational(aRational, bExpression, pm, es)
-		if matchq {
-			return &dummyMatchIter{newPm}, true
-		}
-		return nil, false
+		return newRationalMatchIter(aRational, bExpression, pm, es)
 	}
 
 	// Handle special case for matching Complex[a, b]
 	if aIsComplex && bIsExpression {
-		matchq, newPm := isMatchQComplex(aComplex, bExpression, pm, es)
-		if matchq {
-			return &dummyMatchIter{newPm}, true
-		}
-		return nil, false
+		return newComplexMatchIter(aComplex, bExpression, pm, es)
 	}
 
 	canAssumeHead := false
@@ -287,7 +320,7 @@ func NewMatchIter(
 		if aIsFlt || aIsInteger || aIsString || aIsSymbol || aIsRational ||
 			aIsComplex {
 			if atoms.IsSameQ(a, b) {
-				return &dummyMatchIter{nil}, true
+				return &dummyMatchIter{pm}, true
 			}
 			return nil, false
 		} else if !(aIsExpression && bIsExpression) {
@@ -325,13 +358,13 @@ func NewMatchIter(
 	return nomi, true
 }
 
-func isMatchQRational(
+func newRationalMatchIter(
 	a *atoms.Rational,
 	b expreduceapi.ExpressionInterface,
 	pm *PDManager,
 	es expreduceapi.EvalStateInterface,
-) (bool, *PDManager) {
-	return IsMatchQ(
+) (MatchIter, bool) {
+	return NewMatchIter(
 		atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`Rational"),
 			atoms.NewInteger(a.Num),
@@ -341,13 +374,13 @@ func isMatchQRational(
 		b, pm, es)
 }
 
-func isMatchQComplex(
+func newComplexMatchIter(
 	a *atoms.Complex,
 	b expreduceapi.ExpressionInterface,
 	pm *PDManager,
 	es expreduceapi.EvalStateInterface,
-) (bool, *PDManager) {
-	return IsMatchQ(
+) (MatchIter, bool) {
+	return NewMatchIter(
 		atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`Complex"),
 			a.Re,
@@ -436,10 +469,10 @@ func (ami *assignedMatchIter) next() bool {
 		}
 		for i := len(toAddReversed) - 1; i >= 0; i-- {
 			updatedPm := p.pm
-			if toAddReversed[i] != nil && toAddReversed[i].len() > 0 {
-				if len(toAddReversed) > 1 {
-					updatedPm = copyPD(p.pm)
-				}
+			if len(toAddReversed) > 1 {
+				updatedPm = copyPD(p.pm)
+			}
+			if toAddReversed[i] != p.pm && toAddReversed[i].len() > 0 {
 				updatedPm.update(toAddReversed[i])
 			}
 			ami.stack = append(ami.stack, assignedIterState{
diff --git a/expreduce/matcher/pdmanager.go b/expreduce/matcher/pdmanager.go
index a5086e3..fcd24e4 100644
--- a/expreduce/matcher/pdmanager.go
+++ b/expreduce/matcher/pdmanager.go
@@ -40,6 +40,36 @@ func (pm *PDManager) Define(name string, val expreduceapi.Ex) {
 	pm.patternDefined[name] = val
 }
 
+// with returns the bindings together with another one, unless it contradicts
+// them. It leaves pm as it is.
+func (pm *PDManager) with(
+	name string,
+	val expreduceapi.Ex,
+) (*PDManager, bool) {
+	if defined, ispd := pm.patternDefined[name]; ispd {
+		return pm, atoms.IsSameQ(defined, val)
+	}
+	res := copyPD(pm)
+	res.Define(name, val)
+	return res, true
+}
+
+func (pm *PDManager) same(other *PDManager) bool {
+	if pm == other {
+		return true
+	}
+	if pm.len() != other.len() {
+		return false
+	}
+	for k, v := range pm.patternDefined {
+		otherV, ok := other.patternDefined[k]
+		if !ok || !atoms.IsSameQ(v, otherV) {
+			return false
+		}
+	}
+	return true
+}
+
 func (pm *PDManager) update(toAdd *PDManager) {
 	if (*toAdd).len() > 0 {
 		pm.lazyMakeMap()
-- 
2.43.0


From 96efcd49c80c2f63d096e65c9f1a023e47cf285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 027/100] fix: a sequence of one argument is bound as that
 argument; compound blank heads in Flat calls match one argument; alternatives
 without bindings do not end the search

---
 expreduce/matcher/matchq.go     |  3 +--
 expreduce/matcher/parse_form.go | 12 +++++-------
 expreduce/matcher/pdmanager.go  |  3 ++-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index e4df160..d4d98c7 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -64,8 +64,7 @@ func (ami *alternativesMatchIter) Next() (bool, *PDManager, bool) {
 			ami.cont = !done
 			if matchq && ami.isNew(newPD) {
 				ami.found = append(ami.found, newPD)
-				// Without new bindings, no other match can differ.
-				return true, newPD, newPD.same(ami.pm)
+				return true, newPD, false
 			}
 		}
 		if len(ami.alts) == 0 {
diff --git a/expreduce/matcher/parse_form.go b/expreduce/matcher/parse_form.go
index baf14e6..cc9c609 100644
--- a/expreduce/matcher/parse_form.go
+++ b/expreduce/matcher/parse_form.go
@@ -117,14 +117,12 @@ func parseForm(
 		endI = maxInt
 		if len(blank.GetParts()) >= 2 {
 			sym, isSym := blank.GetParts()[1].(*atoms.Symbol)
-			if isSym {
+			if isSym && sym.Name == sequenceHead {
 				// If we have a pattern like k__Plus
-				if sym.Name == sequenceHead {
-					form = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Blank")})
-					startI = 2
-				} else {
-					endI = 1
-				}
+				form = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Blank")})
+				startI = 2
+			} else {
+				endI = 1
 			}
 		}
 	} else if isBlank {
diff --git a/expreduce/matcher/pdmanager.go b/expreduce/matcher/pdmanager.go
index fcd24e4..956c4c1 100644
--- a/expreduce/matcher/pdmanager.go
+++ b/expreduce/matcher/pdmanager.go
@@ -159,7 +159,8 @@ func defineSequence(
 	if lhs.hasPat {
 		sequenceHeadSym := atoms.NewSymbol(sequenceHead)
 		oneIdent := sequenceHeadSym.Attrs(es.GetDefinedMap()).OneIdentity
-		if len(sequence) == 1 && (lhs.isBlank || oneIdent || lhs.isOptional) {
+		if len(sequence) == 1 &&
+			(!lhs.isImpliedBs || oneIdent || lhs.isOptional) {
 			attemptDefine = sequence[0]
 		} else if len(sequence) == 0 && lhs.isOptional && lhs.defaultExpr != nil {
 			attemptDefine = lhs.defaultExpr
-- 
2.43.0


From e4c2e554dd2f9988ea957ee4ed00d3bbc9e3166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 028/100] fix: ReplaceAll applies the first matching rule to
 each outermost part and honours conditions; function parameters are
 substituted simultaneously and inside inner functions

---
 expreduce/builtin_flowcontrol.go  |   2 +-
 expreduce/builtin_replacement.go  |  16 +--
 expreduce/eval.go                 | 157 +++++++++++++-----------------
 expreduce/replace.go              | 115 ++++++++++++++--------
 expreduce/resources.go            |   4 +-
 expreduce/resources/replacement.m |   4 +-
 6 files changed, 143 insertions(+), 155 deletions(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 43c759d..dc10b05 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -46,7 +46,7 @@ func applyWithFn(
 			setEx.GetParts()[2],
 		}))
 	}
-	return rulesReplaceAll(e.GetParts()[2], rules, es), true
+	return replaceAll(e.GetParts()[2], rules, es), true
 }
 
 func isBreak(e expreduceapi.Ex) bool {
diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index 042f127..b47bbbe 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"github.com/corywalker/expreduce/expreduce/atoms"
-	"github.com/corywalker/expreduce/expreduce/matcher"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -39,19 +38,6 @@ func getValidRules(
 	return
 }
 
-func rulesReplaceAll(
-	e expreduceapi.Ex,
-	rules []expreduceapi.ExpressionInterface,
-	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
-	// TODO: fix the case where ReplaceAll[{x},{x->y,y->z}] returns incorrectly.
-	toReturn := e
-	for _, rule := range rules {
-		toReturn = replaceAll(toReturn, rule, es, matcher.EmptyPD(), "")
-	}
-	return toReturn
-}
-
 func rulesReplace(
 	e expreduceapi.Ex,
 	rules []expreduceapi.ExpressionInterface,
@@ -126,7 +112,7 @@ func getReplacementDefinitions() (defs []Definition) {
 			}
 
 			rules := getValidRules(this.GetParts()[2])
-			return rulesReplaceAll(this.GetParts()[1], rules, es)
+			return replaceAll(this.GetParts()[1], rules, es)
 		},
 	})
 	defs = append(defs, Definition{
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 8d4efdf..9a6d63f 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -8,7 +8,6 @@ import (
 	"time"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
-	"github.com/corywalker/expreduce/expreduce/matcher"
 	"github.com/corywalker/expreduce/expreduce/timecounter"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -269,7 +268,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				}
 			}
 		} else if isPureFunction {
-			currEx = evalFunction(pureFunction, es, curr.GetParts()[1:])
+			if res, ok := evalFunction(pureFunction, curr.GetParts()[1:]); ok {
+				currEx = res
+			}
 		}
 		// An expression that throws is not completely evaluated: it throws again
 		// when it is evaluated again.
@@ -446,104 +447,76 @@ func mergeSequences(
 	return res
 }
 
-func evalFunction(
-	this *atoms.Expression,
-	es expreduceapi.EvalStateInterface,
-	args []expreduceapi.Ex,
+// substituteParams replaces the parameters of a function by its arguments in
+// its body, except where an inner function has parameters of the same name.
+func substituteParams(
+	body expreduceapi.Ex,
+	params map[string]expreduceapi.Ex,
+	slots []expreduceapi.Ex,
 ) expreduceapi.Ex {
-	if len(this.GetParts()) == 2 {
-		toReturn := this.GetParts()[1].DeepCopy()
-		for i, arg := range args {
-			toReturn = replaceAll(toReturn,
-				atoms.NewExpression([]expreduceapi.Ex{
-					atoms.NewSymbol("System`Rule"),
-					atoms.NewExpression([]expreduceapi.Ex{
-						atoms.NewSymbol("System`Slot"),
-						atoms.NewInteger(big.NewInt(int64(i + 1))),
-					}),
-
-					arg,
-				}),
-
-				es, matcher.EmptyPD(), "System`Function")
-		}
-		return toReturn
-	} else if len(this.GetParts()) == 3 {
-		repSym, ok := this.GetParts()[1].(*atoms.Symbol)
-		if !ok {
-			return this
+	if sym, isSym := body.(*atoms.Symbol); isSym {
+		if arg, isParam := params[sym.Name]; isParam {
+			return arg
 		}
-		toReturn := this.GetParts()[2].DeepCopy()
-		toReturn = replaceAll(toReturn,
-			atoms.NewExpression([]expreduceapi.Ex{
-				atoms.NewSymbol("System`Rule"),
-				repSym,
-				args[0],
-			}),
-
-			es, matcher.EmptyPD(), "System`Function")
-		return toReturn
+		return body
 	}
-	return this
-}
-
-func exprReplaceAll(
-	this expreduceapi.ExpressionInterface,
-	r expreduceapi.ExpressionInterface,
-	stopAtHead string,
-	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
-	es.Debugf(
-		"In Expression.ReplaceAll. First trying IsMatchQ(this, r.Parts[1], es).",
-	)
-	es.Debugf("Rule r is: %s", r)
-
-	matchq, matches := matcher.IsMatchQ(
-		this,
-		r.GetParts()[1],
-		matcher.EmptyPD(),
-		es,
-	)
-	if matchq {
-		es.Debugf("After MatchQ, rule is: %s", r)
-		es.Debugf("MatchQ succeeded. Returning r.Parts[2]: %s", r.GetParts()[2])
-		return matcher.ReplacePD(r.GetParts()[2].DeepCopy(), es, matches)
+	expr, isExpr := body.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return body
 	}
-
-	thisSym, thisSymOk := this.GetParts()[0].(*atoms.Symbol)
-	lhsExpr, lhsExprOk := r.GetParts()[1].(*atoms.Expression)
-	if lhsExprOk {
-		otherSym, otherSymOk := lhsExpr.GetParts()[0].(*atoms.Symbol)
-		if thisSymOk && otherSymOk {
-			if thisSym.Name == otherSym.Name {
-				attrs := thisSym.Attrs(es.GetDefinedMap())
-				if attrs.Flat {
-					return flatReplace(
-						this,
-						lhsExpr,
-						r.GetParts()[2],
-						attrs.Orderless,
-						es,
-					)
+	if slot, isSlot := atoms.HeadAssertion(expr, "System`Slot"); isSlot {
+		if len(slot.GetParts()) == 2 {
+			n, isInt := slot.GetParts()[1].(*atoms.Integer)
+			if isInt && n.Val.IsInt64() {
+				i := n.Val.Int64()
+				if 1 <= i && i <= int64(len(slots)) {
+					return slots[i-1]
 				}
 			}
 		}
 	}
-
-	maybeChanged := atoms.NewEmptyExpression()
-	for i := range this.GetParts() {
-		maybeChanged.AppendEx(
-			replaceAll(
-				this.GetParts()[i],
-				r,
-				es,
-				matcher.EmptyPD(),
-				stopAtHead,
-			),
-		)
+	inner, isFunction := atoms.HeadAssertion(expr, "System`Function")
+	if isFunction && len(inner.GetParts()) == 2 {
+		slots = nil
 	}
-	if hashEx(maybeChanged) != hashEx(this) {
-		return maybeChanged
+	if isFunction && len(inner.GetParts()) >= 3 {
+		if innerParam, isSym := inner.GetParts()[1].(*atoms.Symbol); isSym {
+			if _, hidden := params[innerParam.Name]; hidden {
+				return body
+			}
+		}
 	}
-	return this
+	res := atoms.NewEmptyExpression()
+	changed := false
+	for _, part := range expr.GetParts() {
+		newPart := substituteParams(part, params, slots)
+		if newPart != part {
+			changed = true
+		}
+		res.AppendEx(newPart)
+	}
+	if !changed {
+		return body
+	}
+	return res
+}
+
+func evalFunction(
+	this *atoms.Expression,
+	args []expreduceapi.Ex,
+) (expreduceapi.Ex, bool) {
+	if len(this.GetParts()) == 2 {
+		return substituteParams(this.GetParts()[1], nil, args), true
+	} else if len(this.GetParts()) == 3 {
+		repSym, ok := this.GetParts()[1].(*atoms.Symbol)
+		if !ok || len(args) == 0 {
+			return nil, false
+		}
+		return substituteParams(
+			this.GetParts()[2],
+			map[string]expreduceapi.Ex{repSym.Name: args[0]},
+			nil,
+		), true
+	}
+	return nil, false
 }
diff --git a/expreduce/replace.go b/expreduce/replace.go
index 09a709b..a30cc63 100644
--- a/expreduce/replace.go
+++ b/expreduce/replace.go
@@ -13,7 +13,7 @@ func flatReplace(
 	rhs expreduceapi.Ex,
 	orderless bool,
 	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
+) (expreduceapi.Ex, bool) {
 	looseLHS := atoms.NewExpression([]expreduceapi.Ex{})
 	looseLHS.AppendEx(lhs.GetParts()[0])
 	if !orderless {
@@ -33,61 +33,90 @@ func flatReplace(
 			[]expreduceapi.Ex{atoms.NewSymbol("System`BlankNullSequence")},
 		),
 	}))
-	pm := matcher.EmptyPD()
-	matchq, newPd := matcher.IsMatchQ(e, looseLHS, pm, es)
-	if matchq {
-		var tmpEx expreduceapi.Ex
-		if orderless {
-			tmpEx = matcher.ReplacePD(atoms.NewExpression([]expreduceapi.Ex{
-				e.GetParts()[0],
-				rhs,
-				atoms.NewSymbol("System`Expreduce`end"),
-			}),
-
-				es, newPd)
-		} else {
-			tmpEx = matcher.ReplacePD(atoms.NewExpression([]expreduceapi.Ex{
-				e.GetParts()[0],
-				atoms.NewSymbol("System`Expreduce`start"),
-				rhs,
-				atoms.NewSymbol("System`Expreduce`end"),
-			}),
-
-				es, newPd)
-		}
-		return tmpEx
+	rest := []expreduceapi.Ex{atoms.NewSymbol("System`Expreduce`end")}
+	first := []expreduceapi.Ex{e.GetParts()[0]}
+	if !orderless {
+		first = append(first, atoms.NewSymbol("System`Expreduce`start"))
 	}
-	return e
+	wrap := func(rhs expreduceapi.Ex) expreduceapi.Ex {
+		parts := append([]expreduceapi.Ex{}, first...)
+		parts = append(parts, rhs)
+		return atoms.NewExpression(append(parts, rest...))
+	}
+	var looseRHS expreduceapi.Ex
+	if cond, isCond := atoms.HeadAssertion(rhs, "System`Condition"); isCond &&
+		len(cond.GetParts()) == 3 {
+		looseRHS = atoms.NewExpression([]expreduceapi.Ex{
+			cond.GetParts()[0], wrap(cond.GetParts()[1]), cond.GetParts()[2],
+		})
+	} else {
+		looseRHS = wrap(rhs)
+	}
+	return replace(e, atoms.NewExpression([]expreduceapi.Ex{
+		atoms.NewSymbol("System`Rule"), looseLHS, looseRHS,
+	}), es)
 }
 
-// The goal of this function is to replace all matching expressions with the
-// RHS upon successful matches. We will NOT substitute any named patterns in
-// the RHS. We will merely make sure that the named patterns are added to pm.
-// Final named pattern substitution will occur at the last possible time.
+// replaceAll replaces all outermost matching parts of an expression. Every part
+// is replaced by the first rule that matches it.
 func replaceAll(
 	this expreduceapi.Ex,
-	r expreduceapi.ExpressionInterface,
+	rules []expreduceapi.ExpressionInterface,
 	es expreduceapi.EvalStateInterface,
-	pm *matcher.PDManager,
-	stopAtHead string,
 ) expreduceapi.Ex {
-	asExpression, isExpression := this.(expreduceapi.ExpressionInterface)
-
-	if isExpression {
-		_, isRestrictedHead := atoms.HeadAssertion(this, stopAtHead)
-		if isRestrictedHead {
-			return this
+	expr, isExpr := this.(expreduceapi.ExpressionInterface)
+	for _, r := range rules {
+		if res, replaced := replace(this, r, es); replaced {
+			return res
+		}
+		if !isExpr {
+			continue
+		}
+		if res, replaced := replaceInFlat(expr, r, es); replaced {
+			return res
 		}
-		// Continue recursion
-		es.Debugf("ReplaceAll(%v, %v, es, %v)", this, r, pm)
-		return exprReplaceAll(asExpression, r, stopAtHead, es)
 	}
-	if res, matches := matcher.IsMatchQ(this, r.GetParts()[1], pm, es); res {
-		return matcher.ReplacePD(r.GetParts()[2], es, matches)
+	if !isExpr {
+		return this
+	}
+	maybeChanged := atoms.NewEmptyExpression()
+	changed := false
+	for _, part := range expr.GetParts() {
+		newPart := replaceAll(part, rules, es)
+		if newPart != part {
+			changed = true
+		}
+		maybeChanged.AppendEx(newPart)
+	}
+	if changed && hashEx(maybeChanged) != hashEx(this) {
+		return maybeChanged
 	}
 	return this
 }
 
+// replaceInFlat tries a rule for calls of a Flat function on some of the
+// arguments of such a call.
+func replaceInFlat(
+	e expreduceapi.ExpressionInterface,
+	r expreduceapi.ExpressionInterface,
+	es expreduceapi.EvalStateInterface,
+) (expreduceapi.Ex, bool) {
+	lhs, lhsIsExpr := r.GetParts()[1].(expreduceapi.ExpressionInterface)
+	if !lhsIsExpr {
+		return e, false
+	}
+	head, headIsSym := e.GetParts()[0].(*atoms.Symbol)
+	lhsHead, lhsHeadIsSym := lhs.GetParts()[0].(*atoms.Symbol)
+	if !headIsSym || !lhsHeadIsSym || head.Name != lhsHead.Name {
+		return e, false
+	}
+	attrs := head.Attrs(es.GetDefinedMap())
+	if !attrs.Flat {
+		return e, false
+	}
+	return flatReplace(e, lhs, r.GetParts()[2], attrs.Orderless, es)
+}
+
 func tryCondWithMatches(
 	rhs expreduceapi.Ex,
 	matches *matcher.PDManager,
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 2980785..bfe0706 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4809,7 +4809,7 @@ func resourcesRandomM() (*asset, error) {
 
 var _resourcesReplacementM = []byte(`ReplaceAll::usage = "`+"`"+`expr /. rule`+"`"+` replaces all occurences of the LHS of `+"`"+`rule`+"`"+` with the RHS of `+"`"+`rule`+"`"+` in `+"`"+`expr`+"`"+`.
 
-`+"`"+`expr /. {r1, r2, ...}`+"`"+` performes the same operation as `+"`"+`expr /. rule`+"`"+`, but evaluating each `+"`"+`r_n`+"`"+` in sequence.";
+`+"`"+`expr /. {r1, r2, ...}`+"`"+` performes the same operation as `+"`"+`expr /. rule`+"`"+`, but replaces each part by the first `+"`"+`r_n`+"`"+` that matches it.";
 Attributes[ReplaceAll] = {Protected};
 Tests`+"`"+`ReplaceAll = {
     ESimpleExamples[
@@ -4973,7 +4973,7 @@ Tests`+"`"+`Replace = {
 
 ReplaceRepeated::usage = "`+"`"+`expr //. rule`+"`"+` replaces all occurences of the LHS of `+"`"+`rule`+"`"+` with the RHS of `+"`"+`rule`+"`"+` in `+"`"+`expr`+"`"+` repeatedly until the expression stabilizes.
 
-`+"`"+`expr //. {r1, r2, ...}`+"`"+` performes the same operation as `+"`"+`expr //. rule`+"`"+`, but evaluating each `+"`"+`r_n`+"`"+` in sequence.";
+`+"`"+`expr //. {r1, r2, ...}`+"`"+` performes the same operation as `+"`"+`expr //. rule`+"`"+`, but replaces each part by the first `+"`"+`r_n`+"`"+` that matches it.";
 Attributes[ReplaceRepeated] = {Protected};
 Tests`+"`"+`ReplaceRepeated = {
     ESimpleExamples[
diff --git a/expreduce/resources/replacement.m b/expreduce/resources/replacement.m
index 683c059..0bc3067 100644
--- a/expreduce/resources/replacement.m
+++ b/expreduce/resources/replacement.m
@@ -1,6 +1,6 @@
 ReplaceAll::usage = "`expr /. rule` replaces all occurences of the LHS of `rule` with the RHS of `rule` in `expr`.
 
-`expr /. {r1, r2, ...}` performes the same operation as `expr /. rule`, but evaluating each `r_n` in sequence.";
+`expr /. {r1, r2, ...}` performes the same operation as `expr /. rule`, but replaces each part by the first `r_n` that matches it.";
 Attributes[ReplaceAll] = {Protected};
 Tests`ReplaceAll = {
     ESimpleExamples[
@@ -164,7 +164,7 @@ Tests`Replace = {
 
 ReplaceRepeated::usage = "`expr //. rule` replaces all occurences of the LHS of `rule` with the RHS of `rule` in `expr` repeatedly until the expression stabilizes.
 
-`expr //. {r1, r2, ...}` performes the same operation as `expr //. rule`, but evaluating each `r_n` in sequence.";
+`expr //. {r1, r2, ...}` performes the same operation as `expr //. rule`, but replaces each part by the first `r_n` that matches it.";
 Attributes[ReplaceRepeated] = {Protected};
 Tests`ReplaceRepeated = {
     ESimpleExamples[
-- 
2.43.0


From 6c70e3856240fca1b015e70d2ed9d786c32ea1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 029/100] fix: ReplacePart rules keep the position they matched

---
 expreduce/builtin_replacement.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index b47bbbe..185b289 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -63,26 +63,27 @@ func replaceParts(
 		return e
 	}
 	res := atoms.E(expr.GetParts()[0])
-	part.AppendEx(atoms.NewInt(0))
 	dirty := false
 	for i, p := range expr.GetParts()[1:] {
-		part.GetParts()[len(part.GetParts())-1] = atoms.NewInt(int64(i + 1))
-		repVal, replaced := rulesReplace(part, rules, es)
-		if !replaced && len(part.GetParts()) == 2 {
-			repVal, replaced = rulesReplace(part.GetParts()[1], rules, es)
+		// A rule may keep the position it matched, so each part needs its own.
+		pos := atoms.E(append(
+			append([]expreduceapi.Ex{}, part.GetParts()...),
+			atoms.NewInt(int64(i+1)))...)
+		repVal, replaced := rulesReplace(pos, rules, es)
+		if !replaced && pos.Len() == 1 {
+			repVal, replaced = rulesReplace(pos.GetPart(1), rules, es)
 		}
 		if replaced {
 			res.AppendEx(repVal)
 			dirty = true
 		} else {
-			newVal := replaceParts(p, rules, part, es)
+			newVal := replaceParts(p, rules, pos, es)
 			res.AppendEx(newVal)
 			if newVal != p {
 				dirty = true
 			}
 		}
 	}
-	part.SetParts(part.GetParts()[:len(part.GetParts())-1])
 	if !dirty {
 		return e
 	}
-- 
2.43.0


From 346e914a5482dc3e03c158bd929e6b757c46cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 030/100] fix: a sequence in place of the head is not spliced
 into the call

---
 expreduce/eval.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 9a6d63f..946524d 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -412,9 +412,17 @@ func mergeSequences(
 	headStr string,
 	shouldEval bool,
 ) *atoms.Expression {
+	// A sequence in place of the head has no arguments to be spliced into.
+	asSequence := func(i int, e expreduceapi.Ex) (*atoms.Expression, bool) {
+		seq, isseq := atoms.HeadAssertion(e, headStr)
+		if i == 0 && isseq {
+			isseq = headStr != "System`Sequence" && len(seq.GetParts()) == 2
+		}
+		return seq, isseq
+	}
 	encounteredSeq := false
-	for _, e := range this.GetParts() {
-		if _, isseq := atoms.HeadAssertion(e, headStr); isseq {
+	for i, e := range this.GetParts() {
+		if _, isseq := asSequence(i, e); isseq {
 			encounteredSeq = true
 			break
 		}
@@ -425,13 +433,12 @@ func mergeSequences(
 		return this
 	}
 
-	// TODO: I should not be attempting to merge the head if it happens to be
-	// a Sequence type. This is very similar to the flatten function. Perhaps
+	// TODO: This is very similar to the flatten function. Perhaps
 	// it should be combined. This version is not recursive, and it does not
 	// accept level depths. It is a specific case of Flatten.
 	res := atoms.NewEmptyExpression()
-	for _, e := range this.GetParts() {
-		seq, isseq := atoms.HeadAssertion(e, headStr)
+	for i, e := range this.GetParts() {
+		seq, isseq := asSequence(i, e)
 		if isseq {
 			for _, seqPart := range seq.GetParts()[1:] {
 				if shouldEval {
-- 
2.43.0


From 490632f1359b2692d9a2de6e46d05117b6648250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 031/100] fix: literal and narrower definitions are tried
 before wider ones; renamed parameters redefine; invalid left-hand sides do
 not end the process

---
 expreduce/evalstate.go   |  25 +++-
 expreduce/specificity.go | 290 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 312 insertions(+), 3 deletions(-)
 create mode 100644 expreduce/specificity.go

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 3419609..248f453 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"fmt"
-	"log"
 	"os"
 	"os/signal"
 	"strings"
@@ -413,8 +412,18 @@ func (es *EvalState) defineDownValues(sym *atoms.Symbol, rhs expreduceapi.Ex) {
 		}
 		if !isRule || len(rule.GetParts()) != 3 {
 			fmt.Println("Assignment to DownValues must be List of Rules.")
+			return
+		}
+		// The rules are kept the way definitions are.
+		lhs := rule.GetParts()[1]
+		if held, isHeld := heldPattern(rule); isHeld {
+			lhs = held
 		}
-		dvs = append(dvs, expreduceapi.DownValue{Rule: rule})
+		dvs = append(dvs, expreduceapi.DownValue{Rule: atoms.E(
+			atoms.S("Rule"),
+			atoms.E(atoms.S("HoldPattern"), lhs),
+			rule.GetParts()[2],
+		)})
 	}
 
 	if !es.IsDef(sym.Name) {
@@ -526,7 +535,8 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		}
 	}
 	if name == "" {
-		log.Fatalf("Trying to define an invalid lhs: %v", lhs)
+		fmt.Printf("Trying to define an invalid lhs: %v\n", lhs)
+		return
 	}
 
 	es.Debugf("Inside es.Define(\"%s\",%s,%s)", name, lhs, rhs)
@@ -564,6 +574,12 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 				es.defined.Set(name, tmp)
 				return
 			}
+		} else if name != "Rubi`Int" && isSameRule(dv.Rule, newRule) {
+			// The same rule with other names for its parameters.
+			downvalues[i].Rule = newRule
+			tmp.Downvalues = downvalues
+			es.defined.Set(name, tmp)
+			return
 		}
 	}
 
@@ -585,6 +601,9 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			break
 		}
 	}
+	if name != "Rubi`Int" {
+		position = orderByGenerality(downvalues, position, newRule)
+	}
 	tmp.Downvalues = append(
 		append(
 			append([]expreduceapi.DownValue{}, downvalues[:position]...),
diff --git a/expreduce/specificity.go b/expreduce/specificity.go
new file mode 100644
index 0000000..53c720b
--- /dev/null
+++ b/expreduce/specificity.go
@@ -0,0 +1,290 @@
+package expreduce
+
+import (
+	"github.com/corywalker/expreduce/expreduce/atoms"
+	"github.com/corywalker/expreduce/pkg/expreduceapi"
+)
+
+// orderByGenerality moves the position of a new rule after the rules that are
+// narrower and before the rules that are wider.
+func orderByGenerality(
+	downvalues []expreduceapi.DownValue,
+	position int,
+	newRule expreduceapi.ExpressionInterface,
+) int {
+	for i := 0; i < position; i++ {
+		if isNarrowerRule(newRule, downvalues[i].Rule) {
+			position = i
+		}
+	}
+	for i := len(downvalues) - 1; i >= position; i-- {
+		if isNarrowerRule(downvalues[i].Rule, newRule) {
+			return i + 1
+		}
+	}
+	return position
+}
+
+// isSameRule decides whether two rules always apply in the same cases.
+func isSameRule(a, b expreduceapi.ExpressionInterface) bool {
+	for _, rule := range []expreduceapi.ExpressionInterface{a, b} {
+		if _, isCond := atoms.HeadAssertion(
+			rule.GetParts()[2],
+			"System`Condition",
+		); isCond {
+			return false
+		}
+	}
+	aLHS, aIsHeld := heldPattern(a)
+	bLHS, bIsHeld := heldPattern(b)
+	return aIsHeld && bIsHeld && covers(aLHS, bLHS) && covers(bLHS, aLHS)
+}
+
+// isNarrowerRule decides whether a rule applies in some, but not in all cases
+// in which another rule applies. It may miss such a relation for patterns that
+// it does not understand.
+func isNarrowerRule(narrow, wide expreduceapi.ExpressionInterface) bool {
+	if _, isCond := atoms.HeadAssertion(
+		wide.GetParts()[2],
+		"System`Condition",
+	); isCond {
+		return false
+	}
+	wideLHS, wideIsHeld := heldPattern(wide)
+	narrowLHS, narrowIsHeld := heldPattern(narrow)
+	if !wideIsHeld || !narrowIsHeld || !covers(wideLHS, narrowLHS) {
+		return false
+	}
+	_, isCond := atoms.HeadAssertion(narrow.GetParts()[2], "System`Condition")
+	return isCond || !covers(narrowLHS, wideLHS)
+}
+
+func heldPattern(rule expreduceapi.ExpressionInterface) (expreduceapi.Ex, bool) {
+	held, isHeld := atoms.HeadAssertion(
+		rule.GetParts()[1],
+		"System`HoldPattern",
+	)
+	if !isHeld || len(held.GetParts()) != 2 {
+		return nil, false
+	}
+	return held.GetParts()[1], true
+}
+
+// covers decides whether a pattern matches everything another one matches.
+func covers(wide, narrow expreduceapi.Ex) bool {
+	return coversPart(wide, narrow, map[string]expreduceapi.Ex{})
+}
+
+// The head of an expression whose head is a symbol.
+func symbolHead(ex expreduceapi.Ex) string {
+	if expr, isExpr := ex.(expreduceapi.ExpressionInterface); isExpr {
+		if sym, isSym := expr.GetParts()[0].(*atoms.Symbol); isSym {
+			return sym.Name
+		}
+	}
+	return ""
+}
+
+// withoutName returns the pattern object of a named pattern.
+func withoutName(ex expreduceapi.Ex) (expreduceapi.Ex, *atoms.Symbol) {
+	if pat, isPat := atoms.HeadAssertion(ex, "System`Pattern"); isPat &&
+		len(pat.GetParts()) == 3 {
+		if name, isSym := pat.GetParts()[1].(*atoms.Symbol); isSym {
+			return pat.GetParts()[2], name
+		}
+	}
+	return ex, nil
+}
+
+func coversPart(
+	wide, narrow expreduceapi.Ex,
+	bound map[string]expreduceapi.Ex,
+) bool {
+	wide, name := withoutName(wide)
+	if name != nil {
+		if part, isBound := bound[name.Name]; isBound {
+			if !atoms.IsSameQ(part, narrow) {
+				return false
+			}
+			// Two parts that may differ, such as _ and _, look the same.
+			_, narrowName := withoutName(narrow)
+			if narrowName == nil && !isLiteral(narrow) {
+				return false
+			}
+		}
+		bound[name.Name] = narrow
+	}
+	narrow, _ = withoutName(narrow)
+
+	wideHead, narrowHead := symbolHead(wide), symbolHead(narrow)
+	switch wideHead {
+	case "System`Blank", "System`BlankSequence", "System`BlankNullSequence":
+		return blankCovers(wide.(*atoms.Expression), narrow)
+	case "System`PatternTest":
+		wideTest := wide.(*atoms.Expression)
+		narrowTest, isTest := narrow.(*atoms.Expression)
+		return isTest && narrowHead == wideHead &&
+			len(wideTest.GetParts()) == 3 &&
+			len(narrowTest.GetParts()) == 3 &&
+			atoms.IsSameQ(wideTest.GetParts()[2], narrowTest.GetParts()[2]) &&
+			coversPart(wideTest.GetParts()[1], narrowTest.GetParts()[1], bound)
+	}
+	wideExpr, wideIsExpr := wide.(expreduceapi.ExpressionInterface)
+	narrowExpr, narrowIsExpr := narrow.(expreduceapi.ExpressionInterface)
+	if !wideIsExpr || !narrowIsExpr {
+		return !wideIsExpr && !narrowIsExpr && atoms.IsSameQ(wide, narrow)
+	}
+	if isPatternObject(wideHead) || isPatternObject(narrowHead) {
+		return false
+	}
+	return argsCover(wideExpr.GetParts(), narrowExpr.GetParts(), bound)
+}
+
+func argsCover(
+	wide, narrow []expreduceapi.Ex,
+	bound map[string]expreduceapi.Ex,
+) bool {
+	// At most one part of the wide pattern may stand for several arguments.
+	sequence := -1
+	for i, part := range wide {
+		part, _ := withoutName(part)
+		switch symbolHead(part) {
+		case "System`BlankSequence", "System`BlankNullSequence":
+			if sequence >= 0 {
+				return false
+			}
+			sequence = i
+		}
+	}
+	if sequence < 0 || len(narrow) < len(wide)-1 {
+		if len(wide) != len(narrow) {
+			return false
+		}
+		for i := range wide {
+			if !coversPart(wide[i], narrow[i], bound) {
+				return false
+			}
+		}
+		return true
+	}
+	after := len(wide) - 1 - sequence
+	for i := 0; i < sequence; i++ {
+		if !coversPart(wide[i], narrow[i], bound) {
+			return false
+		}
+	}
+	for i := 1; i <= after; i++ {
+		if !coversPart(wide[len(wide)-i], narrow[len(narrow)-i], bound) {
+			return false
+		}
+	}
+	seqPart, name := withoutName(wide[sequence])
+	if name != nil {
+		if _, isBound := bound[name.Name]; isBound {
+			return false
+		}
+	}
+	between := narrow[sequence : len(narrow)-after]
+	someArg := symbolHead(seqPart) == "System`BlankNullSequence"
+	for _, part := range between {
+		part, _ := withoutName(part)
+		if !blankCovers(seqPart.(*atoms.Expression), part) {
+			return false
+		}
+		if symbolHead(part) != "System`BlankNullSequence" {
+			someArg = true
+		}
+	}
+	return someArg
+}
+
+func blankCovers(blank *atoms.Expression, narrow expreduceapi.Ex) bool {
+	wideHead, narrowHead := symbolHead(blank), symbolHead(narrow)
+	switch narrowHead {
+	case "System`PatternTest":
+		test := narrow.(*atoms.Expression)
+		if len(test.GetParts()) != 3 {
+			return false
+		}
+		part, _ := withoutName(test.GetParts()[1])
+		return blankCovers(blank, part)
+	case "System`Blank", "System`BlankSequence", "System`BlankNullSequence":
+		if len(narrowHead) > len(wideHead) {
+			return false
+		}
+		narrowBlank := narrow.(*atoms.Expression)
+		if len(blank.GetParts()) == 1 {
+			return true
+		}
+		return len(blank.GetParts()) == 2 && len(narrowBlank.GetParts()) == 2 &&
+			isLiteral(blank.GetParts()[1]) &&
+			atoms.IsSameQ(blank.GetParts()[1], narrowBlank.GetParts()[1])
+	}
+	if isPatternObject(narrowHead) {
+		return false
+	}
+	if len(blank.GetParts()) == 1 {
+		return true
+	}
+	head, headIsSym := blank.GetParts()[1].(*atoms.Symbol)
+	if len(blank.GetParts()) != 2 || !headIsSym {
+		return false
+	}
+	switch narrow := narrow.(type) {
+	case *atoms.Integer:
+		return head.Name == "System`Integer"
+	case *atoms.Rational:
+		return head.Name == "System`Rational"
+	case *atoms.Flt:
+		return head.Name == "System`Real"
+	case *atoms.Complex:
+		return head.Name == "System`Complex"
+	case *atoms.String:
+		return head.Name == "System`String"
+	case *atoms.Symbol:
+		return head.Name == "System`Symbol"
+	case expreduceapi.ExpressionInterface:
+		return atoms.IsSameQ(head, narrow.GetParts()[0])
+	}
+	return false
+}
+
+// isPatternObject decides whether a call of a symbol is matched by something
+// else than calls of this symbol.
+func isPatternObject(head string) bool {
+	switch head {
+	case "System`Blank",
+		"System`BlankSequence",
+		"System`BlankNullSequence",
+		"System`Pattern",
+		"System`PatternTest",
+		"System`PatternSequence",
+		"System`Optional",
+		"System`Alternatives",
+		"System`Condition",
+		"System`Except",
+		"System`HoldPattern",
+		"System`Repeated",
+		"System`RepeatedNull",
+		"System`Verbatim":
+		return true
+	}
+	return false
+}
+
+// isLiteral decides whether an expression contains no pattern objects.
+func isLiteral(ex expreduceapi.Ex) bool {
+	expr, isExpr := ex.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return true
+	}
+	if isPatternObject(symbolHead(ex)) {
+		return false
+	}
+	for _, part := range expr.GetParts() {
+		if !isLiteral(part) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 6c9bdccd328e501e617fad545d2457777d24334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 032/100] fix: unsupported syntax, unclosed strings and
 unclosed comments are syntax errors, not the end of the process

---
 expreduce/parser/interp.go | 84 ++++++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 7e0b241..11eaceb 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/token"
-	"log"
 	"math/big"
 	"strings"
 
@@ -185,6 +184,13 @@ var unicodeRedefineMap = map[string]string{
 	"ⅉ": "I",
 }
 
+// syntaxError is raised for syntax that has no conversion.
+type syntaxError string
+
+func (err syntaxError) Error() string {
+	return string(err)
+}
+
 func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 	switch tk.Rune {
 	case wl.IDENT:
@@ -198,14 +204,14 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		tmpi := big.NewInt(0)
 		_, ok := tmpi.SetString(tk.Val, base)
 		if !ok {
-			log.Fatal("Failed in integer parsing.")
+			panic(syntaxError("unsupported integer: " + tk.Val))
 		}
 		return atoms.NewInteger(tmpi)
 	case wl.FLOAT:
 		tmpf := big.NewFloat(0)
 		_, ok := tmpf.SetString(tk.Val)
 		if !ok {
-			log.Fatal("Failed in float parsing.")
+			panic(syntaxError("unsupported real: " + tk.Val))
 		}
 		return atoms.NewReal(tmpf)
 	case wl.STRING:
@@ -217,7 +223,7 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		if tk.Val != "#" {
 			_, ok := tmpi.SetString(tk.Val[1:], 10)
 			if !ok {
-				log.Fatal("Failed in integer parsing.")
+				panic(syntaxError("unsupported slot: " + tk.Val))
 			}
 		}
 		return atoms.NewExpression([]expreduceapi.Ex{
@@ -225,17 +231,21 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 			atoms.NewInteger(tmpi),
 		})
 
-	default:
-		log.Fatalf("System`UnParsedToken")
 	}
-	log.Fatalf("System`UnParsedToken")
-	return nil
+	panic(syntaxError("unsupported token: " + tk.Val))
 }
 
 func parserTagConv(tag *wl.Tag) expreduceapi.Ex {
 	return parserTokenConv(tag.Token)
 }
 
+func tagName(tag *wl.Tag) string {
+	if str, isStr := parserTagConv(tag).(*atoms.String); isStr {
+		return str.Val
+	}
+	return tag.Token.Val
+}
+
 func parserExprListConv(l *wl.ExprList) (res []expreduceapi.Ex) {
 	for l != nil {
 		if l.Expression != nil {
@@ -362,7 +372,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 		return atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`MessageName"),
 			parserTokenConv(expr.Token),
-			atoms.NewString(parserTagConv(expr.Tag).(*atoms.Symbol).Name),
+			atoms.NewString(tagName(expr.Tag)),
 		})
 
 	case 132: // a[]
@@ -513,8 +523,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 			)
 		}
 	}
-	log.Fatalf("System`UnParsed: %+v %+v %+v", expr.Token, expr.Case, expr)
-	return nil
+	panic(syntaxError("unsupported syntax: " + expr.Case.String()))
 }
 
 func ReplaceSyms(in string) string {
@@ -525,21 +534,60 @@ func ReplaceSyms(in string) string {
 	return in
 }
 
-func InterpBuf(
+// The scanner reads on at the end of the input when a string or a comment is
+// not closed.
+const maxReadsAtEnd = 100
+
+type inputReader struct {
+	buf        *bytes.Buffer
+	readsAtEnd int
+}
+
+func (r *inputReader) ReadRune() (rune, int, error) {
+	c, size, err := r.buf.ReadRune()
+	if err != nil {
+		r.readsAtEnd++
+		if r.readsAtEnd > maxReadsAtEnd {
+			panic(syntaxError("unexpected EOF in a string or comment"))
+		}
+	}
+	return c, size, err
+}
+
+func parse(
 	buf *bytes.Buffer,
 	fn string,
-	esfp evalStateForParser,
-) (expreduceapi.Ex, error) {
+) (parsed expreduceapi.Ex, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			syntaxErr, isSyntaxError := r.(syntaxError)
+			if !isSyntaxError {
+				panic(r)
+			}
+			parsed, err = nil, syntaxErr
+		}
+	}()
 	// TODO(corywalker): use the interactive mode for proper newline handling.
-	in, err := wl.NewInput(buf, true)
+	in, err := wl.NewInput(&inputReader{buf: buf}, true)
 	if err != nil {
 		panic(err)
 	}
 	expr, err := in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+	if err != nil {
+		return nil, err
+	}
+	return parserExprConv(expr), nil
+}
+
+func InterpBuf(
+	buf *bytes.Buffer,
+	fn string,
+	esfp evalStateForParser,
+) (expreduceapi.Ex, error) {
+	parsed, err := parse(buf, fn)
 	if err != nil {
 		return atoms.NewSymbol("System`Null"), err
 	}
-	parsed := parserExprConv(expr)
 	//fmt.Println(parsed)
 
 	// Remove outer parens
@@ -558,7 +606,9 @@ func InterpBuf(
 	contextPathEx := esfp.GetListDef("System`$ContextPath")
 	contextPath := []string{}
 	for _, pathPart := range contextPathEx.GetParts()[1:] {
-		contextPath = append(contextPath, pathPart.(*atoms.String).Val)
+		if pathStr, isStr := pathPart.(*atoms.String); isStr {
+			contextPath = append(contextPath, pathStr.Val)
+		}
 	}
 	addContextAndDefine(parsed, context, contextPath, esfp)
 	return parsed, nil
-- 
2.43.0


From af1894ae83547a1bb5f7703d6d5a10f555d0b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 033/100] fix: a short rest of a script does not panic

---
 expreduce/easyrun.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 38b45c7..a8f918e 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -30,6 +30,15 @@ func EasyRun(in string, es expreduceapi.EvalStateInterface) string {
 	return EvalInterp(in, es).StringForm(stringParams)
 }
 
+// startOf returns the first characters of the rest of a document.
+func startOf(buf *bytes.Buffer) string {
+	rest := []rune(buf.String())
+	if len(rest) > 100 {
+		rest = rest[:100]
+	}
+	return string(rest)
+}
+
 func EvalInterpMany(
 	doc string,
 	fn string,
@@ -47,7 +56,7 @@ func EvalInterpMany(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			startOf(buf),
 		)
 	}
 	return lastExpr
@@ -69,7 +78,7 @@ func ReadList(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			startOf(buf),
 		)
 	}
 	return l
-- 
2.43.0


From e4b1ae581c5fe7b11f6ffc357e86ece90ac82fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 034/100] fix: unknown characters and byte order marks inside
 strings and comments are syntax errors; a character at the end of the text is
 read

---
 expreduce/parser/interp.go | 44 +++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 11eaceb..cb857aa 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"go/token"
 	"math/big"
+	"regexp"
 	"strings"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
@@ -538,24 +539,61 @@ func ReplaceSyms(in string) string {
 // not closed.
 const maxReadsAtEnd = 100
 
+// The scanner does not come back from an error in a string or a comment, so
+// what it would report is looked for while it reads.
+var escape = regexp.MustCompile(
+	`^\\(\[[A-Z][A-Za-z]*\]|[0-9]{3}|\.[0-9A-Fa-f]{2}|:[0-9A-Fa-f]{4})`)
+
+const byteOrderMark = '\ufeff'
+
 type inputReader struct {
 	buf        *bytes.Buffer
+	started    bool
+	inEscape   bool
 	readsAtEnd int
 }
 
 func (r *inputReader) ReadRune() (rune, int, error) {
+	if !r.inEscape {
+		if esc := escape.Find(r.buf.Bytes()); esc != nil {
+			checkEscape(string(esc))
+		}
+	}
 	c, size, err := r.buf.ReadRune()
 	if err != nil {
 		r.readsAtEnd++
 		if r.readsAtEnd > maxReadsAtEnd {
 			panic(syntaxError("unexpected EOF in a string or comment"))
 		}
+		if r.readsAtEnd == 1 {
+			// The scanner loses an escaped character right before the end.
+			return '\n', 1, nil
+		}
+	}
+	if c == byteOrderMark && r.started {
+		panic(syntaxError("unicode (UTF-8) BOM in middle of file"))
 	}
+	r.started = true
 	return c, size, err
 }
 
-func parse(
-	buf *bytes.Buffer,
+// checkEscape raises a syntax error if the scanner does not know an escaped
+// character.
+func checkEscape(esc string) {
+	in := &inputReader{buf: bytes.NewBufferString(esc), inEscape: true}
+	_, err := parseWith(in, "")
+	if err != nil && (strings.Contains(err.Error(), "unknown character name") ||
+		strings.Contains(err.Error(), "strconv.ParseInt")) {
+		panic(syntaxError("unknown character: " + esc))
+	}
+}
+
+func parse(buf *bytes.Buffer, fn string) (expreduceapi.Ex, error) {
+	return parseWith(&inputReader{buf: buf}, fn)
+}
+
+func parseWith(
+	reader *inputReader,
 	fn string,
 ) (parsed expreduceapi.Ex, err error) {
 	defer func() {
@@ -568,7 +606,7 @@ func parse(
 		}
 	}()
 	// TODO(corywalker): use the interactive mode for proper newline handling.
-	in, err := wl.NewInput(&inputReader{buf: buf}, true)
+	in, err := wl.NewInput(reader, true)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From a69ab0a3061371785b950b3e3412ca3e6c9177a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 035/100] fix: an empty string in a sum can be printed

---
 expreduce/builtin_arithmetic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_arithmetic.go b/expreduce/builtin_arithmetic.go
index abc08a6..ccae661 100644
--- a/expreduce/builtin_arithmetic.go
+++ b/expreduce/builtin_arithmetic.go
@@ -193,7 +193,7 @@ func getArithmeticDefinitions() (defs []Definition) {
 			for i := 0; i < len(parts); i++ {
 				toWrite := parts[i].StringForm(nextParams)
 				if i != 0 {
-					if toWrite[0] == '-' {
+					if strings.HasPrefix(toWrite, "-") {
 						buffer.WriteString(" - ")
 						toWrite = toWrite[1:]
 					} else {
-- 
2.43.0


From c83cabf89d34a626273690dc27639cb46f40b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 036/100] fix: factorials, chains of rules and colons are
 grouped as documented; qualified operator names are not extended by a
 following operator

---
 expreduce/parser/interp.go  |  68 +++++++-------
 expreduce/parser/regroup.go | 175 ++++++++++++++++++++++++++++++++++++
 2 files changed, 205 insertions(+), 38 deletions(-)
 create mode 100644 expreduce/parser/regroup.go

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index cb857aa..9547634 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -73,21 +73,21 @@ func fullyAssoc(
 	return atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol(op), lhs, rhs})
 }
 
+func withoutParens(ex expreduceapi.Ex) expreduceapi.Ex {
+	for {
+		parens, isParens := atoms.HeadAssertion(ex, "Internal`Parens")
+		if !isParens {
+			return ex
+		}
+		ex = parens.GetParts()[1]
+	}
+}
+
 func removeParens(ex expreduceapi.Ex) {
 	expr, isExpr := ex.(expreduceapi.ExpressionInterface)
 	if isExpr {
 		for i := range expr.GetParts() {
-			isParens := true
-			var parens expreduceapi.ExpressionInterface
-			for isParens {
-				parens, isParens = atoms.HeadAssertion(
-					expr.GetParts()[i],
-					"Internal`Parens",
-				)
-				if isParens {
-					expr.GetParts()[i] = parens.GetParts()[1]
-				}
-			}
+			expr.GetParts()[i] = withoutParens(expr.GetParts()[i])
 			removeParens(expr.GetParts()[i])
 		}
 	}
@@ -259,6 +259,15 @@ func parserExprListConv(l *wl.ExprList) (res []expreduceapi.Ex) {
 	return
 }
 
+// call is an expression that a following operator does not add operands to.
+func call(head expreduceapi.Ex, args ...expreduceapi.Ex) expreduceapi.Ex {
+	e := atoms.NewExpression(append([]expreduceapi.Ex{head}, args...))
+	if strings.HasPrefix(e.HeadStr(), "System`") {
+		return atoms.E(atoms.NewSymbol("Internal`Parens"), e)
+	}
+	return e
+}
+
 // TODO: the following maps are tightly coupled to the parser generation in
 // cznic/wl. Small modifications to wl might change all these values. Fix this
 // situation.
@@ -360,7 +369,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 		// the expression Optional[a_, 5].
 		e := parserExprConv(expr.Expression)
 		head := "System`Pattern"
-		if _, isPat := atoms.HeadAssertion(e, "System`Pattern"); isPat {
+		if _, isPat := atoms.HeadAssertion(withoutParens(e), "System`Pattern"); isPat {
 			head = "System`Optional"
 		}
 		return atoms.NewExpression([]expreduceapi.Ex{
@@ -376,18 +385,10 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 			atoms.NewString(tagName(expr.Tag)),
 		})
 
-	case 132: // a[]
-		return atoms.NewExpression([]expreduceapi.Ex{
-			parserExprConv(expr.Expression),
-		})
-
-	case 133: // a[b]
-		e := atoms.NewExpression([]expreduceapi.Ex{
+	case 132, 133: // a[], a[b]
+		return call(
 			parserExprConv(expr.Expression),
-		})
-
-		e.AppendExArray(parserExprListConv(expr.ExprList))
-		return e
+			parserExprListConv(expr.ExprList)...)
 	case 17: // {}
 		return atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`List"),
@@ -451,16 +452,14 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 			}),
 		)
 	case 32:
-		return atoms.NewExpression([]expreduceapi.Ex{
+		return call(
 			parserExprConv(expr.Expression2),
-			parserExprConv(expr.Expression),
-		})
+			parserExprConv(expr.Expression))
 
 	case 131:
-		return atoms.NewExpression([]expreduceapi.Ex{
+		return call(
 			parserExprConv(expr.Expression),
-			parserExprConv(expr.Expression2),
-		})
+			parserExprConv(expr.Expression2))
 
 	case 53:
 		return atoms.NewExpression([]expreduceapi.Ex{
@@ -614,7 +613,7 @@ func parseWith(
 	if err != nil {
 		return nil, err
 	}
-	return parserExprConv(expr), nil
+	return parserExprConv(regroup(expr)), nil
 }
 
 func InterpBuf(
@@ -629,14 +628,7 @@ func InterpBuf(
 	//fmt.Println(parsed)
 
 	// Remove outer parens
-	isParens := true
-	var parens expreduceapi.ExpressionInterface
-	for isParens {
-		parens, isParens = atoms.HeadAssertion(parsed, "Internal`Parens")
-		if isParens {
-			parsed = parens.GetParts()[1]
-		}
-	}
+	parsed = withoutParens(parsed)
 	// Remove inner parens
 	removeParens(parsed)
 
diff --git a/expreduce/parser/regroup.go b/expreduce/parser/regroup.go
new file mode 100644
index 0000000..4ffedb5
--- /dev/null
+++ b/expreduce/parser/regroup.go
@@ -0,0 +1,175 @@
+package parser
+
+import "modernc.org/wl"
+
+// The grammar groups some operators in another way than documented: what comes
+// before a factorial, chains of rules, and operators next to a colon.
+
+// How tightly operators bind that end in an operand or start with one. Those
+// that bind less tightly than Not are left out: a factorial after them is
+// grouped well.
+var tightness = map[wl.ExpressionCase]int{
+	130:              105, // PatternTest
+	54:               100, // Part
+	132:              100, // a[]
+	133:              100, // a[b]
+	23:               98,  // Increment
+	25:               98,  // Decrement
+	0:                97,  // PreIncrement
+	1:                97,  // PreDecrement
+	131:              95,  // a@b
+	38:               90,  // Map
+	52:               90,  // Apply
+	53:               90,  // Apply at level 1
+	115:              85,  // Factorial
+	137:              84,  // Derivative
+	44:               80,  // StringJoin
+	134:              75,  // Power
+	11:               74,  // Sqrt
+	121:              70,  // Dot
+	15:               65,  // +a
+	16:               65,  // -a
+	122:              60,  // a/b
+	wl.ExpressionMul: 58,
+	wl.ExpressionAdd: 55,
+	120:              55, // a-b
+	42:               50, // Span
+	wl.ExpressionEq:  45,
+	wl.ExpressionNe:  45,
+	wl.ExpressionLt:  45,
+	wl.ExpressionLe:  45,
+	wl.ExpressionGt:  45,
+	48:               45, // GreaterEqual
+	47:               42, // SameQ
+	45:               42, // UnsameQ
+	78:               41, // Element
+}
+
+var rightAssoc = map[wl.ExpressionCase]bool{
+	38:  true, // Map
+	52:  true, // Apply
+	53:  true, // Apply at level 1
+	131: true, // a@b
+	134: true, // Power
+}
+
+// Operators with only an operand after them.
+var prefixOps = map[wl.ExpressionCase]bool{
+	0:  true, // PreIncrement
+	1:  true, // PreDecrement
+	11: true, // Sqrt
+	13: true, // Not
+	14: true, // (a)
+	15: true, // +a
+	16: true, // -a
+}
+
+// Operators that take an expression with a colon as their operand.
+var looserThanColon = map[wl.ExpressionCase]int{
+	117: 1, // Function
+	24:  2, // AddTo
+	26:  2, // SubtractFrom
+	31:  3, // ReplaceAll
+	33:  3, // ReplaceRepeated
+	27:  4, // Rule
+	40:  4, // RuleDelayed
+	36:  5, // Condition
+}
+
+func isRule(expr *wl.Expression) bool {
+	return expr.Case == 27 || expr.Case == 40
+}
+
+// last gives the operand that an expression ends in, or nil.
+func last(expr *wl.Expression) *wl.Expression {
+	if _, known := tightness[expr.Case]; !known {
+		return nil
+	}
+	if expr.Expression2 != nil {
+		return expr.Expression2
+	}
+	if prefixOps[expr.Case] {
+		return expr.Expression
+	}
+	return nil
+}
+
+// attach gives an operator its left operand, or the part of it at its right
+// end that the operator binds to.
+func attach(op *wl.Expression, left *wl.Expression) *wl.Expression {
+	var at *wl.Expression
+	for e := left; last(e) != nil; e = last(e) {
+		if tightness[e.Case] < tightness[op.Case] ||
+			tightness[e.Case] == tightness[op.Case] && rightAssoc[op.Case] {
+			at = e
+		}
+	}
+	if at == nil {
+		op.Expression = left
+		return op
+	}
+	op.Expression = last(at)
+	if at.Expression2 != nil {
+		at.Expression2 = op
+	} else {
+		at.Expression = op
+	}
+	return left
+}
+
+// regroup gives operators their documented operands.
+func regroup(expr *wl.Expression) *wl.Expression {
+	if expr == nil {
+		return nil
+	}
+	if isRule(expr) && isRule(expr.Expression) {
+		expr = rightRules(expr)
+	}
+	for l := expr.ExprList; l != nil; l = l.ExprList {
+		l.Expression = regroup(l.Expression)
+	}
+	left := expr.Expression
+	expr.Expression = regroup(left)
+	expr.Expression2 = regroup(expr.Expression2)
+	switch {
+	case expr.Case == 123:
+		return colon(expr)
+	case expr.Case == wl.ExpressionFactorial,
+		expr.Expression != left && !prefixOps[expr.Case]:
+		return attach(expr, expr.Expression)
+	}
+	return expr
+}
+
+// rightRules turns (a->b)->c into a->(b->c).
+func rightRules(expr *wl.Expression) *wl.Expression {
+	res := expr.Expression2
+	for isRule(expr.Expression) {
+		left := expr.Expression
+		expr.Expression, expr.Expression2 = left.Expression2, res
+		res, expr = expr, left
+	}
+	expr.Expression2 = res
+	return expr
+}
+
+// colon gives a:b to the operator next to it that would else be its operand.
+func colon(expr *wl.Expression) *wl.Expression {
+	left, right := expr.Expression, expr.Expression2
+	l, r := looserThanColon[left.Case], looserThanColon[right.Case]
+	if left.Expression2 == nil {
+		l = 0
+	}
+	toTheRight := l == 2 || l == 4
+	switch {
+	case l > 0 && (r == 0 || l < r || l == r && toTheRight):
+		expr.Expression = left.Expression2
+		left.Expression2 = colon(expr)
+		return left
+	case r > 0:
+		expr.Expression2 = right.Expression
+		right.Expression = colon(expr)
+		return right
+	}
+	return expr
+}
-- 
2.43.0


From 210a4c495b4fe7d1825d49566df59203ab9c701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 037/100] fix: printed text reads back: stale operator
 precedences, heads, part subjects, negative bases, fractions, strings, big
 exponents and operator symbols

---
 expreduce/atoms/ex_complex.go     | 11 ++++++---
 expreduce/atoms/ex_expression.go  |  4 +++-
 expreduce/atoms/ex_integer.go     | 10 ++++++++
 expreduce/atoms/ex_string.go      | 12 +++++++++-
 expreduce/builtin_arithmetic.go   | 32 ++++++++++++++++----------
 expreduce/builtin_list.go         |  7 +++++-
 expreduce/builtin_pattern.go      | 19 ++++++++++++++--
 expreduce/builtin_power.go        |  2 +-
 expreduce/evalstate.go            |  8 +++++++
 expreduce/parser/parens/parens.go | 38 +++++++++++++++----------------
 10 files changed, 103 insertions(+), 40 deletions(-)

diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index 87f4278..bde484c 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash/fnv"
+	"math/big"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -19,12 +20,12 @@ func (cmplx *Complex) AsExpr() expreduceapi.Ex {
 	reInt, reIsInt := cmplx.Re.(*Integer)
 	imInt, imIsInt := cmplx.Im.(*Integer)
 	if reIsInt && reInt.Val.Sign() == 0 {
-		if imIsInt && imInt.Val.Int64() == 1 {
+		if imIsInt && imInt.Val.Cmp(big.NewInt(1)) == 0 {
 			return iSym
 		}
 		return E(S("Times"), cmplx.Im, iSym)
 	}
-	if imIsInt && imInt.Val.Int64() == 1 {
+	if imIsInt && imInt.Val.Cmp(big.NewInt(1)) == 0 {
 		return E(S("Plus"), cmplx.Re, iSym)
 	}
 	return E(S("Plus"), cmplx.Re, E(S("Times"), cmplx.Im, iSym))
@@ -32,7 +33,11 @@ func (cmplx *Complex) AsExpr() expreduceapi.Ex {
 
 func (cmplx *Complex) StringForm(p expreduceapi.ToStringParams) string {
 	if p.Form == "FullForm" {
-		return fmt.Sprintf("Complex[%v, %v]", cmplx.Re, cmplx.Im)
+		return fmt.Sprintf(
+			"Complex[%v, %v]",
+			cmplx.Re.StringForm(p),
+			cmplx.Im.StringForm(p),
+		)
 	}
 	return cmplx.AsExpr().StringForm(p)
 }
diff --git a/expreduce/atoms/ex_expression.go b/expreduce/atoms/ex_expression.go
index 569859b..20e9736 100644
--- a/expreduce/atoms/ex_expression.go
+++ b/expreduce/atoms/ex_expression.go
@@ -124,7 +124,9 @@ func (thisExpr *Expression) StringForm(
 
 	// Default printing format
 	var buffer bytes.Buffer
-	buffer.WriteString(thisExpr.GetParts()[0].StringForm(params))
+	headParams := params
+	headParams.PreviousHead = "<HEAD>"
+	buffer.WriteString(thisExpr.GetParts()[0].StringForm(headParams))
 	buffer.WriteString("[")
 	params.PreviousHead = "<TOPLEVEL>"
 	for i, e := range thisExpr.GetParts() {
diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index dbf0196..b0dd5b8 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -5,6 +5,7 @@ import (
 	"hash/fnv"
 	"math/big"
 
+	"github.com/corywalker/expreduce/expreduce/parser/parens"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -19,6 +20,15 @@ type Integer struct {
 }*/
 
 func (thisInt *Integer) StringForm(params expreduceapi.ToStringParams) string {
+	// A minus sign binds as tightly as a product.
+	if thisInt.Val.Sign() < 0 &&
+		params.PreviousHead != "System`Times" &&
+		parens.NeedsParens("System`Times", params.PreviousHead) {
+		if params.Form == "TeXForm" {
+			return fmt.Sprintf("{(%d)}", thisInt.Val)
+		}
+		return fmt.Sprintf("(%d)", thisInt.Val)
+	}
 	return fmt.Sprintf("%d", thisInt.Val)
 }
 
diff --git a/expreduce/atoms/ex_string.go b/expreduce/atoms/ex_string.go
index f7743d3..67203c0 100644
--- a/expreduce/atoms/ex_string.go
+++ b/expreduce/atoms/ex_string.go
@@ -3,10 +3,20 @@ package atoms
 import (
 	"fmt"
 	"hash/fnv"
+	"strings"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
+// stringEscaper gives the escapes with which a string literal reads back.
+var stringEscaper = strings.NewReplacer(
+	"\\", "\\\\",
+	"\"", "\\\"",
+	"\n", "\\n",
+	"\t", "\\t",
+	"\r", "\\r",
+)
+
 type String struct {
 	Val string
 }
@@ -17,7 +27,7 @@ func (str *String) StringForm(params expreduceapi.ToStringParams) string {
 		params.Form == "StandardForm" {
 		return fmt.Sprintf("%v", str.Val)
 	}
-	return fmt.Sprintf("\"%v\"", str.Val)
+	return "\"" + stringEscaper.Replace(str.Val) + "\""
 }
 
 func (str *String) String() string {
diff --git a/expreduce/builtin_arithmetic.go b/expreduce/builtin_arithmetic.go
index ccae661..12fe5e6 100644
--- a/expreduce/builtin_arithmetic.go
+++ b/expreduce/builtin_arithmetic.go
@@ -151,13 +151,13 @@ func splitFrac(ex expreduceapi.Ex) (num expreduceapi.Ex, den expreduceapi.Ex) {
 		if !powIsInt {
 			return ex, nil
 		}
-		if powInt.Val.Int64() == -1 {
+		if powInt.Val.IsInt64() && powInt.Val.Int64() == -1 {
 			return nil, asPow.GetPart(1)
 		}
 	}
 	asRat, isRat := ex.(*atoms.Rational)
 	if isRat {
-		if asRat.Num.Int64() == 1 {
+		if asRat.Num.IsInt64() && asRat.Num.Int64() == 1 {
 			return nil, atoms.NewInteger(asRat.Den)
 		}
 		return atoms.NewInteger(asRat.Num), atoms.NewInteger(asRat.Den)
@@ -272,6 +272,9 @@ func getArithmeticDefinitions() (defs []Definition) {
 		Name:    "Times",
 		Default: "1",
 		toString: func(this expreduceapi.ExpressionInterface, params expreduceapi.ToStringParams) (bool, string) {
+			if len(this.GetParts()) < 3 {
+				return false, ""
+			}
 			delim := "*"
 			if params.Form == "TeXForm" {
 				delim = " "
@@ -307,30 +310,33 @@ func getArithmeticDefinitions() (defs []Definition) {
 					den.AppendEx(denPart)
 				}
 			}
-			if den.Len() > 0 {
+			if den.Len() > 0 && params.Form != "FullForm" {
+				fracParams := params
+				fracParams.PreviousHead = "<TOPLEVEL>"
 				numOk, numStr := toStringInfix(
 					num.GetParts()[1:],
 					delim,
 					"System`Times",
-					params,
+					fracParams,
 				)
 				if num.Len() == 1 {
-					numOk, numStr = true, num.GetPart(1).StringForm(params)
+					numOk, numStr = true, num.GetPart(1).StringForm(fracParams)
 				}
 				denOk, denStr := toStringInfix(
 					den.GetParts()[1:],
 					delim,
 					"System`Times",
-					params,
+					fracParams,
 				)
 				if den.Len() == 1 {
-					denOk, denStr = true, den.GetPart(1).StringForm(params)
+					denOk, denStr = true, den.GetPart(1).StringForm(fracParams)
 				}
 				if !numOk || !denOk {
 					return false, ""
 				}
 				prefix := ""
-				if strings.HasPrefix(numStr, "-1"+delim) {
+				if strings.HasPrefix(numStr, "-1"+delim) &&
+					!strings.HasPrefix(numStr, "-1"+delim+"-") {
 					prefix = "-"
 					numStr = numStr[3:]
 				}
@@ -342,10 +348,11 @@ func getArithmeticDefinitions() (defs []Definition) {
 						denStr,
 					)
 				}
-				if params.Form == "FullForm" {
-					return false, ""
+				res := fmt.Sprintf("%v(%v)/(%v)", prefix, numStr, denStr)
+				if parens.NeedsParens("System`Times", params.PreviousHead) {
+					res = "(" + res + ")"
 				}
-				return true, fmt.Sprintf("%v(%v)/(%v)", prefix, numStr, denStr)
+				return true, res
 			}
 			ok, res := toStringInfix(
 				num.GetParts()[1:],
@@ -356,7 +363,8 @@ func getArithmeticDefinitions() (defs []Definition) {
 			if !ok {
 				return false, ""
 			}
-			if strings.HasPrefix(res, "-1"+delim) {
+			if strings.HasPrefix(res, "-1"+delim) &&
+				!strings.HasPrefix(res, "-1"+delim+"-") {
 				return true, "-" + res[3:]
 			}
 			return true, res
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 4780baa..e6ddcb5 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -53,12 +53,17 @@ func toStringPart(
 	if params.Form == "FullForm" {
 		return false, ""
 	}
+	if len(this.GetParts()) < 3 {
+		return false, ""
+	}
 	subParams := params
 	subParams.PreviousHead = "<TOPLEVEL>"
+	headParams := params
+	headParams.PreviousHead = "<HEAD>"
 	var buffer bytes.Buffer
 	for i, e := range this.GetParts()[1:] {
 		if i == 0 {
-			buffer.WriteString(e.StringForm(params))
+			buffer.WriteString(e.StringForm(headParams))
 			buffer.WriteString("[[")
 		} else {
 			buffer.WriteString(e.StringForm(subParams))
diff --git a/expreduce/builtin_pattern.go b/expreduce/builtin_pattern.go
index 76df92a..9f90b82 100644
--- a/expreduce/builtin_pattern.go
+++ b/expreduce/builtin_pattern.go
@@ -19,6 +19,9 @@ func toStringBlankType(
 	if len(parts) == 1 {
 		return true, repr
 	} else if len(parts) == 2 {
+		if _, isSym := parts[1].(*atoms.Symbol); !isSym {
+			return false, ""
+		}
 		var buffer bytes.Buffer
 		buffer.WriteString(repr)
 		buffer.WriteString(parts[1].StringForm(params))
@@ -50,6 +53,9 @@ func getPatternDefinitions() (defs []Definition) {
 			if params.Form != "InputForm" && params.Form != "OutputForm" {
 				return false, ""
 			}
+			if _, isSym := this.GetParts()[1].(*atoms.Symbol); !isSym {
+				return false, ""
+			}
 			var buffer bytes.Buffer
 			_, blankOk := atoms.HeadAssertion(
 				this.GetParts()[2],
@@ -67,11 +73,20 @@ func getPatternDefinitions() (defs []Definition) {
 				buffer.WriteString(this.GetParts()[1].StringForm(params))
 				buffer.WriteString(this.GetParts()[2].StringForm(params))
 			} else {
+				subParams := params
+				subParams.PreviousHead = "<TOPLEVEL>"
+				addParens := params.PreviousHead != "<TOPLEVEL>"
+				if addParens {
+					buffer.WriteString("(")
+				}
 				buffer.WriteString("(")
-				buffer.WriteString(this.GetParts()[1].StringForm(params))
+				buffer.WriteString(this.GetParts()[1].StringForm(subParams))
 				buffer.WriteString(") : (")
-				buffer.WriteString(this.GetParts()[2].StringForm(params))
+				buffer.WriteString(this.GetParts()[2].StringForm(subParams))
 				buffer.WriteString(")")
+				if addParens {
+					buffer.WriteString(")")
+				}
 			}
 			return true, buffer.String()
 		},
diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index 95735fb..c2f600b 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -126,7 +126,7 @@ func getPowerDefinitions() (defs []Definition) {
 		Name:    "Power",
 		Default: "1",
 		toString: func(this expreduceapi.ExpressionInterface, params expreduceapi.ToStringParams) (bool, string) {
-			if this.Len() == 2 {
+			if this.Len() == 2 && params.Form != "FullForm" {
 				if atoms.IsSameQ(
 					this.GetPart(2),
 					atoms.NewRational(big.NewInt(1), big.NewInt(2)),
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 248f453..df3b16f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -119,6 +119,14 @@ func (es *EvalState) Init(loadAllDefs bool) {
 		es.MarkSeen("System`True")
 		es.MarkSeen("System`False")
 
+		// Symbols that operators or builtins use, but that have no definitions:
+		es.MarkSeen("System`$Aborted")
+		es.MarkSeen("System`Derivative")
+		es.MarkSeen("System`PatternSequence")
+		es.MarkSeen("System`RepeatedNull")
+		es.MarkSeen("System`TagSet")
+		es.MarkSeen("System`TagSetDelayed")
+
 		es.MarkSeen("System`InputForm")
 		es.MarkSeen("System`TeXForm")
 		es.MarkSeen("System`OutputForm")
diff --git a/expreduce/parser/parens/parens.go b/expreduce/parser/parens/parens.go
index 61f2d58..099cc88 100644
--- a/expreduce/parser/parens/parens.go
+++ b/expreduce/parser/parens/parens.go
@@ -4,36 +4,36 @@ import "modernc.org/wl"
 
 var headsToTokens = map[string]int{
 	"System`Alternatives":       124,
-	"System`And":                57347,
-	"System`Apply":              57348,
+	"System`And":                wl.AND,
+	"System`Apply":              wl.APPLY,
 	"System`CompoundExpression": 59,
-	"System`Condition":          57359,
+	"System`Condition":          wl.CONDITION,
 	"System`Dot":                46,
-	"System`Equal":              57380,
-	"System`Factorial":          33,
+	"System`Equal":              wl.EQUAL,
+	"System`Factorial":          wl.FACTORIAL,
 	"System`Function":           38,
 	"System`Greater":            62,
-	"System`GreaterEqual":       57388,
+	"System`GreaterEqual":       wl.GEQ,
 	"System`Less":               60,
-	"System`LessEqual":          57399,
-	"System`Map":                57401,
+	"System`LessEqual":          wl.LEQ,
+	"System`Map":                wl.MAP,
 	"System`Not":                33,
-	"System`Or":                 57412,
+	"System`Or":                 wl.OR,
 	"System`PatternTest":        63,
 	"System`Plus":               43,
 	"System`Power":              94,
-	"System`ReplaceAll":         57428,
-	"System`ReplaceRepeated":    57429,
-	"System`Rule":               57433,
-	"System`RuleDelayed":        57434,
-	"System`SameQ":              57435,
+	"System`ReplaceAll":         wl.REPLACEALL,
+	"System`ReplaceRepeated":    wl.REPLACEREP,
+	"System`Rule":               wl.RULE,
+	"System`RuleDelayed":        wl.RULEDELAYED,
+	"System`SameQ":              wl.SAME,
 	"System`Set":                61,
-	"System`SetDelayed":         57436,
-	"System`Span":               57439,
-	"System`StringJoin":         57445,
+	"System`SetDelayed":         wl.SET_DELAYED,
+	"System`Span":               wl.SPAN,
+	"System`StringJoin":         wl.STRINGJOIN,
 	"System`Times":              42,
-	"System`Unequal":            57462,
-	"System`UnsameQ":            57464,
+	"System`Unequal":            wl.UNEQUAL,
+	"System`UnsameQ":            wl.UNSAME,
 }
 
 func NeedsParens(thisHead string, PreviousHead string) bool {
-- 
2.43.0


From 434102b875ec3010def0d6488cdd64a4841a23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 038/100] fix: an escaped backslash in a string is read
 whatever follows it

---
 expreduce/parser/interp.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 9547634..34a7c56 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -545,14 +545,32 @@ var escape = regexp.MustCompile(
 
 const byteOrderMark = '\ufeff'
 
+// The scanner takes the second character of an escaped backslash for the start
+// of an escaped character. The codes of the two are not mistaken.
+const (
+	escapedBackslash = `\\`
+	backslashCodes   = `\:005c\:005c`
+)
+
 type inputReader struct {
 	buf        *bytes.Buffer
+	codes      string
 	started    bool
 	inEscape   bool
 	readsAtEnd int
 }
 
 func (r *inputReader) ReadRune() (rune, int, error) {
+	if r.codes == "" && bytes.HasPrefix(r.buf.Bytes(), []byte(escapedBackslash)) {
+		r.buf.Next(len(escapedBackslash))
+		r.started = true
+		r.codes = backslashCodes
+	}
+	if r.codes != "" {
+		c := rune(r.codes[0])
+		r.codes = r.codes[1:]
+		return c, 1, nil
+	}
 	if !r.inEscape {
 		if esc := escape.Find(r.buf.Bytes()); esc != nil {
 			checkEscape(string(esc))
-- 
2.43.0


From de44ff96b5c610f3ec502671bb23ce31adfae8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 039/100] fix: optional patterns, negative integers and joined
 strings are printed so that they read back

---
 expreduce/atoms/ex_integer.go |  2 +-
 expreduce/builtin_pattern.go  | 13 +++++++++++++
 expreduce/builtin_string.go   |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index b0dd5b8..ccc5e09 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -22,7 +22,7 @@ type Integer struct {
 func (thisInt *Integer) StringForm(params expreduceapi.ToStringParams) string {
 	// A minus sign binds as tightly as a product.
 	if thisInt.Val.Sign() < 0 &&
-		params.PreviousHead != "System`Times" &&
+		params.PreviousHead != "" && params.PreviousHead != "System`Times" &&
 		parens.NeedsParens("System`Times", params.PreviousHead) {
 		if params.Form == "TeXForm" {
 			return fmt.Sprintf("{(%d)}", thisInt.Val)
diff --git a/expreduce/builtin_pattern.go b/expreduce/builtin_pattern.go
index 9f90b82..5064b02 100644
--- a/expreduce/builtin_pattern.go
+++ b/expreduce/builtin_pattern.go
@@ -169,6 +169,19 @@ func getPatternDefinitions() (defs []Definition) {
 			if params.Form != "InputForm" && params.Form != "OutputForm" {
 				return false, ""
 			}
+			// Only blanks, named or not, can be followed by a period.
+			blank := this.GetParts()[1]
+			if pat, isPat := atoms.HeadAssertion(blank, "System`Pattern"); isPat &&
+				len(pat.GetParts()) == 3 {
+				if _, isSym := pat.GetParts()[1].(*atoms.Symbol); !isSym {
+					return false, ""
+				}
+				blank = pat.GetParts()[2]
+			}
+			if asBlank, isBlank := atoms.HeadAssertion(blank, "System`Blank"); !isBlank ||
+				len(asBlank.GetParts()) != 1 {
+				return false, ""
+			}
 			var buffer bytes.Buffer
 			buffer.WriteString(this.GetParts()[1].StringForm(params))
 			buffer.WriteString(".")
diff --git a/expreduce/builtin_string.go b/expreduce/builtin_string.go
index 6b69641..905aadb 100644
--- a/expreduce/builtin_string.go
+++ b/expreduce/builtin_string.go
@@ -46,7 +46,7 @@ func getStringDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "StringJoin",
 		toString: func(this expreduceapi.ExpressionInterface, params expreduceapi.ToStringParams) (bool, string) {
-			return toStringInfix(this.GetParts()[1:], " <> ", "", params)
+			return toStringInfix(this.GetParts()[1:], " <> ", "System`StringJoin", params)
 		},
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
 			toReturn := ""
-- 
2.43.0


From a25b957b80d9e34e19434ec20b414a0ebedfe200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 040/100] fix: the raw terminal session does not lose lines
 that were read ahead

---
 expreduce.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce.go b/expreduce.go
index cb2994f..d7fe0cb 100644
--- a/expreduce.go
+++ b/expreduce.go
@@ -124,12 +124,12 @@ func interactiveSession(es *expreduce.EvalState) {
 	}
 	defer rl.Close()
 
+	reader := bufio.NewReader(os.Stdin)
 	promptNum := 1
 	for {
 		line := ""
 		var err error
 		if *rawterm {
-			reader := bufio.NewReader(os.Stdin)
 			fmt.Printf("In[%d]:= ", promptNum)
 			line, err = reader.ReadString('\n')
 		} else {
-- 
2.43.0


From ed5e64a98b3cb9df2c9c95bbbb5b08061f08102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 041/100] fix: names resolve along the current context and the
 path; nested Begin and BeginPackage restore what they found; shadowed and
 nested names are printed in full

---
 expreduce/atoms/ex_symbol.go | 37 ++++++++++++++++++++++++++++++------
 expreduce/parser/interp.go   |  8 +++++++-
 expreduce/resources.go       | 27 +++++++++++++-------------
 expreduce/resources/system.m | 27 +++++++++++++-------------
 4 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/expreduce/atoms/ex_symbol.go b/expreduce/atoms/ex_symbol.go
index fd32cc9..df3b022 100644
--- a/expreduce/atoms/ex_symbol.go
+++ b/expreduce/atoms/ex_symbol.go
@@ -47,18 +47,43 @@ func (sym *Symbol) StringForm(params expreduceapi.ToStringParams) string {
 	if len(sym.Name) == 0 {
 		return "<EMPTYSYM>"
 	}
-	if strings.HasPrefix(sym.Name, params.Context.GetValue()) {
-		return formatSymName(sym.Name[len(params.Context.GetValue()):], params)
-	}
+	contexts := []string{params.Context.GetValue()}
 	for _, pathPart := range params.ContextPath.GetParts()[1:] {
-		path := pathPart.(*String).Val
-		if strings.HasPrefix(sym.Name, path) {
-			return formatSymName(sym.Name[len(path):], params)
+		contexts = append(contexts, pathPart.(*String).Val)
+	}
+	for i, context := range contexts {
+		if !strings.HasPrefix(sym.Name, context) {
+			continue
+		}
+		short := sym.Name[len(context):]
+		if !strings.Contains(short, "`") &&
+			!isShadowed(short, sym.Name, contexts[:i], params) {
+			return formatSymName(short, params)
 		}
 	}
 	return formatSymName(sym.Name, params)
 }
 
+// isShadowed tells whether a short name stands for another symbol because one
+// of that name exists in a context that is searched earlier.
+func isShadowed(
+	short string,
+	full string,
+	earlier []string,
+	params expreduceapi.ToStringParams,
+) bool {
+	if params.Esi == nil {
+		return false
+	}
+	for _, context := range earlier {
+		if _, isDef := params.Esi.GetDefined(context + short); isDef &&
+			context+short != full {
+			return true
+		}
+	}
+	return false
+}
+
 func (sym *Symbol) String() string {
 	return sym.StringForm(defaultStringParams())
 }
diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 34a7c56..e56b9ca 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -100,7 +100,13 @@ func addContextAndDefine(
 	esfp evalStateForParser,
 ) {
 	if sym, isSym := e.(*atoms.Symbol); isSym {
-		if !strings.Contains(sym.Name, "`") {
+		if strings.HasPrefix(sym.Name, "`") {
+			sym.Name = context + sym.Name[1:]
+		} else if !strings.Contains(sym.Name, "`") {
+			if esfp.IsDef(context + sym.Name) {
+				sym.Name = context + sym.Name
+				return
+			}
 			for _, toTry := range contextPath {
 				if esfp.IsDef(toTry + sym.Name) {
 					sym.Name = toTry + sym.Name
diff --git a/expreduce/resources.go b/expreduce/resources.go
index bfe0706..3430289 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -55408,41 +55408,40 @@ Attributes[Hash] = {Protected};
 BeginPackage::usage = "`+"`"+`BeginPackage[context]`+"`"+` updates the context and sets the context path to only the current context and System.";
 Attributes[BeginPackage] = {Protected};
 BeginPackage[c_String] := (
-    $ExpreduceOldContext = $Context;
+    $ExpreducePackages = Prepend[$ExpreducePackages, {c, $Context, $ContextPath}];
     $Context = c;
-    $ExpreduceOldContextPath = $ContextPath;
     $ContextPath = {c, "System`+"`"+`"};
-
-    $ExpreducePkgContext = c;
 );
+$ExpreducePackages = {};
 
 EndPackage::usage = "`+"`"+`EndPackage[]`+"`"+` resets the contexts to the original values, but with the package context prepended.";
 Attributes[EndPackage] = {Protected};
-EndPackage[] := (
-    $Context = $ExpreduceOldContext;
-    $ExpreduceOldContext = Null;
-    $ContextPath = Prepend[$ExpreduceOldContextPath, $ExpreducePkgContext];
-    $ExpreduceOldContextPath = Null;
-
-    $ExpreducePkgContext = Null;
-);
+EndPackage[] := If[$ExpreducePackages =!= {},
+    $Context = $ExpreducePackages[[1, 2]];
+    $ContextPath = Prepend[$ExpreducePackages[[1, 3]], $ExpreducePackages[[1, 1]]];
+    $ExpreducePackages = Rest[$ExpreducePackages];
+];
 
 Begin::usage = "`+"`"+`Begin[context]`+"`"+` updates the context.";
 Attributes[Begin] = {Protected};
 Begin[c_String] := (
-    $ExpreduceOldContext2 = $Context;
+    $ExpreduceContexts = Prepend[$ExpreduceContexts, $Context];
     If[StringTake[c, {1, 1}] == "`+"`"+`",
         $Context = $Context <> StringTake[c, {2, StringLength[c]}],
         $Context = c
     ];
     $Context
 );
+$ExpreduceContexts = {};
 
 End::usage = "`+"`"+`End[]`+"`"+` updates the context to rever the changes caused by `+"`"+`Begin`+"`"+`.";
 Attributes[End] = {Protected};
 End[] := (
     expreduceToReturn = $Context;
-    $Context = $ExpreduceOldContext2;
+    If[$ExpreduceContexts =!= {},
+        $Context = First[$ExpreduceContexts];
+        $ExpreduceContexts = Rest[$ExpreduceContexts]
+    ];
     expreduceToReturn
 );
 
diff --git a/expreduce/resources/system.m b/expreduce/resources/system.m
index d6c6a1f..7b6ce41 100644
--- a/expreduce/resources/system.m
+++ b/expreduce/resources/system.m
@@ -155,41 +155,40 @@ Attributes[Hash] = {Protected};
 BeginPackage::usage = "`BeginPackage[context]` updates the context and sets the context path to only the current context and System.";
 Attributes[BeginPackage] = {Protected};
 BeginPackage[c_String] := (
-    $ExpreduceOldContext = $Context;
+    $ExpreducePackages = Prepend[$ExpreducePackages, {c, $Context, $ContextPath}];
     $Context = c;
-    $ExpreduceOldContextPath = $ContextPath;
     $ContextPath = {c, "System`"};
-
-    $ExpreducePkgContext = c;
 );
+$ExpreducePackages = {};
 
 EndPackage::usage = "`EndPackage[]` resets the contexts to the original values, but with the package context prepended.";
 Attributes[EndPackage] = {Protected};
-EndPackage[] := (
-    $Context = $ExpreduceOldContext;
-    $ExpreduceOldContext = Null;
-    $ContextPath = Prepend[$ExpreduceOldContextPath, $ExpreducePkgContext];
-    $ExpreduceOldContextPath = Null;
-
-    $ExpreducePkgContext = Null;
-);
+EndPackage[] := If[$ExpreducePackages =!= {},
+    $Context = $ExpreducePackages[[1, 2]];
+    $ContextPath = Prepend[$ExpreducePackages[[1, 3]], $ExpreducePackages[[1, 1]]];
+    $ExpreducePackages = Rest[$ExpreducePackages];
+];
 
 Begin::usage = "`Begin[context]` updates the context.";
 Attributes[Begin] = {Protected};
 Begin[c_String] := (
-    $ExpreduceOldContext2 = $Context;
+    $ExpreduceContexts = Prepend[$ExpreduceContexts, $Context];
     If[StringTake[c, {1, 1}] == "`",
         $Context = $Context <> StringTake[c, {2, StringLength[c]}],
         $Context = c
     ];
     $Context
 );
+$ExpreduceContexts = {};
 
 End::usage = "`End[]` updates the context to rever the changes caused by `Begin`.";
 Attributes[End] = {Protected};
 End[] := (
     expreduceToReturn = $Context;
-    $Context = $ExpreduceOldContext2;
+    If[$ExpreduceContexts =!= {},
+        $Context = First[$ExpreduceContexts];
+        $ExpreduceContexts = Rest[$ExpreduceContexts]
+    ];
     expreduceToReturn
 );
 
-- 
2.43.0


From 500b478037125eddb336725a514c096ea5afee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 042/100] fix: iterators count down, include a bound of another
 number type, stop at a throw and restore every definition of their variable;
 n copies for evaluated counts

---
 expreduce/atoms/order.go         | 49 ++++++++++++++++--------
 expreduce/builtin_flowcontrol.go |  2 +-
 expreduce/builtin_functional.go  |  2 +-
 expreduce/builtin_list.go        |  5 ++-
 expreduce/iterspec/iterspec.go   | 64 ++++++++++++++++++++++----------
 5 files changed, 85 insertions(+), 37 deletions(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index 55e4418..c8e61ca 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -65,38 +65,57 @@ func numberKind(e expreduceapi.Ex) int {
 	return 3
 }
 
-// numberOrder orders two numbers by their real part, then by their imaginary
-// part, and then by their type. It returns zero for identical numbers only.
-func numberOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
-	aRe, aIm := a, expreduceapi.Ex(NewInt(0))
-	if aAsComplex, isComplex := a.(*Complex); isComplex {
-		aRe, aIm = aAsComplex.Re, aAsComplex.Im
+// numberParts returns the real part and the imaginary part of a number.
+func numberParts(e expreduceapi.Ex) (expreduceapi.Ex, expreduceapi.Ex) {
+	if asComplex, isComplex := e.(*Complex); isComplex {
+		return asComplex.Re, asComplex.Im
 	}
-	bRe, bIm := b, expreduceapi.Ex(NewInt(0))
-	if bAsComplex, isComplex := b.(*Complex); isComplex {
-		bRe, bIm = bAsComplex.Re, bAsComplex.Im
+	return e, NewInt(0)
+}
+
+// NumberCmp compares the values of two numbers of any types. It returns -1 if
+// a < b, 0 if both are equal and +1 if a > b. Complex numbers are compared by
+// their real part and then by their imaginary part.
+func NumberCmp(a expreduceapi.Ex, b expreduceapi.Ex) int {
+	aAsInteger, aIsInteger := a.(*Integer)
+	bAsInteger, bIsInteger := b.(*Integer)
+	if aIsInteger && bIsInteger {
+		return aAsInteger.Val.Cmp(bAsInteger.Val)
 	}
+	aRe, aIm := numberParts(a)
+	bRe, bIm := numberParts(b)
 	for _, pair := range [][2]expreduceapi.Ex{{aRe, bRe}, {aIm, bIm}} {
 		aVal, aOk := realValue(pair[0])
 		bVal, bOk := realValue(pair[1])
 		if aOk && bOk {
-			if cmp := bVal.Cmp(aVal); cmp != 0 {
-				return int64(cmp)
+			if cmp := aVal.Cmp(bVal); cmp != 0 {
+				return cmp
 			}
 			continue
 		}
 		aFlt, aIsFlt := pair[0].(*Flt)
 		bFlt, bIsFlt := pair[1].(*Flt)
 		if aIsFlt && bIsFlt {
-			if cmp := bFlt.Val.Cmp(aFlt.Val); cmp != 0 {
-				return int64(cmp)
+			if cmp := aFlt.Val.Cmp(bFlt.Val); cmp != 0 {
+				return cmp
 			}
 		} else if aIsFlt && bOk {
-			return int64(-aFlt.Val.Sign())
+			return aFlt.Val.Sign()
 		} else if bIsFlt && aOk {
-			return int64(bFlt.Val.Sign())
+			return -bFlt.Val.Sign()
 		}
 	}
+	return 0
+}
+
+// numberOrder orders two numbers by their real part, then by their imaginary
+// part, and then by their type. It returns zero for identical numbers only.
+func numberOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
+	if cmp := NumberCmp(a, b); cmp != 0 {
+		return int64(-cmp)
+	}
+	aRe, aIm := numberParts(a)
+	bRe, bIm := numberParts(b)
 	for _, pair := range [][2]expreduceapi.Ex{{a, b}, {aRe, bRe}, {aIm, bIm}} {
 		aKind, bKind := numberKind(pair[0]), numberKind(pair[1])
 		if aKind < bKind {
diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index dc10b05..79255e9 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -185,6 +185,7 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if isOk {
 					// Simulate evaluation within Block[]
 					mis.TakeVarSnapshot(es)
+					defer mis.RestoreVarSnapshot(es)
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						res := es.Eval(this.GetParts()[1].DeepCopy())
@@ -199,7 +200,6 @@ func getFlowControlDefinitions() (defs []Definition) {
 						}
 						mis.Next()
 					}
-					mis.RestoreVarSnapshot(es)
 					return atoms.NewSymbol("System`Null")
 				}
 			}
diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index 975d537..c8da3c5 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -793,7 +793,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 				}
 				return toReturn
 			}
-			return this.GetParts()[2]
+			return this
 		},
 	})
 	defs = append(defs, Definition{
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index e6ddcb5..993a0ac 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -276,15 +276,18 @@ func getListDefinitions() (defs []Definition) {
 				if isOk {
 					// Simulate evaluation within Block[]
 					mis.TakeVarSnapshot(es)
+					defer mis.RestoreVarSnapshot(es)
 					toReturn := atoms.NewExpression(
 						[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
 					)
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						toReturn.AppendEx(es.Eval(this.GetPart(1).DeepCopy()))
+						if es.HasThrown() {
+							return es.Thrown()
+						}
 						mis.Next()
 					}
-					mis.RestoreVarSnapshot(es)
 					return toReturn
 				}
 			}
diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 65931eb..c07b620 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -25,7 +25,10 @@ type iterSpecRange struct {
 	iMax  expreduceapi.Ex
 	step  expreduceapi.Ex
 	curr  expreduceapi.Ex
-	es    expreduceapi.EvalStateInterface
+	// Whether the step is negative.
+	isDescending bool
+
+	es expreduceapi.EvalStateInterface
 }
 
 type iterSpecList struct {
@@ -60,6 +63,12 @@ func SpecFromList(
 	isl := &iterSpecList{}
 
 	listEx = evalIterSpecCandidate(es, listEx)
+	// A number of iterations, without a variable of iteration.
+	if count, isInt := listEx.(*atoms.Integer); isInt {
+		isr.iMin, isr.iMax, isr.step = atoms.NewInt(1), count, atoms.NewInt(1)
+		isr.reset()
+		return isr, true
+	}
 	list, isList := atoms.HeadAssertion(listEx, "System`List")
 	if isList {
 		iOk, iMinOk, iMaxOk, stepOk := false, false, false, false
@@ -93,7 +102,13 @@ func SpecFromList(
 			isr.iMax, iMaxOk = tryIterParam(list.GetParts()[3])
 			isr.step, stepOk = tryIterParam(list.GetParts()[4])
 		}
-		if iOk && iMinOk && iMaxOk && stepOk {
+		stepSign := 0
+		if stepOk {
+			stepSign = atoms.NumberCmp(isr.step, atoms.NewInt(0))
+		}
+		// No number of steps of zero gets to the end of the range.
+		if iOk && iMinOk && iMaxOk && stepSign != 0 {
+			isr.isDescending = stepSign < 0
 			isr.reset()
 			return isr, true
 		}
@@ -130,7 +145,10 @@ func (isr *iterSpecRange) Next() {
 }
 
 func (isr *iterSpecRange) Cont() bool {
-	return atoms.ExOrder(isr.curr, isr.iMax) >= 0
+	if isr.isDescending {
+		return atoms.NumberCmp(isr.curr, isr.iMax) >= 0
+	}
+	return atoms.NumberCmp(isr.curr, isr.iMax) <= 0
 }
 
 func (isr *iterSpecRange) GetCurr() expreduceapi.Ex {
@@ -171,8 +189,7 @@ func (isl *iterSpecList) getIName() string {
 
 type MultiIterSpec struct {
 	iSpecs     []IterSpec
-	origDefs   []expreduceapi.Ex
-	isOrigDefs []bool
+	origDefs   map[string][]expreduceapi.DownValue
 	shouldCont bool
 }
 
@@ -209,12 +226,16 @@ func (mis *MultiIterSpec) Cont() bool {
 }
 
 func (mis *MultiIterSpec) TakeVarSnapshot(es expreduceapi.EvalStateInterface) {
-	mis.origDefs = make([]expreduceapi.Ex, len(mis.iSpecs))
-	mis.isOrigDefs = make([]bool, len(mis.iSpecs))
+	mis.origDefs = make(map[string][]expreduceapi.DownValue)
 	for i := range mis.iSpecs {
-		mis.origDefs[i], mis.isOrigDefs[i], _ = es.GetDef(
-			mis.iSpecs[i].getIName(),
-			mis.iSpecs[i].getI(),
+		name := mis.iSpecs[i].getIName()
+		if name == "" {
+			continue
+		}
+		def, _ := es.GetDefined(name)
+		mis.origDefs[name] = append(
+			[]expreduceapi.DownValue{},
+			def.Downvalues...,
 		)
 	}
 }
@@ -222,25 +243,27 @@ func (mis *MultiIterSpec) TakeVarSnapshot(es expreduceapi.EvalStateInterface) {
 func (mis *MultiIterSpec) RestoreVarSnapshot(
 	es expreduceapi.EvalStateInterface,
 ) {
-	for i := range mis.iSpecs {
-		if mis.isOrigDefs[i] {
-			es.Define(mis.iSpecs[i].getI(), mis.origDefs[i])
-		} else {
-			es.Clear(mis.iSpecs[i].getIName())
-		}
+	for name, downvalues := range mis.origDefs {
+		def, _ := es.GetDefined(name)
+		def.Downvalues = downvalues
+		es.SetDefined(name, def)
 	}
 }
 
 func (mis *MultiIterSpec) DefineCurrent(es expreduceapi.EvalStateInterface) {
 	for i := range mis.iSpecs {
-		es.Define(mis.iSpecs[i].getI(), mis.iSpecs[i].GetCurr())
+		if mis.iSpecs[i].getIName() != "" {
+			es.Define(mis.iSpecs[i].getI(), mis.iSpecs[i].GetCurr())
+		}
 	}
 }
 
 func (mis *MultiIterSpec) CurrentPDManager() *matcher.PDManager {
 	pm := matcher.EmptyPD()
 	for i := range mis.iSpecs {
-		pm.Define(mis.iSpecs[i].getIName(), mis.iSpecs[i].GetCurr())
+		if mis.iSpecs[i].getIName() != "" {
+			pm.Define(mis.iSpecs[i].getIName(), mis.iSpecs[i].GetCurr())
+		}
 	}
 	return pm
 }
@@ -256,15 +279,18 @@ func EvalIterationFunc(
 		if isOk {
 			// Simulate evaluation within Block[]
 			mis.TakeVarSnapshot(es)
+			defer mis.RestoreVarSnapshot(es)
 			var toReturn expreduceapi.Ex = init
 			for mis.Cont() {
 				mis.DefineCurrent(es)
 				toReturn = es.Eval(
 					(atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol(op), toReturn, es.Eval(expr.GetParts()[1].DeepCopy())})),
 				)
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				mis.Next()
 			}
-			mis.RestoreVarSnapshot(es)
 			return toReturn
 		}
 	}
-- 
2.43.0


From 6ed255f322e60959ed10cdfb5627f148c63d27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 043/100] fix: the attributes of the evaluated head govern the
 arguments; Evaluate in held arguments is evaluated in order; HoldAllComplete
 keeps Unevaluated

---
 expreduce/eval.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 946524d..951c216 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -127,14 +127,18 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		}
 		owned := false
 		for i := range curr.GetParts() {
-			if headIsSym && i == 1 && attrs.HoldFirst {
+			if i > 0 && attrs.HoldAllComplete {
 				continue
 			}
-			if headIsSym && i > 1 && attrs.HoldRest {
-				continue
-			}
-			if headIsSym && (attrs.HoldAll || attrs.HoldAllComplete) {
-				continue
+			if (i == 1 && attrs.HoldFirst) || (i > 1 && attrs.HoldRest) ||
+				(i > 0 && attrs.HoldAll) {
+				_, isEvaluate := atoms.HeadAssertion(
+					curr.GetParts()[i],
+					"System`Evaluate",
+				)
+				if !isEvaluate {
+					continue
+				}
 			}
 
 			// Handle tracing
@@ -165,6 +169,15 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 					curr.CachedHash = 0
 				}
 			}
+			if i == 0 && newPart != oldPart {
+				// The attributes of the evaluated head apply to the arguments.
+				attrs = expreduceapi.Attributes{}
+				headSym, headIsSym = newPart.(*atoms.Symbol)
+				if headIsSym {
+					es.defined.lookUp(headSym.Name)
+					attrs = headSym.Attrs(es.GetDefinedMap())
+				}
+			}
 			if es.GetTrace() != nil && !es.IsFrozen() {
 				if len(es.GetTrace().GetParts()) > 2 {
 					// The DeepCopy here doesn't seem to affect anything, but
@@ -202,8 +215,8 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		}
 		if !attrs.HoldAllComplete {
 			curr = mergeSequences(curr, es, "System`Evaluate", true)
+			curr = mergeSequences(curr, es, "System`Unevaluated", false)
 		}
-		curr = mergeSequences(curr, es, "System`Unevaluated", false)
 		// In case curr changed
 		currEx = curr
 
-- 
2.43.0


From f1d28d6aa33989d21412a37446e737fa4724446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 044/100] fix: Flat flattens held calls at every level before
 lists are threaded over

---
 expreduce/eval.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 951c216..719fbcf 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -226,7 +226,12 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		)
 		if headIsSym {
 			if attrs.Flat {
-				curr = mergeSequences(curr, es, headSym.Name, false)
+				// Held calls may be nested several levels deep.
+				merged := mergeSequences(curr, es, headSym.Name, false)
+				for merged != curr {
+					curr = merged
+					merged = mergeSequences(curr, es, headSym.Name, false)
+				}
 				currEx = curr
 			}
 			if attrs.Orderless && !sort.IsSorted(curr) {
-- 
2.43.0


From 38cbd0ec1ce904529b9c77f509c951ee09c92375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 045/100] fix: With evaluates its values; substituted values
 keep out of inner scopes; functions of several named parameters

---
 expreduce/atoms/substitute.go    | 166 +++++++++++++++++++++++++++++++
 expreduce/builtin_flowcontrol.go |  45 +++++----
 expreduce/eval.go                |  78 +++------------
 expreduce/matcher/pdreplace.go   |  48 +--------
 4 files changed, 206 insertions(+), 131 deletions(-)
 create mode 100644 expreduce/atoms/substitute.go

diff --git a/expreduce/atoms/substitute.go b/expreduce/atoms/substitute.go
new file mode 100644
index 0000000..1ce1687
--- /dev/null
+++ b/expreduce/atoms/substitute.go
@@ -0,0 +1,166 @@
+package atoms
+
+import "github.com/corywalker/expreduce/pkg/expreduceapi"
+
+// Substitute replaces symbols of an expression by their values in params, and
+// its slots by the corresponding elements of slots. Neither reaches the names
+// and slots that belong to a scoping construct inside of the expression, and no
+// symbol in a value comes to stand for a local variable of such a construct.
+func Substitute(
+	body expreduceapi.Ex,
+	params map[string]expreduceapi.Ex,
+	slots []expreduceapi.Ex,
+) expreduceapi.Ex {
+	if sym, isSym := body.(*Symbol); isSym {
+		if value, isParam := params[sym.Name]; isParam {
+			return value
+		}
+		return body
+	}
+	expr, isExpr := body.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return body
+	}
+	if slot, isSlot := HeadAssertion(expr, "System`Slot"); isSlot {
+		if len(slot.GetParts()) == 2 {
+			n, isInt := slot.GetParts()[1].(*Integer)
+			if isInt && n.Val.IsInt64() {
+				i := n.Val.Int64()
+				if 1 <= i && i <= int64(len(slots)) {
+					return slots[i-1]
+				}
+			}
+		}
+	}
+	inner, isFunction := HeadAssertion(expr, "System`Function")
+	if isFunction && len(inner.GetParts()) == 2 {
+		slots = nil
+	}
+	locals := localVariables(expr)
+	if len(locals) > 0 {
+		return substituteInScope(expr, locals, params, slots)
+	}
+	return substituteParts(expr, func(i int, part expreduceapi.Ex) expreduceapi.Ex {
+		return Substitute(part, params, slots)
+	})
+}
+
+func substituteParts(
+	expr expreduceapi.ExpressionInterface,
+	substitute func(int, expreduceapi.Ex) expreduceapi.Ex,
+) expreduceapi.Ex {
+	res := NewEmptyExpression()
+	changed := false
+	for i, part := range expr.GetParts() {
+		newPart := substitute(i, part)
+		if newPart != part {
+			changed = true
+		}
+		res.AppendEx(newPart)
+	}
+	if !changed {
+		return expr
+	}
+	return res
+}
+
+// localVariables returns the names that a scoping construct introduces.
+func localVariables(expr expreduceapi.ExpressionInterface) []string {
+	parts := expr.GetParts()
+	if len(parts) < 3 {
+		return nil
+	}
+	head, headIsSym := parts[0].(*Symbol)
+	if !headIsSym {
+		return nil
+	}
+	isFunction := head.Name == "System`Function"
+	if !isFunction && head.Name != "System`Module" && head.Name != "System`With" {
+		return nil
+	}
+	candidates := []expreduceapi.Ex{}
+	if list, isList := HeadAssertion(parts[1], "System`List"); isList {
+		candidates = list.GetParts()[1:]
+	} else if isFunction {
+		candidates = parts[1:2]
+	}
+	var names []string
+	for _, candidate := range candidates {
+		local, _ := localAndValue(candidate)
+		if sym, isSym := local.(*Symbol); isSym {
+			names = append(names, sym.Name)
+		}
+	}
+	return names
+}
+
+// localAndValue splits the specification of a local variable, such as x = 2.
+func localAndValue(spec expreduceapi.Ex) (expreduceapi.Ex, expreduceapi.Ex) {
+	set, isSet := HeadAssertion(spec, "System`Set")
+	if !isSet {
+		set, isSet = HeadAssertion(spec, "System`SetDelayed")
+	}
+	if isSet && len(set.GetParts()) == 3 {
+		return set.GetParts()[1], set.GetParts()[2]
+	}
+	return spec, nil
+}
+
+func substituteInScope(
+	expr expreduceapi.ExpressionInterface,
+	locals []string,
+	params map[string]expreduceapi.Ex,
+	slots []expreduceapi.Ex,
+) expreduceapi.Ex {
+	inScope := make(map[string]expreduceapi.Ex)
+	for name, value := range params {
+		inScope[name] = value
+	}
+	for _, local := range locals {
+		delete(inScope, local)
+	}
+	// Rename the local variables that values inserted into their scope contain.
+	inserted := append([]expreduceapi.Ex{}, slots...)
+	for name, value := range inScope {
+		if ContainsSymbol(expr, name) {
+			inserted = append(inserted, value)
+		}
+	}
+	isUsed := func(name string) bool {
+		for _, value := range inserted {
+			if ContainsSymbol(value, name) {
+				return true
+			}
+		}
+		return false
+	}
+	for _, local := range locals {
+		if isUsed(local) {
+			fresh := local + "$"
+			for isUsed(fresh) || ContainsSymbol(expr, fresh) {
+				fresh += "$"
+			}
+			inScope[local] = NewSymbol(fresh)
+		}
+	}
+
+	return substituteParts(expr, func(i int, part expreduceapi.Ex) expreduceapi.Ex {
+		list, isList := HeadAssertion(part, "System`List")
+		if i != 1 || !isList {
+			return Substitute(part, inScope, slots)
+		}
+		// The initial values of local variables are outside of their scope.
+		return substituteParts(list, func(j int, spec expreduceapi.Ex) expreduceapi.Ex {
+			if _, value := localAndValue(spec); value == nil {
+				return Substitute(spec, inScope, slots)
+			}
+			setting := spec.(expreduceapi.ExpressionInterface)
+			return substituteParts(setting, func(k int, p expreduceapi.Ex) expreduceapi.Ex {
+				if k == 2 {
+					return Substitute(p, params, slots)
+				}
+				return Substitute(p, inScope, slots)
+			})
+		})
+	})
+}
diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 79255e9..06811e7 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -18,35 +18,36 @@ func applyWithFn(
 	if !isList {
 		return nil, false
 	}
-	rules := []expreduceapi.ExpressionInterface{}
+	values := make(map[string]expreduceapi.Ex)
 	for _, vDef := range vars.GetParts()[1:] {
-		set, isSet := atoms.HeadAssertion(vDef, "System`Set")
-		setDelayed, isSetDelayed := atoms.HeadAssertion(
-			vDef,
-			"System`SetDelayed",
-		)
-		if !(isSet || isSetDelayed) {
-			return nil, false
-		}
-		var setEx expreduceapi.ExpressionInterface
-		ruleHead := ""
-		if isSet {
-			setEx = set
-			ruleHead = "System`Rule"
-		} else {
+		setEx, isSet := atoms.HeadAssertion(vDef, "System`Set")
+		if !isSet {
+			setDelayed, isSetDelayed := atoms.HeadAssertion(
+				vDef,
+				"System`SetDelayed",
+			)
+			if !isSetDelayed {
+				return nil, false
+			}
 			setEx = setDelayed
-			ruleHead = "System`RuleDelayed"
 		}
 		if len(setEx.GetParts()) != 3 {
 			return nil, false
 		}
-		rules = append(rules, atoms.NewExpression([]expreduceapi.Ex{
-			atoms.NewSymbol(ruleHead),
-			setEx.GetParts()[1],
-			setEx.GetParts()[2],
-		}))
+		sym, isSym := setEx.GetParts()[1].(*atoms.Symbol)
+		if !isSym {
+			return nil, false
+		}
+		value := setEx.GetParts()[2]
+		if isSet {
+			value = es.Eval(value)
+			if es.HasThrown() {
+				return es.Thrown(), true
+			}
+		}
+		values[sym.Name] = value
 	}
-	return replaceAll(e.GetParts()[2], rules, es), true
+	return atoms.Substitute(e.GetParts()[2], values, nil), true
 }
 
 func isBreak(e expreduceapi.Ex) bool {
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 719fbcf..16d10b2 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -472,76 +472,30 @@ func mergeSequences(
 	return res
 }
 
-// substituteParams replaces the parameters of a function by its arguments in
-// its body, except where an inner function has parameters of the same name.
-func substituteParams(
-	body expreduceapi.Ex,
-	params map[string]expreduceapi.Ex,
-	slots []expreduceapi.Ex,
-) expreduceapi.Ex {
-	if sym, isSym := body.(*atoms.Symbol); isSym {
-		if arg, isParam := params[sym.Name]; isParam {
-			return arg
-		}
-		return body
-	}
-	expr, isExpr := body.(expreduceapi.ExpressionInterface)
-	if !isExpr {
-		return body
-	}
-	if slot, isSlot := atoms.HeadAssertion(expr, "System`Slot"); isSlot {
-		if len(slot.GetParts()) == 2 {
-			n, isInt := slot.GetParts()[1].(*atoms.Integer)
-			if isInt && n.Val.IsInt64() {
-				i := n.Val.Int64()
-				if 1 <= i && i <= int64(len(slots)) {
-					return slots[i-1]
-				}
-			}
-		}
-	}
-	inner, isFunction := atoms.HeadAssertion(expr, "System`Function")
-	if isFunction && len(inner.GetParts()) == 2 {
-		slots = nil
-	}
-	if isFunction && len(inner.GetParts()) >= 3 {
-		if innerParam, isSym := inner.GetParts()[1].(*atoms.Symbol); isSym {
-			if _, hidden := params[innerParam.Name]; hidden {
-				return body
-			}
-		}
-	}
-	res := atoms.NewEmptyExpression()
-	changed := false
-	for _, part := range expr.GetParts() {
-		newPart := substituteParams(part, params, slots)
-		if newPart != part {
-			changed = true
-		}
-		res.AppendEx(newPart)
-	}
-	if !changed {
-		return body
-	}
-	return res
-}
-
 func evalFunction(
 	this *atoms.Expression,
 	args []expreduceapi.Ex,
 ) (expreduceapi.Ex, bool) {
 	if len(this.GetParts()) == 2 {
-		return substituteParams(this.GetParts()[1], nil, args), true
+		return atoms.Substitute(this.GetParts()[1], nil, args), true
 	} else if len(this.GetParts()) == 3 {
-		repSym, ok := this.GetParts()[1].(*atoms.Symbol)
-		if !ok || len(args) == 0 {
+		names := []expreduceapi.Ex{this.GetParts()[1]}
+		list, isList := atoms.HeadAssertion(names[0], "System`List")
+		if isList {
+			names = list.GetParts()[1:]
+		}
+		if len(args) < len(names) {
 			return nil, false
 		}
-		return substituteParams(
-			this.GetParts()[2],
-			map[string]expreduceapi.Ex{repSym.Name: args[0]},
-			nil,
-		), true
+		params := make(map[string]expreduceapi.Ex)
+		for i, name := range names {
+			sym, ok := name.(*atoms.Symbol)
+			if !ok {
+				return nil, false
+			}
+			params[sym.Name] = args[i]
+		}
+		return atoms.Substitute(this.GetParts()[2], params, nil), true
 	}
 	return nil, false
 }
diff --git a/expreduce/matcher/pdreplace.go b/expreduce/matcher/pdreplace.go
index 56629bb..ddb5d38 100644
--- a/expreduce/matcher/pdreplace.go
+++ b/expreduce/matcher/pdreplace.go
@@ -5,38 +5,6 @@ import (
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
-func replacePDInternal(
-	e expreduceapi.Ex,
-	pm *PDManager,
-) (expreduceapi.Ex, bool) {
-	asSym, isSym := e.(*atoms.Symbol)
-	if isSym {
-		for k, def := range pm.patternDefined {
-			if k == asSym.Name {
-				// Shouldn't need the copy
-				return def, true
-			}
-		}
-	}
-	thisDirty := false
-	asExpr, isExpr := e.(expreduceapi.ExpressionInterface)
-	if isExpr {
-		for i := range asExpr.GetParts() {
-			possiblyNewExpr, dirty := replacePDInternal(
-				asExpr.GetParts()[i],
-				pm,
-			)
-			if dirty {
-				thisDirty = true
-				// Mark the expression as dirty and needing eval.
-				asExpr.ClearHashes()
-			}
-			asExpr.GetParts()[i] = possiblyNewExpr
-		}
-	}
-	return e, thisDirty
-}
-
 // ReplacePD takes an expression and replaces any defined symbols in the
 // PDManager with the defined values. It is a form of subsitution common in
 // function evaluation and replacement.
@@ -48,19 +16,5 @@ func ReplacePD(
 	if pm == nil {
 		return expr
 	}
-	containsAny := false
-	for k := range pm.patternDefined {
-		if atoms.ContainsSymbol(expr, k) {
-			containsAny = true
-			break
-		}
-	}
-	if !containsAny {
-		return expr
-	}
-
-	// Expressions are immutable. Any time we change an expression, we must
-	// first copy it.
-	res, _ := replacePDInternal(expr.Copy(), pm)
-	return res
+	return atoms.Substitute(expr, pm.patternDefined, nil)
 }
-- 
2.43.0


From 2a3d324afcc0076baf2a658cd96b55c1ffa35b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 046/100] fix: Break leaves the loop from within a sequence of
 expressions and from Do; a throw ends While; CompoundExpression[] is Null

---
 expreduce/builtin_flowcontrol.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 06811e7..6863826 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -98,6 +98,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 			)
 			for isTrue {
 				tmpRes := es.Eval(this.GetParts()[2].DeepCopy())
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				retVal, isReturn := tryReturnValue(tmpRes, nil, es)
 				if isReturn {
 					return retVal
@@ -111,13 +114,16 @@ func getFlowControlDefinitions() (defs []Definition) {
 				)
 			}
 
+			if es.HasThrown() {
+				return es.Thrown()
+			}
 			return atoms.NewSymbol("System`Null")
 		},
 	})
 	defs = append(defs, Definition{
 		Name: "CompoundExpression",
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
-			var toReturn expreduceapi.Ex
+			var toReturn expreduceapi.Ex = atoms.NewSymbol("System`Null")
 			for i := 1; i < len(this.GetParts()); i++ {
 				toReturn = es.Eval(this.GetParts()[i])
 				if es.HasThrown() {
@@ -126,6 +132,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if _, isReturn := atoms.HeadAssertion(toReturn, "System`Return"); isReturn {
 					return toReturn
 				}
+				if isBreak(toReturn) {
+					return toReturn
+				}
 			}
 			return toReturn
 		},
@@ -199,6 +208,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 							}
 							return asReturn.GetParts()[1]
 						}
+						if isBreak(res) {
+							break
+						}
 						mis.Next()
 					}
 					return atoms.NewSymbol("System`Null")
-- 
2.43.0


From 46f1347a22953f403e91f1344b71000f5e8e41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 047/100] fix: Block restores the definitions of its variables
 and is transparent to Return

---
 expreduce/builtin_system.go  | 102 ++++++++++++++++++++++++++---------
 expreduce/resources.go       |   2 -
 expreduce/resources/system.m |   2 -
 3 files changed, 78 insertions(+), 28 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 1a59c66..2fc43f1 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -182,10 +182,18 @@ func snagUnique(
 	}
 }
 
-func applyModuleFn(
+type parsedLocal struct {
+	sym          *atoms.Symbol
+	uniqueName   string
+	setValue     expreduceapi.Ex
+	isSet        bool
+	isSetDelayed bool
+}
+
+// parseLocals parses the arguments of Module and Block.
+func parseLocals(
 	this expreduceapi.ExpressionInterface,
-	es expreduceapi.EvalStateInterface,
-) (expreduceapi.Ex, bool) {
+) ([]parsedLocal, bool) {
 	// Coarse parsing of arguments.
 	if len(this.GetParts()) != 3 {
 		return nil, false
@@ -199,13 +207,6 @@ func applyModuleFn(
 	}
 
 	// Parse locals into a struct
-	type parsedLocal struct {
-		sym          *atoms.Symbol
-		uniqueName   string
-		setValue     expreduceapi.Ex
-		isSet        bool
-		isSetDelayed bool
-	}
 	var parsedLocals []parsedLocal
 	for _, localEx := range locals.GetParts()[1:] {
 		pl := parsedLocal{}
@@ -232,6 +233,65 @@ func applyModuleFn(
 		}
 		parsedLocals = append(parsedLocals, pl)
 	}
+	return parsedLocals, true
+}
+
+// localDef defines nothing but the value of a symbol.
+func localDef(name string, rhs expreduceapi.Ex) expreduceapi.Def {
+	return expreduceapi.Def{
+		Downvalues: []expreduceapi.DownValue{
+			expreduceapi.DownValue{
+				Rule: atoms.NewExpression([]expreduceapi.Ex{
+					atoms.NewSymbol("System`Rule"),
+					atoms.E(
+						atoms.S("HoldPattern"),
+						atoms.NewSymbol(name),
+					),
+					rhs,
+				}),
+			},
+		},
+	}
+}
+
+// applyBlockFn evaluates the body with other definitions for the local symbols,
+// and restores their definitions however the body is left.
+func applyBlockFn(
+	this expreduceapi.ExpressionInterface,
+	parsedLocals []parsedLocal,
+	es expreduceapi.EvalStateInterface,
+) expreduceapi.Ex {
+	for i := range parsedLocals {
+		if parsedLocals[i].isSet {
+			parsedLocals[i].setValue = es.Eval(parsedLocals[i].setValue)
+			if es.HasThrown() {
+				return es.Thrown()
+			}
+		}
+	}
+	for _, pl := range parsedLocals {
+		name := pl.sym.Name
+		orig, _ := es.GetDefined(name)
+		orig.Downvalues = append([]expreduceapi.DownValue{}, orig.Downvalues...)
+		defer es.SetDefined(name, orig)
+		es.SetDefined(name, expreduceapi.Def{})
+	}
+	for _, pl := range parsedLocals {
+		if pl.isSet || pl.isSetDelayed {
+			es.SetDefined(pl.sym.Name, localDef(pl.sym.Name, pl.setValue))
+		}
+	}
+	return es.Eval(this.GetParts()[2])
+}
+
+func applyModuleFn(
+	this expreduceapi.ExpressionInterface,
+	es expreduceapi.EvalStateInterface,
+) (expreduceapi.Ex, bool) {
+	parsedLocals, ok := parseLocals(this)
+	if !ok {
+		return nil, false
+	}
 
 	for i := range parsedLocals {
 		unique, ok := snagUnique(parsedLocals[i].sym.Name, "$", es)
@@ -248,20 +308,7 @@ func applyModuleFn(
 			if pl.isSet {
 				rhs = es.Eval(rhs)
 			}
-			es.GetDefinedMap().Set(pl.uniqueName, expreduceapi.Def{
-				Downvalues: []expreduceapi.DownValue{
-					expreduceapi.DownValue{
-						Rule: atoms.NewExpression([]expreduceapi.Ex{
-							atoms.NewSymbol("System`Rule"),
-							atoms.E(
-								atoms.S("HoldPattern"),
-								atoms.NewSymbol(pl.uniqueName),
-							),
-							rhs,
-						}),
-					},
-				},
-			})
+			es.GetDefinedMap().Set(pl.uniqueName, localDef(pl.uniqueName, rhs))
 		} else {
 			es.GetDefinedMap().Set(pl.uniqueName, expreduceapi.Def{})
 		}
@@ -894,6 +941,13 @@ func getSystemDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name:              "Block",
 		OmitDocumentation: true,
+		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+			parsedLocals, ok := parseLocals(this)
+			if !ok {
+				return this
+			}
+			return applyBlockFn(this, parsedLocals, es)
+		},
 	})
 	defs = append(defs, Definition{
 		Name:              "ESameTest",
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 3430289..386382c 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -55398,8 +55398,6 @@ Tests`+"`"+`Module = {
     ]
 };
 
-(* TODO: Fix this hack. *)
-Block[args___] := Module[args];
 Attributes[Block] = {HoldAll, Protected};
 
 Hash::usage = "`+"`"+`Hash[expr]`+"`"+` returns an integer hash of `+"`"+`expr`+"`"+`.";
diff --git a/expreduce/resources/system.m b/expreduce/resources/system.m
index 7b6ce41..ab11083 100644
--- a/expreduce/resources/system.m
+++ b/expreduce/resources/system.m
@@ -145,8 +145,6 @@ Tests`Module = {
     ]
 };
 
-(* TODO: Fix this hack. *)
-Block[args___] := Module[args];
 Attributes[Block] = {HoldAll, Protected};
 
 Hash::usage = "`Hash[expr]` returns an integer hash of `expr`.";
-- 
2.43.0


From c9beee22fad2e92e74f5741a3b6ec9eb7d420b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 048/100] fix: Fold, Nest and NestWhile apply the function once
 per step, test the first value and leave impossible arguments alone

---
 expreduce/builtin_functional.go  | 100 ++++++++++---------------------
 expreduce/resources.go           |   8 +--
 expreduce/resources/functional.m |   8 +--
 3 files changed, 40 insertions(+), 76 deletions(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index c8da3c5..e34966a 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -576,25 +576,12 @@ func getFunctionalDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{values.GetParts()[0], first},
 			)
 
-			if len(values.GetParts()) < 2 {
-				return toReturn
-			}
-
-			expr := atoms.NewExpression([]expreduceapi.Ex{
-				f,
-				first,
-				values.GetParts()[1],
-			})
-
-			toReturn.AppendEx(expr)
-
-			for i := 2; i < len(values.GetParts()); i++ {
-				expr = atoms.NewExpression([]expreduceapi.Ex{
-					f,
-					expr,
-					values.GetParts()[i],
-				})
-
+			expr := first
+			for _, value := range values.GetParts()[1:] {
+				expr = es.Eval(atoms.E(f, expr, value))
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				toReturn.AppendEx(expr)
 			}
 
@@ -626,11 +613,10 @@ func getFunctionalDefinitions() (defs []Definition) {
 			)
 
 			for i := int64(1); i <= n; i++ {
-				expr = atoms.NewExpression([]expreduceapi.Ex{
-					f,
-					expr,
-				})
-
+				expr = es.Eval(atoms.E(f, expr))
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				toReturn.AppendEx(expr)
 			}
 
@@ -698,57 +684,35 @@ func getFunctionalDefinitions() (defs []Definition) {
 				}
 			}
 
-			evaluated := []expreduceapi.Ex{es.Eval(expr.DeepCopy())}
-			toReturn := atoms.NewExpression(
-				[]expreduceapi.Ex{atoms.NewSymbol("System`List"), expr},
-			)
-
-			isequal := "EQUAL_TRUE"
-			cont := isequal == "EQUAL_TRUE"
-			for i := int64(2); cont; i++ {
-				expr = atoms.NewExpression([]expreduceapi.Ex{
-					f,
-					expr,
-				})
-
+			toReturn := atoms.E(atoms.S("List"), expr)
+			apply := func() bool {
+				expr = es.Eval(atoms.E(f, expr))
 				toReturn.AppendEx(expr)
-				evaluated = append(
-					evaluated,
-					es.Eval(expr.DeepCopy()),
-				) // Could use a stack of length m
-
-				if i >= m {
-					testExpression := atoms.NewExpression(
-						[]expreduceapi.Ex{test},
-					)
+				return !es.HasThrown()
+			}
+
+			for i := int64(0); max == -1 || i < max; i++ {
+				results := toReturn.GetParts()[1:]
+				if int64(len(results)) >= m {
 					if m >= 0 {
-						testExpression.AppendExArray(
-							evaluated[int64(len(evaluated))-m:],
-						)
-					} else {
-						testExpression.AppendExArray(evaluated)
+						results = results[int64(len(results))-m:]
+					}
+					testRes := es.Eval(atoms.E(append([]expreduceapi.Ex{test}, results...)...))
+					if es.HasThrown() {
+						return es.Thrown()
+					}
+					if !atoms.IsSameQ(testRes, atoms.S("True")) {
+						break
 					}
-					isequal = es.Eval(testExpression).
-						IsEqual(atoms.NewSymbol("System`True"))
-					cont = isequal == "EQUAL_TRUE"
 				}
-
-				if i > max && max != -1 {
-					cont = false
+				if !apply() {
+					return es.Thrown()
 				}
 			}
-
-			if n > 0 {
-				for i := int64(0); i < n; i++ {
-					expr = atoms.NewExpression([]expreduceapi.Ex{
-						f,
-						expr,
-					})
-
-					toReturn.AppendEx(expr)
+			for i := int64(0); i < n; i++ {
+				if !apply() {
+					return es.Thrown()
 				}
-			} else {
-				toReturn.SetParts(toReturn.GetParts()[:int64(len(toReturn.GetParts()))+n])
 			}
 
 			return toReturn
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 386382c..40eb7e2 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -1863,7 +1863,7 @@ Tests`+"`"+`MapIndexed = {
 };
 
 FoldList::usage = "`+"`"+`FoldList[f, x, {a, b}] returns {x, f[x, a], f[f[x, a], b]}"
-FoldList[f_, expr_] := FoldList[f, First[expr], Rest[expr]]
+FoldList[f_, expr_] := FoldList[f, First[expr], Rest[expr]] /; Length[expr] > 0
 (* FoldList[f_][expr__] := FoldList[f, expr] When subvalues are allowed *)
 Attributes[FoldList] = {Protected};
 Tests`+"`"+`FoldList = {
@@ -1877,8 +1877,8 @@ Tests`+"`"+`FoldList = {
 }
 
 Fold::usage = "`+"`"+`Fold[f, x, {a, b}]`+"`"+` returns `+"`"+`f[f[x, a], b]`+"`"+`, and this nesting continues for lists of arbitrary length. `+"`"+`Fold[f, {a, b, c}]`+"`"+` returns `+"`"+`Fold[f, a, {b, c}]`+"`"+`. `+"`"+`Fold[f]`+"`"+` is an operator form that can be applied to expressions such as `+"`"+`{a, b, c}`+"`"+`."
-Fold[f_, x_, expr_] := Last[FoldList[f, x, expr]]
-Fold[f_, expr_] := Last[FoldList[f, First[expr], Rest[expr]]]
+Fold[f_, x_, expr_] := Last[FoldList[f, x, expr]] /; !AtomQ[expr]
+Fold[f_, expr_] := Fold[f, First[expr], Rest[expr]] /; Length[expr] > 0
 (* Fold[f_][expr__] := Last[FoldList[f, expr]] When subvalues are allowed *)
 Attributes[Fold] = {Protected};
 Tests`+"`"+`Fold = {
@@ -1901,7 +1901,7 @@ Tests`+"`"+`NestList = {
 }
 
 Nest::usage = "`+"`"+`Nest[f, expr, n]`+"`"+` returns `+"`"+`f`+"`"+` wrapped around `+"`"+`expr`+"`"+` `+"`"+`n`+"`"+` times."
-Nest[f_, expr_, n_] := Last[NestList[f, expr, n]]
+Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; n >= 0
 Attributes[Nest] = {Protected}
 Tests`+"`"+`Nest = {
     ESimpleExamples[
diff --git a/expreduce/resources/functional.m b/expreduce/resources/functional.m
index 017d9b9..d22aadd 100644
--- a/expreduce/resources/functional.m
+++ b/expreduce/resources/functional.m
@@ -138,7 +138,7 @@ Tests`MapIndexed = {
 };
 
 FoldList::usage = "`FoldList[f, x, {a, b}] returns {x, f[x, a], f[f[x, a], b]}"
-FoldList[f_, expr_] := FoldList[f, First[expr], Rest[expr]]
+FoldList[f_, expr_] := FoldList[f, First[expr], Rest[expr]] /; Length[expr] > 0
 (* FoldList[f_][expr__] := FoldList[f, expr] When subvalues are allowed *)
 Attributes[FoldList] = {Protected};
 Tests`FoldList = {
@@ -152,8 +152,8 @@ Tests`FoldList = {
 }
 
 Fold::usage = "`Fold[f, x, {a, b}]` returns `f[f[x, a], b]`, and this nesting continues for lists of arbitrary length. `Fold[f, {a, b, c}]` returns `Fold[f, a, {b, c}]`. `Fold[f]` is an operator form that can be applied to expressions such as `{a, b, c}`."
-Fold[f_, x_, expr_] := Last[FoldList[f, x, expr]]
-Fold[f_, expr_] := Last[FoldList[f, First[expr], Rest[expr]]]
+Fold[f_, x_, expr_] := Last[FoldList[f, x, expr]] /; !AtomQ[expr]
+Fold[f_, expr_] := Fold[f, First[expr], Rest[expr]] /; Length[expr] > 0
 (* Fold[f_][expr__] := Last[FoldList[f, expr]] When subvalues are allowed *)
 Attributes[Fold] = {Protected};
 Tests`Fold = {
@@ -176,7 +176,7 @@ Tests`NestList = {
 }
 
 Nest::usage = "`Nest[f, expr, n]` returns `f` wrapped around `expr` `n` times."
-Nest[f_, expr_, n_] := Last[NestList[f, expr, n]]
+Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; n >= 0
 Attributes[Nest] = {Protected}
 Tests`Nest = {
     ESimpleExamples[
-- 
2.43.0


From cce7a6a1f916a6bb541135c72b9e65ff3e16e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 049/100] fix: Numbers of different kinds are compared by
 value; comparisons of exact numbers are exact, and complex numbers and
 symbols are not decided

---
 expreduce/atoms/ex_complex.go    | 10 +--------
 expreduce/atoms/ex_integer.go    | 17 +---------------
 expreduce/atoms/ex_rational.go   | 11 +---------
 expreduce/atoms/ex_real.go       | 20 +-----------------
 expreduce/atoms/order.go         | 35 ++++++++++++++++++++++++++++++++
 expreduce/builtin_comparison.go  | 23 ++++++++++-----------
 expreduce/resources.go           |  1 +
 expreduce/resources/comparison.m |  1 +
 8 files changed, 52 insertions(+), 66 deletions(-)

diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index bde484c..5e8050c 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -43,15 +43,7 @@ func (cmplx *Complex) StringForm(p expreduceapi.ToStringParams) string {
 }
 
 func (cmplx *Complex) IsEqual(other expreduceapi.Ex) string {
-	otherConv, otherIsComplex := other.(*Complex)
-	if !otherIsComplex {
-		return "EQUAL_FALSE"
-	}
-	if (cmplx.Re.IsEqual(otherConv.Re) != "EQUAL_TRUE") ||
-		(cmplx.Im.IsEqual(otherConv.Im) != "EQUAL_TRUE") {
-		return "EQUAL_FALSE"
-	}
-	return "EQUAL_TRUE"
+	return numberIsEqual(cmplx, other)
 }
 
 func (cmplx *Complex) DeepCopy() expreduceapi.Ex {
diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index ccc5e09..428c6f8 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -37,22 +37,7 @@ func (thisInt *Integer) String() string {
 }
 
 func (thisInt *Integer) IsEqual(other expreduceapi.Ex) string {
-	otherConv, ok := other.(*Integer)
-	if !ok {
-		otherFlt, ok := other.(*Flt)
-		if ok {
-			thisIntAsFlt := big.NewFloat(0)
-			thisIntAsFlt.SetInt(thisInt.Val)
-			if thisIntAsFlt.Cmp(otherFlt.Val) == 0 {
-				return "EQUAL_TRUE"
-			}
-		}
-		return "EQUAL_UNK"
-	}
-	if thisInt.Val.Cmp(otherConv.Val) != 0 {
-		return "EQUAL_FALSE"
-	}
-	return "EQUAL_TRUE"
+	return numberIsEqual(thisInt, other)
 }
 
 func (thisInt *Integer) DeepCopy() expreduceapi.Ex {
diff --git a/expreduce/atoms/ex_rational.go b/expreduce/atoms/ex_rational.go
index 28d67ae..ba6c826 100644
--- a/expreduce/atoms/ex_rational.go
+++ b/expreduce/atoms/ex_rational.go
@@ -35,16 +35,7 @@ func (thisRational *Rational) StringForm(
 }
 
 func (thisRational *Rational) IsEqual(other expreduceapi.Ex) string {
-	otherConv, otherIsRational := other.(*Rational)
-	if !otherIsRational {
-		return "EQUAL_FALSE"
-	}
-	// Assume rational already simplified
-	if (thisRational.Num.Cmp(otherConv.Num) != 0) ||
-		(thisRational.Den.Cmp(otherConv.Den) != 0) {
-		return "EQUAL_FALSE"
-	}
-	return "EQUAL_TRUE"
+	return numberIsEqual(thisRational, other)
 }
 
 func (thisRational *Rational) DeepCopy() expreduceapi.Ex {
diff --git a/expreduce/atoms/ex_real.go b/expreduce/atoms/ex_real.go
index 76caf1b..4d6e21a 100644
--- a/expreduce/atoms/ex_real.go
+++ b/expreduce/atoms/ex_real.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"hash/fnv"
 	"math/big"
-	"strings"
 
 	"github.com/corywalker/expreduce/expreduce/parser/parens"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
@@ -43,24 +42,7 @@ func (flt *Flt) StringForm(params expreduceapi.ToStringParams) string {
 }
 
 func (flt *Flt) IsEqual(other expreduceapi.Ex) string {
-	otherConv, ok := other.(*Flt)
-	if !ok {
-		otherInteger, ok := other.(*Integer)
-		if ok {
-			otherAsFlt := big.NewFloat(0)
-			otherAsFlt.SetInt(otherInteger.Val)
-			if otherAsFlt.Cmp(flt.Val) == 0 {
-				return "EQUAL_TRUE"
-			}
-		}
-		return "EQUAL_UNK"
-	}
-	fltStr := fmt.Sprintf("%.14g", flt.Val)
-	otherStr := fmt.Sprintf("%.14g", otherConv.Val)
-	if strings.Compare(fltStr, otherStr) != 0 {
-		return "EQUAL_FALSE"
-	}
-	return "EQUAL_TRUE"
+	return numberIsEqual(flt, other)
 }
 
 func (flt *Flt) DeepCopy() expreduceapi.Ex {
diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index c8e61ca..5a66e55 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -323,3 +323,38 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 
 	return -2
 }
+
+// numberIsEqual decides if two numbers of any types are equal. Exact numbers are
+// compared exactly. Numbers that involve a real number are equal if they agree
+// to about fourteen digits.
+func numberIsEqual(a expreduceapi.Ex, b expreduceapi.Ex) string {
+	if !NumberQ(b) {
+		return "EQUAL_UNK"
+	}
+	aRe, aIm := numberParts(a)
+	bRe, bIm := numberParts(b)
+	if !realIsEqual(aRe, bRe) || !realIsEqual(aIm, bIm) {
+		return "EQUAL_FALSE"
+	}
+	return "EQUAL_TRUE"
+}
+
+func realIsEqual(a expreduceapi.Ex, b expreduceapi.Ex) bool {
+	if NumberCmp(a, b) == 0 {
+		return true
+	}
+	_, aIsFlt := a.(*Flt)
+	_, bIsFlt := b.(*Flt)
+	aVal, aOk := realValue(a)
+	bVal, bOk := realValue(b)
+	if !(aIsFlt || bIsFlt) || !aOk || !bOk {
+		return false
+	}
+	magnitude := new(big.Rat).Abs(aVal)
+	if bAbs := new(big.Rat).Abs(bVal); bAbs.Cmp(magnitude) > 0 {
+		magnitude = bAbs
+	}
+	difference := new(big.Rat).Sub(aVal, bVal)
+	tolerance := new(big.Rat).Mul(magnitude, big.NewRat(1, 1<<46))
+	return difference.Abs(difference).Cmp(tolerance) <= 0
+}
diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index 18d8307..5d9c056 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -99,24 +99,23 @@ func int64InSlice(target int64, list []int64) bool {
 }
 
 func comparisonFn(expr expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface, expectedOrders []int64) expreduceapi.Ex {
-	var lastN expreduceapi.Ex = nil
+	var last expreduceapi.Ex = nil
 	for i := 1; i < len(expr.GetParts()); i++ {
-		currN := es.Eval(
-			atoms.NewExpression(
-				[]expreduceapi.Ex{
-					atoms.NewSymbol("System`N"),
-					expr.GetParts()[i],
-				},
-			),
-		)
-		if !atoms.NumberQ(currN) {
+		curr := expr.GetParts()[i]
+		// Numbers are compared exactly. Anything else has to have a numerical
+		// value.
+		if !atoms.NumberQ(curr) {
+			curr = es.Eval(atoms.E(atoms.S("N"), curr))
+		}
+		_, isComplex := curr.(*atoms.Complex)
+		if isComplex || !atoms.NumberQ(curr) {
 			return expr
 		}
-		if lastN != nil && !int64InSlice(atoms.ExOrder(lastN, currN), expectedOrders) {
+		if last != nil && !int64InSlice(int64(-atoms.NumberCmp(last, curr)), expectedOrders) {
 			return atoms.NewSymbol("System`False")
 		}
 
-		lastN = currN
+		last = curr
 	}
 	return atoms.NewSymbol("System`True")
 }
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 40eb7e2..b84bbd0 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -1098,6 +1098,7 @@ Tests`+"`"+`Equal = {
 };
 
 Unequal::usage = "`+"`"+`lhs != rhs`+"`"+` evaluates to True if inequality is known or False if equality is known.";
+Unequal[a_?NumericQ, b_?NumericQ] := (a//N) != (b//N);
 Attributes[Unequal] = {Protected};
 Tests`+"`"+`Unequal = {
     ESimpleExamples[
diff --git a/expreduce/resources/comparison.m b/expreduce/resources/comparison.m
index f3d5285..ff3d8eb 100644
--- a/expreduce/resources/comparison.m
+++ b/expreduce/resources/comparison.m
@@ -87,6 +87,7 @@ Tests`Equal = {
 };
 
 Unequal::usage = "`lhs != rhs` evaluates to True if inequality is known or False if equality is known.";
+Unequal[a_?NumericQ, b_?NumericQ] := (a//N) != (b//N);
 Attributes[Unequal] = {Protected};
 Tests`Unequal = {
     ESimpleExamples[
-- 
2.43.0


From ae7e0118bdb3cb5c038b88e8e3534bbb06e8abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 050/100] fix: Part and Take validate positions and accept
 negative ones and steps; Tally counts equal elements only; Cases accepts
 delayed rules; Select stops at a throw; padding rejects impossible lengths

---
 expreduce/builtin_list.go  | 143 ++++++++++++++++++++++++++++---------
 expreduce/resources.go     |   3 +-
 expreduce/resources/list.m |   3 +-
 3 files changed, 112 insertions(+), 37 deletions(-)

diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 993a0ac..66396e4 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -101,7 +101,7 @@ func validatePadParams(
 	}
 
 	nInt, nIsInt := this.GetParts()[2].(*atoms.Integer)
-	if !nIsInt {
+	if !nIsInt || nInt.Val.Sign() < 0 || !nInt.Val.IsInt64() {
 		return
 	}
 	n = nInt.Val.Int64()
@@ -115,19 +115,74 @@ func validatePadParams(
 	return
 }
 
+// validateIndex returns the index i into an expression of l parts, which
+// includes the head. Negative indices count from the end.
 func validateIndex(i expreduceapi.Ex, l int) (int64, bool) {
 	iInt, iIsInt := i.(*atoms.Integer)
-	if !iIsInt {
+	if !iIsInt || iInt.Val.CmpAbs(big.NewInt(int64(l))) >= 0 {
 		return 0, false
 	}
-	if iInt.Val.Int64() >= int64(l) {
-		return 0, false
+	index := iInt.Val.Int64()
+	if index < 0 {
+		index += int64(l)
 	}
-	// TODO: support this in the future.
-	if iInt.Val.Int64() < 0 {
-		return 0, false
+	return index, true
+}
+
+// spanIndices returns the indices that are selected by a Span from an
+// expression with n arguments.
+func spanIndices(span expreduceapi.ExpressionInterface, n int) ([]int64, bool) {
+	if len(span.GetParts()) != 3 && len(span.GetParts()) != 4 {
+		return nil, false
+	}
+	// The start can be one past the end. This selects nothing.
+	bounds := [2]int64{}
+	for i := range bounds {
+		bound := span.GetParts()[i+1]
+		if sym, isSym := bound.(*atoms.Symbol); isSym && sym.Name == "System`All" {
+			bounds[i] = int64(n)
+			if i == 0 {
+				bounds[i] = 1
+			}
+			continue
+		}
+		boundInt, isInt := bound.(*atoms.Integer)
+		if !isInt || boundInt.Val.CmpAbs(big.NewInt(int64(n+1))) > 0 {
+			return nil, false
+		}
+		bounds[i] = boundInt.Val.Int64()
+		if bounds[i] < 0 {
+			bounds[i] += int64(n + 1)
+		}
 	}
-	return iInt.Val.Int64(), true
+	start, end, step := bounds[0], bounds[1], int64(1)
+	if len(span.GetParts()) == 4 {
+		stepInt, isInt := span.GetParts()[3].(*atoms.Integer)
+		if !isInt || !stepInt.Val.IsInt64() {
+			return nil, false
+		}
+		step = stepInt.Val.Int64()
+	}
+	indices := []int64{}
+	if step > 0 && start >= 1 && end <= int64(n) && start <= end+1 {
+		for i := start; i <= end; i += step {
+			indices = append(indices, i)
+			if step > end-i {
+				break
+			}
+		}
+		return indices, true
+	}
+	if step < 0 && end >= 1 && start <= int64(n) && start >= end-1 {
+		for i := start; i >= end; i += step {
+			indices = append(indices, i)
+			if step < end-i {
+				break
+			}
+		}
+		return indices, true
+	}
+	return nil, false
 }
 
 func applyIndex(
@@ -157,35 +212,21 @@ func applyIndex(
 	}
 
 	// Range selections
-	rangeMin, rangeMax, rangeOk := int64(0), int64(0), false
+	var selected []int64
+	rangeOk := false
 	if iSpan, iIsSpan := atoms.HeadAssertion(indices[currDim], "System`Span"); iIsSpan {
-		if len(iSpan.GetParts()) != 3 {
-			return nil, false
-		}
-		start, startOk := validateIndex(
-			iSpan.GetParts()[1],
-			len(expr.GetParts())+1,
-		)
-		end, endOk := validateIndex(iSpan.GetParts()[2], len(expr.GetParts()))
-		if endSym, endIsSym := iSpan.GetParts()[2].(*atoms.Symbol); endIsSym {
-			if endSym.Name == "System`All" {
-				end, endOk = int64(len(expr.GetParts())-1), true
-			}
-		}
-		if !startOk || !endOk {
-			return nil, false
-		}
-		rangeMin, rangeMax, rangeOk = start, end, true
+		selected, rangeOk = spanIndices(iSpan, len(expr.GetParts())-1)
 	}
 	iSym, iIsSym := indices[currDim].(*atoms.Symbol)
-	if iIsSym {
-		if iSym.Name == "System`All" {
-			rangeMin, rangeMax, rangeOk = 1, int64(len(expr.GetParts())-1), true
+	if iIsSym && iSym.Name == "System`All" {
+		for i := 1; i < len(expr.GetParts()); i++ {
+			selected = append(selected, int64(i))
 		}
+		rangeOk = true
 	}
 	if rangeOk {
 		toReturn := atoms.E(expr.GetParts()[0])
-		for i := rangeMin; i <= rangeMax; i++ {
+		for _, i := range selected {
 			applied, appOk := applyIndex(expr.GetParts()[i], indices, currDim+1)
 			if !appOk {
 				return nil, false
@@ -366,6 +407,12 @@ func getListDefinitions() (defs []Definition) {
 					this.GetParts()[2],
 					"System`Rule",
 				)
+				if !isRule {
+					rule, isRule = atoms.HeadAssertion(
+						this.GetParts()[2],
+						"System`RuleDelayed",
+					)
+				}
 				if isRule {
 					if len(rule.GetParts()) != 3 {
 						return toReturn
@@ -710,10 +757,12 @@ func getListDefinitions() (defs []Definition) {
 			maxN := maxInt64
 			if len(this.GetParts()) == 4 {
 				if asInt, isInt := this.GetParts()[3].(*atoms.Integer); isInt {
-					maxN = asInt.Val.Int64()
-					if maxN < 0 {
+					if asInt.Val.Sign() < 0 {
 						return this
 					}
+					if asInt.Val.IsInt64() {
+						maxN = asInt.Val.Int64()
+					}
 				} else {
 					return this
 				}
@@ -738,6 +787,9 @@ func getListDefinitions() (defs []Definition) {
 							part,
 						})))
 
+					if es.HasThrown() {
+						return es.Thrown()
+					}
 					passSymbol, passIsSymbol := pass.(*atoms.Symbol)
 					if passIsSymbol {
 						if passSymbol.Name == "System`True" {
@@ -821,7 +873,32 @@ func getListDefinitions() (defs []Definition) {
 			true,
 		),
 	})
-	defs = append(defs, Definition{Name: "Tally"})
+	defs = append(defs, Definition{
+		Name: "Tally",
+		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+			if len(this.GetParts()) != 2 {
+				return this
+			}
+			list, isList := atoms.HeadAssertion(this.GetParts()[1], "System`List")
+			if !isList {
+				return this
+			}
+			counts := map[uint64]int64{}
+			distinct := []expreduceapi.Ex{}
+			for _, part := range list.GetParts()[1:] {
+				hash := hashEx(part)
+				if counts[hash] == 0 {
+					distinct = append(distinct, part)
+				}
+				counts[hash]++
+			}
+			res := atoms.E(atoms.S("List"))
+			for _, part := range distinct {
+				res.AppendEx(atoms.E(atoms.S("List"), part, atoms.NewInt(counts[hashEx(part)])))
+			}
+			return res
+		},
+	})
 	defs = append(defs, Definition{Name: "ConstantArray"})
 	defs = append(defs, Definition{
 		Name: "Reverse",
diff --git a/expreduce/resources.go b/expreduce/resources.go
index b84bbd0..4ca4979 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -2256,7 +2256,7 @@ Tests`+"`"+`Part = {
 };
 
 Take::usage = "`+"`"+`Take[list, m]`+"`"+` returns the first `+"`"+`m`+"`"+` items of `+"`"+`list`+"`"+`.";
-Take[list_, m_] := If[m > 0, list[[1;;m]], list[[m;;-1]]];
+Take[list_, m_] := If[m >= 0, list[[1;;m]], list[[m;;-1]]];
 Take[list_, {m_, n_}] := list[[m;;n]];
 Take[list_, {m_, n_, o_}] := list[[m;;n;;o]];
 Attributes[Take] = {NHoldRest, Protected};
@@ -2466,7 +2466,6 @@ Tests`+"`"+`Count = {
 };
 
 Tally::usage = "`+"`"+`Tally[list]`+"`"+` creates tallies of the elements in `+"`"+`list`+"`"+`.";
-Tally[l_List] := {#, Count[l, #]} & /@ DeleteDuplicates[l];
 Attributes[Tally] = {Protected};
 Tests`+"`"+`Tally = {
     ESimpleExamples[
diff --git a/expreduce/resources/list.m b/expreduce/resources/list.m
index df30e6f..2ccf3f2 100644
--- a/expreduce/resources/list.m
+++ b/expreduce/resources/list.m
@@ -229,7 +229,7 @@ Tests`Part = {
 };
 
 Take::usage = "`Take[list, m]` returns the first `m` items of `list`.";
-Take[list_, m_] := If[m > 0, list[[1;;m]], list[[m;;-1]]];
+Take[list_, m_] := If[m >= 0, list[[1;;m]], list[[m;;-1]]];
 Take[list_, {m_, n_}] := list[[m;;n]];
 Take[list_, {m_, n_, o_}] := list[[m;;n;;o]];
 Attributes[Take] = {NHoldRest, Protected};
@@ -439,7 +439,6 @@ Tests`Count = {
 };
 
 Tally::usage = "`Tally[list]` creates tallies of the elements in `list`.";
-Tally[l_List] := {#, Count[l, #]} & /@ DeleteDuplicates[l];
 Attributes[Tally] = {Protected};
 Tests`Tally = {
     ESimpleExamples[
-- 
2.43.0


From 82b7a7c49a73330cdd515d3410c34a95d194d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 051/100] fix: Map, MapIndexed, Apply and Count act on exactly
 the levels that are specified, and Apply accepts any function

---
 expreduce/builtin_expression.go  |  9 +++++++--
 expreduce/builtin_functional.go  | 14 ++++++--------
 expreduce/resources.go           |  3 ++-
 expreduce/resources/functional.m |  3 ++-
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/expreduce/builtin_expression.go b/expreduce/builtin_expression.go
index 7642fbe..ef19852 100644
--- a/expreduce/builtin_expression.go
+++ b/expreduce/builtin_expression.go
@@ -175,10 +175,15 @@ func getExpressionDefinitions() (defs []Definition) {
 			level := int64(999999999999)
 			if len(this.GetParts()) > 2 {
 				asInt, isInt := this.GetParts()[2].(*atoms.Integer)
-				if !isInt {
+				if !isInt && !parseInfinity(this.GetParts()[2], es) {
 					return this
 				}
-				level = int64(asInt.Val.Int64())
+				if isInt && asInt.Val.Sign() < 0 {
+					return this
+				}
+				if isInt && asInt.Val.IsInt64() {
+					level = asInt.Val.Int64()
+				}
 			}
 			expr, isExpr := this.GetParts()[1].(expreduceapi.ExpressionInterface)
 			if !isExpr {
diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index e34966a..a5f836d 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -12,7 +12,7 @@ import (
 
 func parseInteger(part expreduceapi.Ex) (value int64, isInteger bool) {
 	integer, isInteger := part.(*atoms.Integer)
-	if isInteger {
+	if isInteger && integer.Val.IsInt64() {
 		return integer.Val.Int64(), true
 	}
 	return 0, false
@@ -253,7 +253,7 @@ func expressionWalkMap(
 
 		//If this part is covered by the level specification, apply the function
 		//specified by the first argument of Map
-		if level >= spec.min {
+		if spec.checkLevel(level) {
 			newExpression = f(
 				head,
 				newExpression,
@@ -318,7 +318,6 @@ func expressionWalkMapBackwards(
 				toReturn.AppendEx(newExpression)
 			}
 		} else { //If the node is atomic
-			level = level + 1
 			depth = int64(1)
 
 			if spec.checkLevel(level) && spec.checkDepth(depth) {
@@ -420,10 +419,9 @@ func levelSpecFunction(
 				}
 				return this.GetParts()[2]
 			} else if optStrat == applyOptimizedSimpleLevelSpec {
-				sym, isSym := this.GetParts()[1].(*atoms.Symbol)
 				expr, isExpr := this.GetParts()[2].(expreduceapi.ExpressionInterface)
-				if isSym && isExpr {
-					toReturn := atoms.NewExpression([]expreduceapi.Ex{sym})
+				if isExpr {
+					toReturn := atoms.NewExpression([]expreduceapi.Ex{this.GetParts()[1]})
 					toReturn.AppendExArray(expr.GetParts()[1:])
 					return es.Eval(toReturn)
 				}
@@ -455,7 +453,7 @@ func levelSpecFunction(
 		// one case
 		expression, nonAtomic := leveledExpr.(expreduceapi.ExpressionInterface)
 		if !nonAtomic {
-			if spec.checkLevel(0) && spec.checkDepth(0) {
+			if spec.checkLevel(0) && spec.checkDepth(1) {
 				return exOrGenerated(
 					f(dataExpr, leveledExpr, []int64{}, generated, es),
 					generated,
@@ -551,7 +549,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 		Name: "MapIndexed",
 		legacyEvalFn: levelSpecFunction(
 			wrapWithHeadIndexed,
-			mapOptimizedSimpleLevelSpec,
+			unoptimizedSimpleLevelSpec,
 			false,
 			false,
 		),
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 4ca4979..3c4826e 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -1833,7 +1833,8 @@ MapIndexed::usage = "`+"`"+`MapIndexed[f, expr]`+"`"+` returns a new expression
 Additionally, MapIdnexed supplies the part specification of the subexpression as the second argument of f.
 Map[f, expr, levelspec] maps f to all subexpressions that match the level specification levelspec, also supplying the part specification for
 each subexpression as the second argument to f.";
-Attributes[MapIndexed] = {Protected}
+MapIndexed[f_, expr_] := MapIndexed[f, expr, {1}];
+Attributes[MapIndexed] = {Protected};
 Tests`+"`"+`MapIndexed = {
     ESimpleExamples[
         ESameTest[
diff --git a/expreduce/resources/functional.m b/expreduce/resources/functional.m
index d22aadd..b9c2a35 100644
--- a/expreduce/resources/functional.m
+++ b/expreduce/resources/functional.m
@@ -107,7 +107,8 @@ MapIndexed::usage = "`MapIndexed[f, expr]` returns a new expression with the sam
 Additionally, MapIdnexed supplies the part specification of the subexpression as the second argument of f.
 Map[f, expr, levelspec] maps f to all subexpressions that match the level specification levelspec, also supplying the part specification for
 each subexpression as the second argument to f.";
-Attributes[MapIndexed] = {Protected}
+MapIndexed[f_, expr_] := MapIndexed[f, expr, {1}];
+Attributes[MapIndexed] = {Protected};
 Tests`MapIndexed = {
     ESimpleExamples[
         ESameTest[
-- 
2.43.0


From c58f1d4d779f6b9e38da8c6c75d94191f96ca152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 052/100] fix: NestWhile, Nest and Array leave impossible
 arguments alone

---
 expreduce/builtin_functional.go  | 203 +++++++++++++++++--------------
 expreduce/resources.go           |   3 +-
 expreduce/resources/functional.m |   3 +-
 3 files changed, 114 insertions(+), 95 deletions(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index a5f836d..589baf8 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -519,6 +519,106 @@ func levelSpecFunction(
 	}
 }
 
+func nestWhileList(
+	this expreduceapi.ExpressionInterface,
+	es expreduceapi.EvalStateInterface,
+) expreduceapi.Ex {
+	if len(this.GetParts()) < 4 || len(this.GetParts()) > 7 {
+		return this
+	}
+
+	f := this.GetParts()[1]
+	expr := this.GetParts()[2]
+	test := this.GetParts()[3]
+
+	m := int64(1)
+	if len(this.GetParts()) > 4 {
+		mInt, isInteger := this.GetParts()[4].(*atoms.Integer)
+		mSymbol, isSymbol := this.GetParts()[4].(*atoms.Symbol)
+		if isInteger {
+			if !mInt.Val.IsInt64() {
+				return this
+			}
+			m = mInt.Val.Int64()
+			if m < 0 {
+				return this
+			}
+		} else if isSymbol {
+			if mSymbol.IsEqual(atoms.NewSymbol("System`All")) == "EQUAL_TRUE" {
+				m = -1
+			} else {
+				return this
+			}
+		} else {
+			return this
+		}
+	}
+
+	max := int64(-1)
+	if len(this.GetParts()) > 5 {
+		maxInt, isInteger := this.GetParts()[5].(*atoms.Integer)
+		maxSymbol, isSymbol := this.GetParts()[5].(*atoms.Symbol)
+		if isInteger {
+			if !maxInt.Val.IsInt64() {
+				return this
+			}
+			max = maxInt.Val.Int64()
+			if maxInt.Val.Int64() < 0 {
+				return this
+			}
+		} else if isSymbol {
+			if maxSymbol.IsEqual(atoms.NewSymbol("System`Infinity")) == "EQUAL_TRUE" {
+				max = -1
+			} else {
+				return this
+			}
+		} else {
+			return this
+		}
+	}
+
+	n := int64(0)
+	if len(this.GetParts()) > 6 {
+		bonusIterationsInt, isInteger := this.GetParts()[6].(*atoms.Integer)
+		if isInteger && bonusIterationsInt.Val.Int64() >= int64(0) {
+			n = bonusIterationsInt.Val.Int64()
+		}
+	}
+
+	toReturn := atoms.E(atoms.S("List"), expr)
+	apply := func() bool {
+		expr = es.Eval(atoms.E(f, expr))
+		toReturn.AppendEx(expr)
+		return !es.HasThrown()
+	}
+
+	for i := int64(0); max == -1 || i < max; i++ {
+		results := toReturn.GetParts()[1:]
+		if int64(len(results)) >= m {
+			if m >= 0 {
+				results = results[int64(len(results))-m:]
+			}
+			testRes := es.Eval(atoms.E(append([]expreduceapi.Ex{test}, results...)...))
+			if es.HasThrown() {
+				return es.Thrown()
+			}
+			if !atoms.IsSameQ(testRes, atoms.S("True")) {
+				break
+			}
+		}
+		if !apply() {
+			return es.Thrown()
+		}
+	}
+	for i := int64(0); i < n; i++ {
+		if !apply() {
+			return es.Thrown()
+		}
+	}
+
+	return toReturn
+}
+
 func getFunctionalDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "Function",
@@ -598,7 +698,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			f := this.GetParts()[1]
 			expr := this.GetParts()[2]
 			nInt, isInteger := this.GetParts()[3].(*atoms.Integer)
-			if !isInteger {
+			if !isInteger || !nInt.Val.IsInt64() {
 				return this
 			}
 			n := nInt.Val.Int64()
@@ -624,99 +724,20 @@ func getFunctionalDefinitions() (defs []Definition) {
 
 	defs = append(defs, Definition{Name: "Nest"})
 	defs = append(defs, Definition{
-		Name: "NestWhileList",
+		Name:         "NestWhileList",
+		legacyEvalFn: nestWhileList,
+	})
+	defs = append(defs, Definition{
+		Name: "NestWhile",
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
-			if len(this.GetParts()) < 4 || len(this.GetParts()) > 7 {
-				return this
-			}
-
-			f := this.GetParts()[1]
-			expr := this.GetParts()[2]
-			test := this.GetParts()[3]
-
-			m := int64(1)
-			if len(this.GetParts()) > 4 {
-				mInt, isInteger := this.GetParts()[4].(*atoms.Integer)
-				mSymbol, isSymbol := this.GetParts()[4].(*atoms.Symbol)
-				if isInteger {
-					m = mInt.Val.Int64()
-					if m < 0 {
-						return this
-					}
-				} else if isSymbol {
-					if mSymbol.IsEqual(atoms.NewSymbol("System`All")) == "EQUAL_TRUE" {
-						m = -1
-					} else {
-						return this
-					}
-				} else {
-					return this
-				}
-			}
-
-			max := int64(-1)
-			if len(this.GetParts()) > 5 {
-				maxInt, isInteger := this.GetParts()[5].(*atoms.Integer)
-				maxSymbol, isSymbol := this.GetParts()[5].(*atoms.Symbol)
-				if isInteger {
-					max = maxInt.Val.Int64()
-					if maxInt.Val.Int64() < 0 {
-						return this
-					}
-				} else if isSymbol {
-					if maxSymbol.IsEqual(atoms.NewSymbol("System`Infinity")) == "EQUAL_TRUE" {
-						max = -1
-					} else {
-						return this
-					}
-				} else {
-					return this
-				}
+			results := nestWhileList(this, es)
+			if results == expreduceapi.Ex(this) || es.HasThrown() {
+				return results
 			}
-
-			n := int64(0)
-			if len(this.GetParts()) > 6 {
-				bonusIterationsInt, isInteger := this.GetParts()[6].(*atoms.Integer)
-				if isInteger && bonusIterationsInt.Val.Int64() >= int64(0) {
-					n = bonusIterationsInt.Val.Int64()
-				}
-			}
-
-			toReturn := atoms.E(atoms.S("List"), expr)
-			apply := func() bool {
-				expr = es.Eval(atoms.E(f, expr))
-				toReturn.AppendEx(expr)
-				return !es.HasThrown()
-			}
-
-			for i := int64(0); max == -1 || i < max; i++ {
-				results := toReturn.GetParts()[1:]
-				if int64(len(results)) >= m {
-					if m >= 0 {
-						results = results[int64(len(results))-m:]
-					}
-					testRes := es.Eval(atoms.E(append([]expreduceapi.Ex{test}, results...)...))
-					if es.HasThrown() {
-						return es.Thrown()
-					}
-					if !atoms.IsSameQ(testRes, atoms.S("True")) {
-						break
-					}
-				}
-				if !apply() {
-					return es.Thrown()
-				}
-			}
-			for i := int64(0); i < n; i++ {
-				if !apply() {
-					return es.Thrown()
-				}
-			}
-
-			return toReturn
+			parts := results.(expreduceapi.ExpressionInterface).GetParts()
+			return parts[len(parts)-1]
 		},
 	})
-	defs = append(defs, Definition{Name: "NestWhile"})
 	defs = append(defs, Definition{Name: "FixedPointList"})
 	defs = append(defs, Definition{
 		Name: "FixedPoint",
@@ -742,7 +763,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			}
 
 			nInt, nOk := this.GetParts()[2].(*atoms.Integer)
-			if nOk {
+			if nOk && nInt.Val.Sign() >= 0 && nInt.Val.IsInt64() {
 				n := nInt.Val.Int64()
 				toReturn := atoms.NewExpression(
 					[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 3c4826e..0e9f4a0 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -1903,7 +1903,7 @@ Tests`+"`"+`NestList = {
 }
 
 Nest::usage = "`+"`"+`Nest[f, expr, n]`+"`"+` returns `+"`"+`f`+"`"+` wrapped around `+"`"+`expr`+"`"+` `+"`"+`n`+"`"+` times."
-Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; n >= 0
+Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; 0 <= n < 2^63
 Attributes[Nest] = {Protected}
 Tests`+"`"+`Nest = {
     ESimpleExamples[
@@ -1931,7 +1931,6 @@ NestWhile::usage = "`+"`"+`NestWhile[f, expr, test, m, max, n]`+"`"+` applies `+
 `+"`"+`test`+"`"+` is a function that takes as its argument the last `+"`"+`m`+"`"+` results. `+"`"+`max`+"`"+` denotes the maximum number of applications
 of `+"`"+`f`+"`"+` and `+"`"+`n`+"`"+` denotes that `+"`"+`f`+"`"+` should be applied another `+"`"+`n`+"`"+` times after `+"`"+`test`+"`"+` has terminated the recursion."
 Attributes[NestWhile] = {Protected}
-NestWhile[args__] := Last[NestWhileList[args]]
 Tests`+"`"+`NestWhile = {
     ESimpleExamples[
         ESameTest[256, NestWhile[#^2 &, 2, # < 256 &]],
diff --git a/expreduce/resources/functional.m b/expreduce/resources/functional.m
index b9c2a35..38748fd 100644
--- a/expreduce/resources/functional.m
+++ b/expreduce/resources/functional.m
@@ -177,7 +177,7 @@ Tests`NestList = {
 }
 
 Nest::usage = "`Nest[f, expr, n]` returns `f` wrapped around `expr` `n` times."
-Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; n >= 0
+Nest[f_, expr_, n_Integer] := Last[NestList[f, expr, n]] /; 0 <= n < 2^63
 Attributes[Nest] = {Protected}
 Tests`Nest = {
     ESimpleExamples[
@@ -205,7 +205,6 @@ NestWhile::usage = "`NestWhile[f, expr, test, m, max, n]` applies `f` to `expr`
 `test` is a function that takes as its argument the last `m` results. `max` denotes the maximum number of applications
 of `f` and `n` denotes that `f` should be applied another `n` times after `test` has terminated the recursion."
 Attributes[NestWhile] = {Protected}
-NestWhile[args__] := Last[NestWhileList[args]]
 Tests`NestWhile = {
     ESimpleExamples[
         ESameTest[256, NestWhile[#^2 &, 2, # < 256 &]],
-- 
2.43.0


From 82f5320a9cf75ae7af849c89335116186ba22159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 053/100] fix: Mod, LCM, PowerMod, Fibonacci, Prime, PrimePi
 and IntegerDigits are right for negative, rational, zero and large arguments

---
 expreduce/builtin_numbertheory.go  | 170 +++++++++++++++++++++++++----
 expreduce/resources.go             |  14 +--
 expreduce/resources/numbertheory.m |  14 +--
 3 files changed, 154 insertions(+), 44 deletions(-)

diff --git a/expreduce/builtin_numbertheory.go b/expreduce/builtin_numbertheory.go
index 1db4519..6d7e0d7 100644
--- a/expreduce/builtin_numbertheory.go
+++ b/expreduce/builtin_numbertheory.go
@@ -61,6 +61,72 @@ func primeFactorsTallied(n *big.Int) (factorTallies []factorTally) {
 	return
 }
 
+// The value of an Integer or Rational.
+func exactRat(ex expreduceapi.Ex) (*big.Rat, bool) {
+	if asInt, isInt := ex.(*atoms.Integer); isInt {
+		return new(big.Rat).SetInt(asInt.Val), true
+	}
+	if asRat, isRat := ex.(*atoms.Rational); isRat && asRat.Den.Sign() != 0 {
+		return new(big.Rat).SetFrac(asRat.Num, asRat.Den), true
+	}
+	return nil, false
+}
+
+func ratToEx(r *big.Rat) expreduceapi.Ex {
+	if r.IsInt() {
+		return atoms.NewInteger(new(big.Int).Set(r.Num()))
+	}
+	return atoms.NewRational(
+		new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom()))
+}
+
+// The remainder of x by a nonzero y. The result has the sign of y.
+func floorMod(x, y *big.Rat) *big.Rat {
+	quo := new(big.Rat).Quo(x, y)
+	// Denominators are positive, so Euclidean division rounds down.
+	floor := new(big.Int).Div(quo.Num(), quo.Denom())
+	res := new(big.Rat).SetInt(floor)
+	return res.Sub(x, res.Mul(res, y))
+}
+
+// The least positive rational that is an integer multiple of both, or zero.
+func ratLCM(x, y *big.Rat) *big.Rat {
+	if x.Sign() == 0 || y.Sign() == 0 {
+		return new(big.Rat)
+	}
+	num := new(big.Int).Mul(x.Num(), y.Num())
+	num.Quo(num, new(big.Int).GCD(
+		nil, nil,
+		new(big.Int).Abs(x.Num()), new(big.Int).Abs(y.Num())))
+	den := new(big.Int).GCD(nil, nil, x.Denom(), y.Denom())
+	return new(big.Rat).SetFrac(num.Abs(num), den)
+}
+
+func fibonacci(n *big.Int) *big.Int {
+	// Computes the pair (F(k), F(k+1)) for the leading bits k of n.
+	a, b := big.NewInt(0), big.NewInt(1)
+	abs := new(big.Int).Abs(n)
+	for i := abs.BitLen() - 1; i >= 0; i-- {
+		// F(2k) = F(k) (2 F(k+1) - F(k)), F(2k+1) = F(k)^2 + F(k+1)^2
+		c := new(big.Int).Lsh(b, 1)
+		c.Mul(c.Sub(c, a), a)
+		d := new(big.Int).Mul(a, a)
+		d.Add(d, b.Mul(b, b))
+		if abs.Bit(i) == 0 {
+			a, b = c, d
+		} else {
+			a, b = d, c.Add(c, d)
+		}
+	}
+	if n.Sign() < 0 && abs.Bit(0) == 0 {
+		a.Neg(a)
+	}
+	return a
+}
+
+// The sieve of an unreasonable bound does not fit into memory.
+const maxSieveBound = 1 << 32
+
 func getNumberTheoryDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name:         "PrimeQ",
@@ -98,24 +164,42 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 			return atoms.NewInteger(gcd)
 		},
 	})
-	defs = append(defs, Definition{Name: "LCM"})
+	defs = append(defs, Definition{
+		Name: "LCM",
+		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+			if len(this.GetParts()) < 2 {
+				return this
+			}
+			lcm := big.NewRat(1, 1)
+			for i, part := range this.GetParts()[1:] {
+				val, isExact := exactRat(part)
+				if !isExact {
+					return this
+				}
+				if i == 0 {
+					lcm = val.Abs(val)
+				} else {
+					lcm = ratLCM(lcm, val)
+				}
+			}
+			return ratToEx(lcm)
+		},
+	})
 	defs = append(defs, Definition{
 		Name: "Mod",
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
 			if len(this.GetParts()) != 3 {
 				return this
 			}
-			xi, xIsInt := this.GetParts()[1].(*atoms.Integer)
-			yi, yIsInt := this.GetParts()[2].(*atoms.Integer)
-			if !xIsInt || !yIsInt {
+			x, xIsExact := exactRat(this.GetParts()[1])
+			y, yIsExact := exactRat(this.GetParts()[2])
+			if !xIsExact || !yIsExact {
 				return this
 			}
-			if yi.Val.Cmp(big.NewInt(0)) == 0 {
+			if y.Sign() == 0 {
 				return atoms.NewSymbol("System`Indeterminate")
 			}
-			m := big.NewInt(0)
-			m.Mod(xi.Val, yi.Val)
-			return atoms.NewInteger(m)
+			return ratToEx(floorMod(x, y))
 		},
 	})
 	defs = append(defs, Definition{
@@ -126,26 +210,31 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 			if len(this.GetParts()) != 2 {
 				return this
 			}
-			n := int64(0)
+			var bound *big.Int
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
 			if isInt {
-				n = asInt.Val.Int64()
+				bound = asInt.Val
 			}
 			asFlt, isFlt := this.GetParts()[1].(*atoms.Flt)
-			if isFlt {
-				n, _ = asFlt.Val.Int64()
+			if isFlt && !asFlt.Val.IsInf() {
+				bound, _ = asFlt.Val.Int(nil)
 			}
-			if !isInt && !isFlt {
+			if bound == nil {
 				return this
 			}
-			if n <= 0 {
+			if bound.Sign() <= 0 {
 				return atoms.NewInteger(big.NewInt(0))
 			}
+			if bound.Cmp(big.NewInt(maxSieveBound)) > 0 {
+				return this
+			}
+			n := bound.Int64()
 			if n == 1 {
 				return atoms.NewInteger(big.NewInt(1))
 			}
-			// A very inefficient implementation
-			p := prime.Primes(uint64(n))
+			// A very inefficient implementation. See the comment in Prime for
+			// why prime.Primes is not used.
+			p := prime.SieveOfEratosthenes(uint64(n))
 			return atoms.NewInteger(big.NewInt(int64(len(p))))
 		},
 		SimpleExamples: []TestInstruction{
@@ -174,24 +263,23 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 				return this
 			}
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
-			if !isInt {
+			if !isInt || !asInt.Val.IsInt64() {
 				return this
 			}
 			n := asInt.Val.Int64()
 			if n <= 0 {
 				return this
 			}
-			// (Solve[n*(Log[n]+Log[Log[n]])==2^63,n, Reals][[1,1,2]]//N//Floor)-1000
-			if n > 211642827166041848 {
-				// Large numbers are not supported yet due to lack of big integer support.
-				return this
-			}
 			floatN := float64(n)
 			// https://math.stackexchange.com/questions/1270814/bounds-for-n-th-prime
 			upperBound := floatN * (math.Log(floatN) + math.Log(math.Log(floatN)))
 			if n < 6 {
 				upperBound = 11
 			}
+			if upperBound > maxSieveBound {
+				// Large numbers are not supported yet.
+				return this
+			}
 			// There is a bug in prime.Primes where the csegPool uses a stale segSize when
 			// we call the function for increasing values. For example, prime.Primes(15)
 			// and prime.Primes(19) will trigger the issue. To bypass this issue, use the
@@ -220,9 +308,43 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{Name: "FactorInteger"})
 	defs = append(defs, Definition{Name: "FractionalPart"})
 	defs = append(defs, Definition{Name: "IntegerPart"})
-	defs = append(defs, Definition{Name: "PowerMod"})
+	defs = append(defs, Definition{
+		Name: "PowerMod",
+		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+			if len(this.GetParts()) != 4 {
+				return this
+			}
+			x, xIsInt := this.GetParts()[1].(*atoms.Integer)
+			y, yIsInt := this.GetParts()[2].(*atoms.Integer)
+			m, mIsInt := this.GetParts()[3].(*atoms.Integer)
+			if !xIsInt || !yIsInt || !mIsInt || m.Val.Sign() == 0 {
+				return this
+			}
+			abs := new(big.Int).Abs(m.Val)
+			base := new(big.Int).Mod(x.Val, abs)
+			exp := new(big.Int).Abs(y.Val)
+			if y.Val.Sign() < 0 && base.ModInverse(base, abs) == nil {
+				return this
+			}
+			res := new(big.Rat).SetInt(base.Exp(base, exp, abs))
+			return ratToEx(floorMod(res, new(big.Rat).SetInt(m.Val)))
+		},
+	})
 	defs = append(defs, Definition{Name: "EulerPhi"})
-	defs = append(defs, Definition{Name: "Fibonacci"})
+	defs = append(defs, Definition{
+		Name: "Fibonacci",
+		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+			if len(this.GetParts()) != 2 {
+				return this
+			}
+			n, isInt := this.GetParts()[1].(*atoms.Integer)
+			// The number has about 0.7 times as many bits as the index says.
+			if !isInt || n.Val.CmpAbs(big.NewInt(maxSieveBound)) > 0 {
+				return this
+			}
+			return atoms.NewInteger(fibonacci(n.Val))
+		},
+	})
 	defs = append(defs, Definition{Name: "IntegerDigits"})
 	defs = append(defs, Definition{Name: "FromDigits"})
 	defs = append(defs, Definition{Name: "Sign"})
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 0e9f4a0..0fe58a9 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -2932,9 +2932,6 @@ Tests`+"`"+`GCD = {
 };
 
 LCM::usage = "`+"`"+`LCM[n1, n2, ...]`+"`"+` finds the least common multiple of the inputs.";
-LCM[a_?NumberQ, b_?NumberQ] := (a/GCD[a, b])*b;
-LCM[a_?NumberQ, b_?NumberQ, rest__?NumberQ] := 
-  LCM[LCM[a, b], rest];
 Attributes[LCM]={Flat,Listable,OneIdentity,Orderless,Protected};
 Tests`+"`"+`LCM = {
     ESimpleExamples[
@@ -2955,7 +2952,6 @@ Tests`+"`"+`LCM = {
 Mod::usage = "`+"`"+`Mod[x, y]`+"`"+` finds the remainder when `+"`"+`x`+"`"+` is divided by `+"`"+`y`+"`"+`.";
 (* Factor out numeric constants like Pi: *)
 Mod[a_Integer*c_?NumericQ,b_Integer*c_?NumericQ] := c * Mod[a,b];
-Mod[Rational[a_,b_],c_Integer] := Mod[a,c*b] / b;
 Attributes[Mod] = {Listable, NumericFunction, ReadProtected, Protected};
 Tests`+"`"+`Mod = {
     ESimpleExamples[
@@ -3089,8 +3085,7 @@ Tests`+"`"+`IntegerPart = {
 };
 
 PowerMod::usage = "`+"`"+`PowerMod[x, y, m]`+"`"+` computes `+"`"+`Mod[x^y, m]`+"`"+`";
-(*TODO: use efficient version of this function.*)
-PowerMod[x_, y_, m_] := Mod[x^y, m];
+PowerMod[x_, y_, m_] := Mod[x^y, m] /; !AllTrue[{x, y, m}, IntegerQ];
 Attributes[PowerMod] = {Listable, Protected, ReadProtected};
 Tests`+"`"+`PowerMod = {
     ESimpleExamples[
@@ -3117,9 +3112,7 @@ Tests`+"`"+`EulerPhi = {
 };
 
 Fibonacci::usage = "`+"`"+`Fibonacci[n]`+"`"+` computes the Fibonacci number for `+"`"+`n`+"`"+`";
-Fibonacci[0] = 0; Fibonacci[1] = 1;
 (*TODO: implement as RootReduce@(((1 + Sqrt[5])/2)^n - ((1 - Sqrt[5])/2)^n)/Sqrt[5]*)
-Fibonacci[n_] := Fibonacci[n] = Fibonacci[n - 1] + Fibonacci[n - 2];
 Attributes[Fibonacci] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`+"`"+`Fibonacci = {
     ESimpleExamples[
@@ -3129,14 +3122,15 @@ Tests`+"`"+`Fibonacci = {
 
 IntegerDigits::usage = "`+"`"+`IntegerDigits[n, base]`+"`"+` returns a list of integer digits for `+"`"+`n`+"`"+` under `+"`"+`base`+"`"+`.";
 IntegerDigits[n_Integer] := IntegerDigits[n, 10];
-IntegerDigits[signedN_Integer, base_Integer?Positive] :=
+IntegerDigits[signedN_Integer, base_Integer] :=
   Module[{n = Abs[signedN], list = {}},
+   If[n === 0, Return[{0}]];
    While[n > 0,
     PrependTo[list, Mod[n, base]];
     n = (n - Mod[n, base])/base;
     ];
    list
-   ];
+   ] /; base > 1;
 Attributes[IntegerDigits] = {Listable, Protected};
 Tests`+"`"+`IntegerDigits = {
     ESimpleExamples[
diff --git a/expreduce/resources/numbertheory.m b/expreduce/resources/numbertheory.m
index f568ca8..7137c1e 100644
--- a/expreduce/resources/numbertheory.m
+++ b/expreduce/resources/numbertheory.m
@@ -70,9 +70,6 @@ Tests`GCD = {
 };
 
 LCM::usage = "`LCM[n1, n2, ...]` finds the least common multiple of the inputs.";
-LCM[a_?NumberQ, b_?NumberQ] := (a/GCD[a, b])*b;
-LCM[a_?NumberQ, b_?NumberQ, rest__?NumberQ] := 
-  LCM[LCM[a, b], rest];
 Attributes[LCM]={Flat,Listable,OneIdentity,Orderless,Protected};
 Tests`LCM = {
     ESimpleExamples[
@@ -93,7 +90,6 @@ Tests`LCM = {
 Mod::usage = "`Mod[x, y]` finds the remainder when `x` is divided by `y`.";
 (* Factor out numeric constants like Pi: *)
 Mod[a_Integer*c_?NumericQ,b_Integer*c_?NumericQ] := c * Mod[a,b];
-Mod[Rational[a_,b_],c_Integer] := Mod[a,c*b] / b;
 Attributes[Mod] = {Listable, NumericFunction, ReadProtected, Protected};
 Tests`Mod = {
     ESimpleExamples[
@@ -227,8 +223,7 @@ Tests`IntegerPart = {
 };
 
 PowerMod::usage = "`PowerMod[x, y, m]` computes `Mod[x^y, m]`";
-(*TODO: use efficient version of this function.*)
-PowerMod[x_, y_, m_] := Mod[x^y, m];
+PowerMod[x_, y_, m_] := Mod[x^y, m] /; !AllTrue[{x, y, m}, IntegerQ];
 Attributes[PowerMod] = {Listable, Protected, ReadProtected};
 Tests`PowerMod = {
     ESimpleExamples[
@@ -255,9 +250,7 @@ Tests`EulerPhi = {
 };
 
 Fibonacci::usage = "`Fibonacci[n]` computes the Fibonacci number for `n`";
-Fibonacci[0] = 0; Fibonacci[1] = 1;
 (*TODO: implement as RootReduce@(((1 + Sqrt[5])/2)^n - ((1 - Sqrt[5])/2)^n)/Sqrt[5]*)
-Fibonacci[n_] := Fibonacci[n] = Fibonacci[n - 1] + Fibonacci[n - 2];
 Attributes[Fibonacci] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`Fibonacci = {
     ESimpleExamples[
@@ -267,14 +260,15 @@ Tests`Fibonacci = {
 
 IntegerDigits::usage = "`IntegerDigits[n, base]` returns a list of integer digits for `n` under `base`.";
 IntegerDigits[n_Integer] := IntegerDigits[n, 10];
-IntegerDigits[signedN_Integer, base_Integer?Positive] :=
+IntegerDigits[signedN_Integer, base_Integer] :=
   Module[{n = Abs[signedN], list = {}},
+   If[n === 0, Return[{0}]];
    While[n > 0,
     PrependTo[list, Mod[n, base]];
     n = (n - Mod[n, base])/base;
     ];
    list
-   ];
+   ] /; base > 1;
 Attributes[IntegerDigits] = {Listable, Protected};
 Tests`IntegerDigits = {
     ESimpleExamples[
-- 
2.43.0


From 430df179a39fd41c6c089bc51c24e1771264f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 054/100] fix: the empty list has one permutation, and limits
 beyond the machine range do not wrap in IntegerPartitions

---
 expreduce/builtin_combinatorics.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index dd230d1..1abf6bb 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -60,7 +60,7 @@ func genPermutations(
 	cl expreduceapi.LoggingInterface,
 ) (perms [][]expreduceapi.Ex) {
 	// Base case
-	if len(parts) == 1 {
+	if len(parts) <= 1 {
 		return [][]expreduceapi.Ex{parts}
 	}
 	// Recursion
@@ -114,6 +114,9 @@ func getCombinatoricsDefinitions() (defs []Definition) {
 			if !nIsInt {
 				return this
 			}
+			if n.Val.Sign() > 0 && !n.Val.IsInt64() {
+				return this
+			}
 			nnumMachine := int(n.Val.Int64())
 
 			knumMachine := nnumMachine
@@ -122,7 +125,13 @@ func getCombinatoricsDefinitions() (defs []Definition) {
 				if !knumIsInt {
 					return this
 				}
-				knumMachine = int(k.Val.Int64())
+				// Only a smaller limit makes a difference.
+				if k.Val.Cmp(n.Val) < 0 {
+					knumMachine = 0
+					if k.Val.Sign() > 0 {
+						knumMachine = int(k.Val.Int64())
+					}
+				}
 			}
 
 			cmpVal := n.Val.Cmp(big.NewInt(0))
-- 
2.43.0


From c058d6a7da7afb3074782cfd720576e4cc85bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 055/100] fix: Dimensions keeps the common extents of ragged
 arrays, MatrixQ rejects lists of arrays, Dot multiplies chains of vectors and
 matrices that fit, and singular matrices have no inverse

---
 expreduce/builtin_matrix.go  | 132 ++++++++++++++++++++---------------
 expreduce/qfunctions.go      |   9 ++-
 expreduce/resources.go       |   7 +-
 expreduce/resources/matrix.m |   7 +-
 4 files changed, 87 insertions(+), 68 deletions(-)

diff --git a/expreduce/builtin_matrix.go b/expreduce/builtin_matrix.go
index c617a85..dc1cfdf 100644
--- a/expreduce/builtin_matrix.go
+++ b/expreduce/builtin_matrix.go
@@ -21,17 +21,17 @@ func dimensions(
 			return dims
 		}
 		currDims := dimensions(subHead, level+1, cl)
-		if i != 1 {
-			if len(nextDims) > len(currDims) {
-				nextDims = nextDims[:len(currDims)-1]
-			}
-			for i := range nextDims {
-				if nextDims[i] != currDims[i] {
-					return dims
-				}
-			}
+		if i == 1 {
+			nextDims = currDims
+			continue
+		}
+		// Only the extents that all of the parts have in common count.
+		common := 0
+		for common < len(nextDims) && common < len(currDims) &&
+			nextDims[common] == currDims[common] {
+			common++
 		}
-		nextDims = currDims
+		nextDims = nextDims[:common]
 	}
 	return append(dims, nextDims...)
 }
@@ -74,6 +74,59 @@ func calcIJ(
 	return toReturn
 }
 
+// Multiplies two vectors or matrices. Returns nil if they do not fit.
+func dotPair(a, b expreduceapi.Ex, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
+	aIsVector, bIsVector := vectorQ(a), vectorQ(b)
+	if !aIsVector && !matrixQ(a, es.GetLogger()) {
+		return nil
+	}
+	if !bIsVector && !matrixQ(b, es.GetLogger()) {
+		return nil
+	}
+	// Treat a vector as a matrix of one row or one column.
+	asList := func(ex ...expreduceapi.Ex) expreduceapi.ExpressionInterface {
+		return atoms.NewExpression(append([]expreduceapi.Ex{
+			atoms.NewSymbol("System`List"),
+		}, ex...))
+	}
+	aEx, bEx := a.(expreduceapi.ExpressionInterface), b.(expreduceapi.ExpressionInterface)
+	if aIsVector {
+		aEx = asList(aEx)
+	}
+	if bIsVector {
+		column := asList()
+		for _, part := range bEx.GetParts()[1:] {
+			column.AppendEx(asList(part))
+		}
+		bEx = column
+	}
+	aH, bH := int64(len(aEx.GetParts())-1), int64(len(bEx.GetParts())-1)
+	aW := dimensions(aEx, 0, es.GetLogger())[1]
+	bW := int64(1)
+	if !bIsVector {
+		bW = dimensions(bEx, 0, es.GetLogger())[1]
+	}
+	if aW != bH {
+		return nil
+	}
+	toReturn := asList()
+	for i := int64(1); i <= aH; i++ {
+		row := asList()
+		for j := int64(1); j <= bW; j++ {
+			row.AppendEx(calcIJ(i, j, aW, aEx, bEx))
+		}
+		if bIsVector {
+			toReturn.AppendEx(row.GetParts()[1])
+		} else {
+			toReturn.AppendEx(row)
+		}
+	}
+	if aIsVector {
+		return toReturn.GetParts()[1]
+	}
+	return toReturn
+}
+
 func getMatrixDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name:    "Inverse",
@@ -108,57 +161,20 @@ func getMatrixDefinitions() (defs []Definition) {
 			if len(this.GetParts()) == 2 {
 				return this.GetParts()[1]
 			}
-			if len(this.GetParts()) != 3 {
-				return this
-			}
-			aIsVector := vectorQ(this.GetParts()[1])
-			bIsVector := vectorQ(this.GetParts()[2])
-			if aIsVector && bIsVector {
-				aVector := this.GetParts()[1].(expreduceapi.ExpressionInterface)
-				bVector := this.GetParts()[2].(expreduceapi.ExpressionInterface)
-				if len(aVector.GetParts()) != len(bVector.GetParts()) {
-					return this
-				}
-				vecLen := len(aVector.GetParts()) - 1
-				toReturn := atoms.NewExpression(
-					[]expreduceapi.Ex{atoms.NewSymbol("System`Plus")},
-				)
-				for i := 0; i < vecLen; i++ {
-					toReturn.AppendEx(atoms.NewExpression([]expreduceapi.Ex{
-						atoms.NewSymbol("System`Times"),
-						aVector.GetParts()[i+1],
-						bVector.GetParts()[i+1],
-					}))
-				}
-				return toReturn
-			}
-			aIsMatrix := matrixQ(this.GetParts()[1], es.GetLogger())
-			bIsMatrix := matrixQ(this.GetParts()[2], es.GetLogger())
-			if aIsMatrix && bIsMatrix {
-				aEx := this.GetParts()[1].(expreduceapi.ExpressionInterface)
-				bEx := this.GetParts()[2].(expreduceapi.ExpressionInterface)
-				aDims := dimensions(aEx, 0, es.GetLogger())
-				bDims := dimensions(bEx, 0, es.GetLogger())
-				if len(aDims) != 2 || len(bDims) != 2 {
-					return this
+			// Multiply the first neighbors that fit.
+			for i := 1; i+1 < len(this.GetParts()); i++ {
+				product := dotPair(this.GetParts()[i], this.GetParts()[i+1], es)
+				if product == nil {
+					continue
 				}
-				aH, aW := aDims[0], aDims[1]
-				bH, bW := bDims[0], bDims[1]
-				if aW != bH {
-					return this
+				if len(this.GetParts()) == 3 {
+					return product
 				}
 				toReturn := atoms.NewExpression(
-					[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
-				)
-				for i := int64(1); i <= aH; i++ {
-					row := atoms.NewExpression(
-						[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
-					)
-					for j := int64(1); j <= bW; j++ {
-						//row.appendEx(&Integer{big.NewInt(0)})
-						row.AppendEx(calcIJ(i, j, aW, aEx, bEx))
-					}
-					toReturn.AppendEx(row)
+					append([]expreduceapi.Ex{}, this.GetParts()[:i]...))
+				toReturn.AppendEx(product)
+				for _, part := range this.GetParts()[i+2:] {
+					toReturn.AppendEx(part)
 				}
 				return toReturn
 			}
diff --git a/expreduce/qfunctions.go b/expreduce/qfunctions.go
index 035e2b5..0e97dcf 100644
--- a/expreduce/qfunctions.go
+++ b/expreduce/qfunctions.go
@@ -53,8 +53,13 @@ func vectorQ(e expreduceapi.Ex) bool {
 
 func matrixQ(e expreduceapi.Ex, cl expreduceapi.LoggingInterface) bool {
 	l, isL := atoms.HeadAssertion(e, "System`List")
-	if isL {
-		return len(dimensions(l, 0, cl)) == 2
+	if isL && len(dimensions(l, 0, cl)) == 2 {
+		for _, row := range l.GetParts()[1:] {
+			if !vectorQ(row) {
+				return false
+			}
+		}
+		return true
 	}
 	return false
 }
diff --git a/expreduce/resources.go b/expreduce/resources.go
index 0fe58a9..b90f86f 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -2736,9 +2736,9 @@ func resourcesManipM() (*asset, error) {
 }
 
 var _resourcesMatrixM = []byte(`Inverse::usage = "`+"`"+`Inverse[mat]`+"`"+` finds the inverse of the square matrix `+"`"+`mat`+"`"+`.";
-Inverse[{{a_}}] := {{1/a}};
-Inverse[{{a_, b_}, {c_, d_}}] := {{d/(-b c + a d), -(b/(-b c + a d))}, {-(c/(-b c + a d)), a/(-b c + a d)}};
-Inverse[{{a_, b_, c_}, {d_, e_, f_}, {h_, i_, j_}}] := {{(-f i + e j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c i - b j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c e + b f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(f h - d j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c h + a j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c d - a f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(-e h + d i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (b h - a i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-b d + a e)/(-c e h + b f h + c d i - a f i - b d j + a e j)}};
+Inverse[{{a_}}] := {{1/a}} /; a =!= 0;
+Inverse[{{a_, b_}, {c_, d_}}] := {{d/(-b c + a d), -(b/(-b c + a d))}, {-(c/(-b c + a d)), a/(-b c + a d)}} /; -b c + a d =!= 0;
+Inverse[{{a_, b_, c_}, {d_, e_, f_}, {h_, i_, j_}}] := {{(-f i + e j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c i - b j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c e + b f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(f h - d j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c h + a j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c d - a f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(-e h + d i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (b h - a i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-b d + a e)/(-c e h + b f h + c d i - a f i - b d j + a e j)}} /; -c e h + b f h + c d i - a f i - b d j + a e j =!= 0;
 Attributes[Inverse] = {Protected};
 Tests`+"`"+`Inverse = {
     ESimpleExamples[
@@ -2811,7 +2811,6 @@ Tests`+"`"+`MatrixQ = {
 };
 
 Dot::usage = "`+"`"+`a.b`+"`"+` computes the product of `+"`"+`a`+"`"+` and `+"`"+`b`+"`"+` for vectors and matrices.";
-Dot[m_?MatrixQ,v_?VectorQ]:=Table[m[[idx]].v,{idx,Length[v]}];
 Attributes[Dot] = {Flat, OneIdentity, Protected};
 Tests`+"`"+`Dot = {
     ESimpleExamples[
diff --git a/expreduce/resources/matrix.m b/expreduce/resources/matrix.m
index 8a76d30..bf6c6b4 100644
--- a/expreduce/resources/matrix.m
+++ b/expreduce/resources/matrix.m
@@ -1,7 +1,7 @@
 Inverse::usage = "`Inverse[mat]` finds the inverse of the square matrix `mat`.";
-Inverse[{{a_}}] := {{1/a}};
-Inverse[{{a_, b_}, {c_, d_}}] := {{d/(-b c + a d), -(b/(-b c + a d))}, {-(c/(-b c + a d)), a/(-b c + a d)}};
-Inverse[{{a_, b_, c_}, {d_, e_, f_}, {h_, i_, j_}}] := {{(-f i + e j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c i - b j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c e + b f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(f h - d j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c h + a j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c d - a f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(-e h + d i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (b h - a i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-b d + a e)/(-c e h + b f h + c d i - a f i - b d j + a e j)}};
+Inverse[{{a_}}] := {{1/a}} /; a =!= 0;
+Inverse[{{a_, b_}, {c_, d_}}] := {{d/(-b c + a d), -(b/(-b c + a d))}, {-(c/(-b c + a d)), a/(-b c + a d)}} /; -b c + a d =!= 0;
+Inverse[{{a_, b_, c_}, {d_, e_, f_}, {h_, i_, j_}}] := {{(-f i + e j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c i - b j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c e + b f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(f h - d j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-c h + a j)/(-c e h + b f h + c d i - a f i - b d j + a e j), (c d - a f)/(-c e h + b f h + c d i - a f i - b d j + a e j)}, {(-e h + d i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (b h - a i)/(-c e h + b f h + c d i - a f i - b d j + a e j), (-b d + a e)/(-c e h + b f h + c d i - a f i - b d j + a e j)}} /; -c e h + b f h + c d i - a f i - b d j + a e j =!= 0;
 Attributes[Inverse] = {Protected};
 Tests`Inverse = {
     ESimpleExamples[
@@ -74,7 +74,6 @@ Tests`MatrixQ = {
 };
 
 Dot::usage = "`a.b` computes the product of `a` and `b` for vectors and matrices.";
-Dot[m_?MatrixQ,v_?VectorQ]:=Table[m[[idx]].v,{idx,Length[v]}];
 Attributes[Dot] = {Flat, OneIdentity, Protected};
 Tests`Dot = {
     ESimpleExamples[
-- 
2.43.0


From 51dba0803b733f88ef2e4d0c6809edaf5dde2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:42 +0000
Subject: [PATCH 056/100] fix: StringLength and StringTake count characters,
 and positions beyond the machine range do not wrap

---
 expreduce/builtin_string.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/expreduce/builtin_string.go b/expreduce/builtin_string.go
index 905aadb..494d01f 100644
--- a/expreduce/builtin_string.go
+++ b/expreduce/builtin_string.go
@@ -4,12 +4,25 @@ import (
 	"encoding/base64"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
 	"github.com/corywalker/expreduce/expreduce/graphics"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
+// runeOffset returns where the character with the 0-based index n starts. The
+// index right after the last character gives the length of the string.
+func runeOffset(s string, n int) int {
+	for i := range s {
+		if n == 0 {
+			return i
+		}
+		n--
+	}
+	return len(s)
+}
+
 func getStringDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "ToString",
@@ -74,7 +87,7 @@ func getStringDefinitions() (defs []Definition) {
 			if !isStr {
 				return this
 			}
-			return atoms.NewInt(int64(len(asStr.Val)))
+			return atoms.NewInt(int64(utf8.RuneCountInString(asStr.Val)))
 		},
 	})
 	defs = append(defs, Definition{
@@ -96,18 +109,20 @@ func getStringDefinitions() (defs []Definition) {
 			}
 			sInt, sIsInt := asList.GetParts()[1].(*atoms.Integer)
 			eInt, eIsInt := asList.GetParts()[2].(*atoms.Integer)
-			if !sIsInt || !eIsInt {
+			if !sIsInt || !eIsInt || !sInt.Val.IsInt64() || !eInt.Val.IsInt64() {
 				return this
 			}
 			s := int(sInt.Val.Int64() - 1)
 			e := int(eInt.Val.Int64() - 1)
-			if s < 0 || e >= len(asStr.Val) {
+			if s < 0 || e >= utf8.RuneCountInString(asStr.Val) {
 				return this
 			}
 			if e < s {
 				return atoms.NewString("")
 			}
-			return atoms.NewString(asStr.Val[s : e+1])
+			return atoms.NewString(
+				asStr.Val[runeOffset(asStr.Val, s):runeOffset(asStr.Val, e+1)],
+			)
 		},
 	})
 	defs = append(defs, Definition{
-- 
2.43.0


From 1af0d02d8b3672fc7924d092b1111c03310a058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:31 +0000
Subject: [PATCH 057/100] fix: every session draws its own sequence of random
 numbers

---
 expreduce/builtin_random.go |  6 ++----
 expreduce/evalstate.go      | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/expreduce/builtin_random.go b/expreduce/builtin_random.go
index 3662866..766d846 100644
--- a/expreduce/builtin_random.go
+++ b/expreduce/builtin_random.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"math/big"
-	"math/rand"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
@@ -19,7 +18,7 @@ func getRandomDefinitions() (defs []Definition) {
 				return this
 			}
 
-			return atoms.NewReal(big.NewFloat(rand.Float64()))
+			return atoms.NewReal(big.NewFloat(es.(*EvalState).randomFloat()))
 		},
 	})
 	defs = append(defs, Definition{
@@ -34,8 +33,7 @@ func getRandomDefinitions() (defs []Definition) {
 
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
 			if isInt {
-				//nolint:staticcheck
-				rand.Seed(asInt.Val.Int64())
+				es.(*EvalState).seedRandom(asInt.Val.Int64())
 				return atoms.NewSymbol("System`Null")
 			}
 
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index df3b16f..ba1091a 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,9 +2,11 @@ package expreduce
 
 import (
 	"fmt"
+	"math/rand"
 	"os"
 	"os/signal"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -34,6 +36,8 @@ type EvalState struct {
 	toStringFns             map[string]expreduceapi.ToStringFnType
 	profilingToStringParams expreduceapi.ToStringParams
 	streamManager           expreduceapi.StreamManager
+	randomSource            *rand.Rand
+	randomMutex             sync.Mutex
 }
 
 func (es *EvalState) GetDefined(name string) (expreduceapi.Def, bool) {
@@ -44,6 +48,23 @@ func (es *EvalState) SetDefined(name string, def expreduceapi.Def) {
 	es.GetDefinedMap().Set(name, def)
 }
 
+// seedRandom starts the sequence of random numbers of this session anew.
+func (es *EvalState) seedRandom(seed int64) {
+	es.randomMutex.Lock()
+	defer es.randomMutex.Unlock()
+	es.randomSource = rand.New(rand.NewSource(seed))
+}
+
+// randomFloat returns the next number of the sequence, from 0 to 1.
+func (es *EvalState) randomFloat() float64 {
+	es.randomMutex.Lock()
+	defer es.randomMutex.Unlock()
+	if es.randomSource == nil {
+		es.randomSource = rand.New(rand.NewSource(time.Now().UnixNano()))
+	}
+	return es.randomSource.Float64()
+}
+
 func (es *EvalState) GetStringFn(
 	headStr string,
 ) (expreduceapi.ToStringFnType, bool) {
-- 
2.43.0


From a0688f4ea202f5a9fe721f4cddfdb147c32ebad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 058/100] fix: the history stores inputs and outputs as they
 are

---
 expreduce/evalstate.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index ba1091a..91c5de3 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -766,10 +766,10 @@ func (es *EvalState) ProcessTopLevelResult(
 		es.interrupted = false
 	}
 	thisLine, _ := es.GetSymDef("System`$Line")
-	es.Eval(
-		atoms.E(atoms.S("SetDelayed"), atoms.E(atoms.S("In"), thisLine), in),
-	)
-	es.Eval(atoms.E(atoms.S("Set"), atoms.E(atoms.S("Out"), thisLine), theRes))
+	// Store both as they are. Evaluating an assignment here could evaluate the
+	// input once more, or take it apart.
+	es.Define(atoms.E(atoms.S("In"), thisLine), in)
+	es.Define(atoms.E(atoms.S("Out"), thisLine), theRes)
 	prePrintFn, hasPrePrint := es.GetSymDef("System`$PrePrint")
 	if hasPrePrint {
 		theRes = es.Eval(atoms.E(prePrintFn, theRes))
-- 
2.43.0


From 2e717f37b892c06535f085157876591a395acb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 059/100] fix: an escaped backslash followed by a character
 name in brackets stays in a string

---
 expreduce/parser/interp.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index e56b9ca..180b4a0 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -532,12 +532,17 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 	panic(syntaxError("unsupported syntax: " + expr.Case.String()))
 }
 
+var namedSyms = strings.NewReplacer(
+	// The second character of an escaped backslash does not start a name.
+	"\\\\", "\\\\",
+	"\\[Omega]", "ω",
+	"\\[CapitalOmega]", "Ω",
+	"\\[Alpha]", "α",
+	"\\[Theta]", "θ",
+)
+
 func ReplaceSyms(in string) string {
-	in = strings.Replace(in, "\\[Omega]", "ω", -1)
-	in = strings.Replace(in, "\\[CapitalOmega]", "Ω", -1)
-	in = strings.Replace(in, "\\[Alpha]", "α", -1)
-	in = strings.Replace(in, "\\[Theta]", "θ", -1)
-	return in
+	return namedSyms.Replace(in)
 }
 
 // The scanner reads on at the end of the input when a string or a comment is
-- 
2.43.0


From cb1b630977b76cca7f0f85393eff48ac410bbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 060/100] fix: goroutines that share expressions set the marks
 and hashes in them atomically

---
 expreduce/atoms/evalflag.go      | 27 +++++++++++++++++++
 expreduce/atoms/ex_complex.go    | 18 ++++++-------
 expreduce/atoms/ex_expression.go | 45 ++++++++++++++++++++------------
 expreduce/atoms/ex_integer.go    | 12 ++++++---
 expreduce/atoms/ex_rational.go   | 10 +++----
 expreduce/atoms/ex_symbol.go     | 13 +++++----
 expreduce/eval.go                |  9 ++++---
 7 files changed, 90 insertions(+), 44 deletions(-)
 create mode 100644 expreduce/atoms/evalflag.go

diff --git a/expreduce/atoms/evalflag.go b/expreduce/atoms/evalflag.go
new file mode 100644
index 0000000..c8c9145
--- /dev/null
+++ b/expreduce/atoms/evalflag.go
@@ -0,0 +1,27 @@
+package atoms
+
+import "sync/atomic"
+
+// evalFlag is a mark that goroutines which share an expression may set.
+type evalFlag uint32
+
+const (
+	flagUnset evalFlag = iota
+	flagSet
+)
+
+func (f *evalFlag) load() evalFlag {
+	return evalFlag(atomic.LoadUint32((*uint32)(f)))
+}
+
+func (f *evalFlag) isSet() bool {
+	return f.load() != flagUnset
+}
+
+func (f *evalFlag) set(value bool) {
+	newFlag := flagUnset
+	if value {
+		newFlag = flagSet
+	}
+	atomic.StoreUint32((*uint32)(f), uint32(newFlag))
+}
diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index 5e8050c..6157d91 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -12,7 +12,7 @@ import (
 type Complex struct {
 	Re        expreduceapi.Ex
 	Im        expreduceapi.Ex
-	needsEval bool
+	needsEval evalFlag
 }
 
 func (cmplx *Complex) AsExpr() expreduceapi.Ex {
@@ -47,7 +47,7 @@ func (cmplx *Complex) IsEqual(other expreduceapi.Ex) string {
 }
 
 func (cmplx *Complex) DeepCopy() expreduceapi.Ex {
-	return &Complex{cmplx.Re.DeepCopy(), cmplx.Im.DeepCopy(), cmplx.needsEval}
+	return &Complex{cmplx.Re.DeepCopy(), cmplx.Im.DeepCopy(), cmplx.needsEval.load()}
 }
 
 func (cmplx *Complex) Copy() expreduceapi.Ex {
@@ -55,11 +55,11 @@ func (cmplx *Complex) Copy() expreduceapi.Ex {
 }
 
 func (cmplx *Complex) NeedsEval() bool {
-	return cmplx.needsEval
+	return cmplx.needsEval.isSet()
 }
 
 func NewComplex(r expreduceapi.Ex, i expreduceapi.Ex) *Complex {
-	return &Complex{r, i, true}
+	return &Complex{r, i, flagSet}
 }
 
 func (cmplx *Complex) Hash() uint64 {
@@ -76,7 +76,7 @@ func (cmplx *Complex) Hash() uint64 {
 func (cmplx *Complex) addReal(e expreduceapi.Ex) {
 	a, _ := ComputeNumericPart(FoldFnAdd, E(S("Dummy"), cmplx.Re, e))
 	cmplx.Re = a
-	cmplx.needsEval = true
+	cmplx.needsEval.set(true)
 }
 
 func (cmplx *Complex) addI(i *Integer) {
@@ -96,7 +96,7 @@ func (cmplx *Complex) addC(c *Complex) {
 	b, _ := ComputeNumericPart(FoldFnAdd, E(S("Dummy"), cmplx.Im, c.Im))
 	cmplx.Re = a
 	cmplx.Im = b
-	cmplx.needsEval = true
+	cmplx.needsEval.set(true)
 }
 
 func (cmplx *Complex) mulReal(e expreduceapi.Ex) {
@@ -104,7 +104,7 @@ func (cmplx *Complex) mulReal(e expreduceapi.Ex) {
 	b, _ := ComputeNumericPart(FoldFnMul, E(S("Dummy"), cmplx.Im, e))
 	cmplx.Re = a
 	cmplx.Im = b
-	cmplx.needsEval = true
+	cmplx.needsEval.set(true)
 }
 
 func (cmplx *Complex) mulI(i *Integer) {
@@ -135,11 +135,11 @@ func (cmplx *Complex) mulC(c *Complex) {
 	f, _ := ComputeNumericPart(FoldFnAdd, E(S("Dummy"), cc, d))
 	cmplx.Re = e
 	cmplx.Im = f
-	cmplx.needsEval = true
+	cmplx.needsEval.set(true)
 }
 
 func (cmplx *Complex) SetNeedsEval(newVal bool) {
-	cmplx.needsEval = newVal
+	cmplx.needsEval.set(newVal)
 }
 
 func (cmplx *Complex) HasReal() bool {
diff --git a/expreduce/atoms/ex_expression.go b/expreduce/atoms/ex_expression.go
index 20e9736..8e93675 100644
--- a/expreduce/atoms/ex_expression.go
+++ b/expreduce/atoms/ex_expression.go
@@ -11,7 +11,7 @@ import (
 
 type Expression struct {
 	Parts                 []expreduceapi.Ex
-	needsEval             bool
+	needsEval             evalFlag
 	correctlyInstantiated bool
 	EvaledHash            uint64
 	CachedHash            uint64
@@ -173,10 +173,10 @@ func (thisExpr *Expression) DeepCopy() expreduceapi.Ex {
 	for i := range thisExpr.GetParts() {
 		thisExprcopy.AppendEx(thisExpr.GetParts()[i].DeepCopy())
 	}
-	thisExprcopy.needsEval = thisExpr.needsEval
+	thisExprcopy.needsEval = thisExpr.needsEval.load()
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
-	thisExprcopy.EvaledHash = thisExpr.EvaledHash
-	thisExprcopy.CachedHash = thisExpr.CachedHash
+	thisExprcopy.EvaledHash = thisExpr.LoadEvaledHash()
+	thisExprcopy.CachedHash = atomic.LoadUint64(&thisExpr.CachedHash)
 	return thisExprcopy
 }
 
@@ -184,10 +184,10 @@ func ShallowCopy(thisExprExprInt expreduceapi.ExpressionInterface) *Expression {
 	thisExpr := thisExprExprInt.(*Expression)
 	var thisExprcopy = NewEmptyExpression()
 	thisExprcopy.Parts = append([]expreduceapi.Ex{}, thisExpr.GetParts()...)
-	thisExprcopy.needsEval = thisExpr.needsEval
+	thisExprcopy.needsEval = thisExpr.needsEval.load()
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
-	thisExprcopy.EvaledHash = thisExpr.EvaledHash
-	thisExprcopy.CachedHash = thisExpr.CachedHash
+	thisExprcopy.EvaledHash = thisExpr.LoadEvaledHash()
+	thisExprcopy.CachedHash = atomic.LoadUint64(&thisExpr.CachedHash)
 	return thisExprcopy
 }
 
@@ -196,10 +196,10 @@ func (thisExpr *Expression) Copy() expreduceapi.Ex {
 	for i := range thisExpr.GetParts() {
 		thisExprcopy.GetParts()[i] = thisExpr.GetParts()[i].Copy()
 	}
-	thisExprcopy.needsEval = thisExpr.needsEval
+	thisExprcopy.needsEval = thisExpr.needsEval.load()
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
-	thisExprcopy.EvaledHash = thisExpr.EvaledHash
-	thisExprcopy.CachedHash = thisExpr.CachedHash
+	thisExprcopy.EvaledHash = thisExpr.LoadEvaledHash()
+	thisExprcopy.CachedHash = atomic.LoadUint64(&thisExpr.CachedHash)
 	return thisExprcopy
 }
 
@@ -225,16 +225,27 @@ func (thisExpr *Expression) AppendExArray(e []expreduceapi.Ex) {
 }
 
 func (thisExpr *Expression) NeedsEval() bool {
-	return thisExpr.needsEval
+	return thisExpr.needsEval.isSet()
 }
 
 func (thisExpr *Expression) SetNeedsEval(newVal bool) {
-	thisExpr.needsEval = newVal
+	thisExpr.needsEval.set(newVal)
+}
+
+// LoadEvaledHash reads the mark of a complete evaluation. Expressions are
+// shared, so another goroutine may be setting it.
+func (thisExpr *Expression) LoadEvaledHash() uint64 {
+	return atomic.LoadUint64(&thisExpr.EvaledHash)
+}
+
+// StoreEvaledHash sets the mark of a complete evaluation.
+func (thisExpr *Expression) StoreEvaledHash(newVal uint64) {
+	atomic.StoreUint64(&thisExpr.EvaledHash, newVal)
 }
 
 func (thisExpr *Expression) Hash() uint64 {
-	if atomic.LoadUint64(&thisExpr.CachedHash) > 0 {
-		return thisExpr.CachedHash
+	if cached := atomic.LoadUint64(&thisExpr.CachedHash); cached > 0 {
+		return cached
 	}
 	h := fnv.New64a()
 	h.Write([]byte{72, 5, 244, 86, 5, 210, 69, 30})
@@ -258,7 +269,7 @@ func (thisExpr *Expression) HeadStr() string {
 func NewExpression(parts []expreduceapi.Ex) *Expression {
 	return &Expression{
 		Parts:                 parts,
-		needsEval:             true,
+		needsEval:             flagSet,
 		correctlyInstantiated: true,
 	}
 }
@@ -273,7 +284,7 @@ func NewHead(head string) *Expression {
 
 func NewEmptyExpression() *Expression {
 	return &Expression{
-		needsEval:             true,
+		needsEval:             flagSet,
 		correctlyInstantiated: true,
 	}
 }
@@ -281,7 +292,7 @@ func NewEmptyExpression() *Expression {
 func newEmptyExpressionOfLength(n int) *Expression {
 	return &Expression{
 		Parts:                 make([]expreduceapi.Ex, n),
-		needsEval:             true,
+		needsEval:             flagSet,
 		correctlyInstantiated: true,
 	}
 }
diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index 428c6f8..5316e2d 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"math/big"
+	"sync/atomic"
 
 	"github.com/corywalker/expreduce/expreduce/parser/parens"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
@@ -43,7 +44,10 @@ func (thisInt *Integer) IsEqual(other expreduceapi.Ex) string {
 func (thisInt *Integer) DeepCopy() expreduceapi.Ex {
 	tmp := big.NewInt(0)
 	tmp.Set(thisInt.Val)
-	return &Integer{Val: tmp, cachedHash: thisInt.cachedHash}
+	return &Integer{
+		Val:        tmp,
+		cachedHash: atomic.LoadUint64(&thisInt.cachedHash),
+	}
 }
 
 func (thisInt *Integer) Copy() expreduceapi.Ex {
@@ -63,14 +67,14 @@ func NewInt(i int64) *Integer {
 }
 
 func (thisInt *Integer) Hash() uint64 {
-	if thisInt.cachedHash > 0 {
-		return thisInt.cachedHash
+	if cached := atomic.LoadUint64(&thisInt.cachedHash); cached > 0 {
+		return cached
 	}
 	h := fnv.New64a()
 	h.Write([]byte{242, 99, 84, 113, 102, 46, 118, 94})
 	bytes, _ := thisInt.Val.GobEncode()
 	h.Write(bytes)
-	thisInt.cachedHash = h.Sum64()
+	atomic.StoreUint64(&thisInt.cachedHash, h.Sum64())
 	return h.Sum64()
 }
 
diff --git a/expreduce/atoms/ex_rational.go b/expreduce/atoms/ex_rational.go
index ba6c826..e1ee045 100644
--- a/expreduce/atoms/ex_rational.go
+++ b/expreduce/atoms/ex_rational.go
@@ -12,7 +12,7 @@ import (
 type Rational struct {
 	Num       *big.Int
 	Den       *big.Int
-	needsEval bool
+	needsEval evalFlag
 }
 
 func (thisRational *Rational) StringForm(
@@ -43,7 +43,7 @@ func (thisRational *Rational) DeepCopy() expreduceapi.Ex {
 	tmpn.Set(thisRational.Num)
 	tmpd := big.NewInt(0)
 	tmpd.Set(thisRational.Den)
-	return &Rational{tmpn, tmpd, thisRational.needsEval}
+	return &Rational{tmpn, tmpd, thisRational.needsEval.load()}
 }
 
 func (thisRational *Rational) Copy() expreduceapi.Ex {
@@ -56,15 +56,15 @@ func (thisRational *Rational) asBigRat() *big.Rat {
 }
 
 func (thisRational *Rational) NeedsEval() bool {
-	return thisRational.needsEval
+	return thisRational.needsEval.isSet()
 }
 
 func (thisRational *Rational) SetNeedsEval(newVal bool) {
-	thisRational.needsEval = newVal
+	thisRational.needsEval.set(newVal)
 }
 
 func NewRational(n *big.Int, d *big.Int) *Rational {
-	return &Rational{n, d, true}
+	return &Rational{n, d, flagSet}
 }
 
 func (thisRational *Rational) Hash() uint64 {
diff --git a/expreduce/atoms/ex_symbol.go b/expreduce/atoms/ex_symbol.go
index df3b022..fdc46de 100644
--- a/expreduce/atoms/ex_symbol.go
+++ b/expreduce/atoms/ex_symbol.go
@@ -5,6 +5,7 @@ import (
 	"hash/fnv"
 	"sort"
 	"strings"
+	"sync/atomic"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -106,8 +107,10 @@ func (sym *Symbol) IsEqual(other expreduceapi.Ex) string {
 }
 
 func (sym *Symbol) DeepCopy() expreduceapi.Ex {
-	symcopy := *sym
-	return &symcopy
+	return &Symbol{
+		Name:       sym.Name,
+		cachedHash: atomic.LoadUint64(&sym.cachedHash),
+	}
 }
 
 func (sym *Symbol) Copy() expreduceapi.Ex {
@@ -275,13 +278,13 @@ func (sym *Symbol) NeedsEval() bool {
 }
 
 func (sym *Symbol) Hash() uint64 {
-	if sym.cachedHash > 0 {
-		return sym.cachedHash
+	if cached := atomic.LoadUint64(&sym.cachedHash); cached > 0 {
+		return cached
 	}
 	h := fnv.New64a()
 	h.Write([]byte{107, 10, 247, 23, 33, 221, 163, 156})
 	h.Write([]byte(sym.Name))
-	sym.cachedHash = h.Sum64()
+	atomic.StoreUint64(&sym.cachedHash, h.Sum64())
 	return h.Sum64()
 }
 
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 16d10b2..ec49109 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -53,7 +53,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	var lastEx expreduceapi.Ex = this
 	currExHash := hashEx(this)
 	version := es.defined.currentVersion()
-	if evaledMark(currExHash, version) == this.EvaledHash {
+	if evaledMark(currExHash, version) == this.LoadEvaledHash() {
 		return this
 	}
 	var currEx expreduceapi.Ex = this
@@ -63,7 +63,8 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		version = es.defined.currentVersion()
 		curr, isExpr := currEx.(*atoms.Expression)
 		if *checkhashes {
-			if isExpr && curr.EvaledHash != 0 && evaledMark(currExHash, version) != curr.EvaledHash {
+			if isExpr && curr.LoadEvaledHash() != 0 &&
+				evaledMark(currExHash, version) != curr.LoadEvaledHash() {
 				fmt.Printf("invalid cache: %v. Used to be %v\n", curr, lastEx)
 			}
 			lastEx = currEx
@@ -75,7 +76,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				return retVal
 			}
 		}
-		if isExpr && evaledMark(currExHash, version) == curr.EvaledHash {
+		if isExpr && evaledMark(currExHash, version) == curr.LoadEvaledHash() {
 			return curr
 		}
 
@@ -309,7 +310,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	curr, isExpr := currEx.(*atoms.Expression)
 	if isExpr {
 		curr.SetNeedsEval(false)
-		curr.EvaledHash = evaledMark(currExHash, version)
+		curr.StoreEvaledHash(evaledMark(currExHash, version))
 	}
 	return currEx
 }
-- 
2.43.0


From 43f39dd45aed3592a519d893a64b5b004074a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 061/100] fix: definitions made by several goroutines at once
 are all kept, and their local names differ

---
 expreduce/builtin_system.go |  4 ++++
 expreduce/definition_map.go | 43 +++++++++++++++++++++++++++++++++++++
 expreduce/evalstate.go      | 30 +++++++++++++++-----------
 3 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 2fc43f1..5f6ae1c 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -158,6 +158,10 @@ func snagUnique(
 	prefix string,
 	es expreduceapi.EvalStateInterface,
 ) (string, bool) {
+	// Goroutines of the same session must not get the same name.
+	uniqueMutex := &es.(*EvalState).uniqueMutex
+	uniqueMutex.Lock()
+	defer uniqueMutex.Unlock()
 	mnExpr, mnIsDef := es.GetSymDef("System`$ModuleNumber")
 	if !mnIsDef {
 		return "", false
diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index efa9deb..4a8d618 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -57,6 +57,49 @@ func (dm threadSafeDefinitionMap) Set(key string, value expreduceapi.Def) {
 	dm.versions.change(key)
 }
 
+// setIfAbsent sets the first definition of a key, unless there is one.
+func (dm threadSafeDefinitionMap) setIfAbsent(
+	key string,
+	value expreduceapi.Def,
+) bool {
+	isSet := dm.internalMap.SetIfAbsent(key, value)
+	if isSet {
+		dm.versions.change(key)
+	}
+	return isSet
+}
+
+// replaceRules sets the rules of a key, unless somebody changed them since orig
+// was read.
+func (dm threadSafeDefinitionMap) replaceRules(
+	key string,
+	orig expreduceapi.Def,
+	rules []expreduceapi.DownValue,
+) bool {
+	isSet := false
+	dm.internalMap.Upsert(key, orig, func(
+		exists bool,
+		inMap interface{},
+		_ interface{},
+	) interface{} {
+		def := orig
+		if exists {
+			def = inMap.(expreduceapi.Def)
+		}
+		// Changed rules are always in a new list.
+		isSet = len(def.Downvalues) == len(orig.Downvalues) &&
+			(len(orig.Downvalues) == 0 || &def.Downvalues[0] == &orig.Downvalues[0])
+		if isSet {
+			def.Downvalues = rules
+		}
+		return def
+	})
+	if isSet {
+		dm.versions.change(key)
+	}
+	return isSet
+}
+
 // lookUp records that the result of an evaluation depends on the definition.
 func (dm threadSafeDefinitionMap) lookUp(key string) {
 	dm.versions.lookUp(key)
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 91c5de3..22b55b8 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -38,6 +38,7 @@ type EvalState struct {
 	streamManager           expreduceapi.StreamManager
 	randomSource            *rand.Rand
 	randomMutex             sync.Mutex
+	uniqueMutex             sync.Mutex
 }
 
 func (es *EvalState) GetDefined(name string) (expreduceapi.Def, bool) {
@@ -468,7 +469,7 @@ func (es *EvalState) MarkSeen(name string) {
 		newDef := expreduceapi.Def{
 			Downvalues: []expreduceapi.DownValue{},
 		}
-		es.defined.Set(name, newDef)
+		es.defined.setIfAbsent(name, newDef)
 	}
 }
 
@@ -570,6 +571,17 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 
 	es.Debugf("Inside es.Define(\"%s\",%s,%s)", name, lhs, rhs)
 	heldLHS := atoms.E(atoms.S("HoldPattern"), lhs)
+	// Other goroutines may define rules for the same symbol.
+	for !es.addRule(name, heldLHS, rhs) {
+	}
+}
+
+// addRule fails if the rules of the symbol change in the meantime.
+func (es *EvalState) addRule(
+	name string,
+	heldLHS expreduceapi.ExpressionInterface,
+	rhs expreduceapi.Ex,
+) bool {
 	if !es.IsDef(name) {
 		newDef := expreduceapi.Def{
 			Downvalues: []expreduceapi.DownValue{
@@ -580,8 +592,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 				},
 			},
 		}
-		es.defined.Set(name, newDef)
-		return
+		return es.defined.setIfAbsent(name, newDef)
 	}
 
 	// The list of rules may be shared with a snapshot, so changes go to a copy.
@@ -599,16 +610,12 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			newRHSCond := maskNonConditional(rhs)
 			if atoms.IsSameQ(existingRHSCond, newRHSCond) {
 				downvalues[i].Rule = newRule
-				tmp.Downvalues = downvalues
-				es.defined.Set(name, tmp)
-				return
+				return es.defined.replaceRules(name, tmp, downvalues)
 			}
 		} else if name != "Rubi`Int" && isSameRule(dv.Rule, newRule) {
 			// The same rule with other names for its parameters.
 			downvalues[i].Rule = newRule
-			tmp.Downvalues = downvalues
-			es.defined.Set(name, tmp)
-			return
+			return es.defined.replaceRules(name, tmp, downvalues)
 		}
 	}
 
@@ -633,7 +640,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 	if name != "Rubi`Int" {
 		position = orderByGenerality(downvalues, position, newRule)
 	}
-	tmp.Downvalues = append(
+	return es.defined.replaceRules(name, tmp, append(
 		append(
 			append([]expreduceapi.DownValue{}, downvalues[:position]...),
 			expreduceapi.DownValue{
@@ -642,8 +649,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			},
 		),
 		downvalues[position:]...,
-	)
-	es.defined.Set(name, tmp)
+	))
 }
 
 func (es *EvalState) ClearAll() {
-- 
2.43.0


From 6bb84349945defd51391effbf145f91152f10641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 062/100] fix: Get forgets which evaluations the saving program
 had completed

---
 expreduce/builtin_system.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 5f6ae1c..79479cf 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -98,6 +98,24 @@ func exprToN(
 	return e.DeepCopy()
 }
 
+// clearDefHashes removes the marks of evaluations made by the session which
+// saved the definition. They mean nothing to the session which loads it.
+func clearDefHashes(def expreduceapi.Def) {
+	for _, dv := range def.Downvalues {
+		clearExHashes(dv.Rule)
+	}
+	clearExHashes(def.DefaultExpr)
+}
+
+func clearExHashes(ex expreduceapi.Ex) {
+	if expr, isExpr := ex.(expreduceapi.ExpressionInterface); isExpr {
+		expr.ClearHashes()
+		for _, part := range expr.GetParts() {
+			clearExHashes(part)
+		}
+	}
+}
+
 func tryReadFile(
 	fn expreduceapi.Ex,
 	es expreduceapi.EvalStateInterface,
@@ -867,6 +885,7 @@ func getSystemDefinitions() (defs []Definition) {
 				compressedReader.Close()
 
 				for _, def := range definitions {
+					clearDefHashes(def.Def)
 					es.SetDefined(def.Name, def.Def)
 				}
 
-- 
2.43.0


From 8a0f9f2283728ca3bf5c3e285bae3d78156f620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 063/100] fix: Get keeps the built-in behaviour of the symbols
 it loads

---
 expreduce/builtin_system.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 79479cf..32955a1 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -886,6 +886,10 @@ func getSystemDefinitions() (defs []Definition) {
 
 				for _, def := range definitions {
 					clearDefHashes(def.Def)
+					// Code cannot be saved.
+					if oldDef, isDef := es.GetDefined(def.Name); isDef {
+						def.Def.LegacyEvalFn = oldDef.LegacyEvalFn
+					}
 					es.SetDefined(def.Name, def.Def)
 				}
 
-- 
2.43.0


From a7c38c4f9d67f8d83bbc9463904813d09e7a6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 064/100] fix: Save and Get report files they cannot write or
 read as $Failed

---
 expreduce/builtin_system.go | 39 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 32955a1..b8c2b09 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -6,6 +6,7 @@ import (
 	"encoding/gob"
 	"flag"
 	"fmt"
+	"io"
 	"log"
 	"math/big"
 	"os"
@@ -876,11 +877,18 @@ func getSystemDefinitions() (defs []Definition) {
 				// TODO: Read as a stream and not a byte string.
 				r := bytes.NewReader(fileData[len(exprFileHeader):])
 				atoms.RegisterGobAtoms()
-				compressedReader, _ := zlib.NewReader(r)
+				compressedReader, err := zlib.NewReader(r)
+				if err != nil {
+					return atoms.NewSymbol("System`$Failed")
+				}
 				decoder := gob.NewDecoder(compressedReader)
 				definitions := []encodedDef{}
 				if err := decoder.Decode(&definitions); err != nil {
-					panic(err)
+					return atoms.NewSymbol("System`$Failed")
+				}
+				// Reading to the end verifies the checksum.
+				if _, err := io.Copy(io.Discard, compressedReader); err != nil {
+					return atoms.NewSymbol("System`$Failed")
 				}
 				compressedReader.Close()
 
@@ -938,19 +946,22 @@ func getSystemDefinitions() (defs []Definition) {
 			atoms.RegisterGobAtoms()
 
 			file, err := os.Create(filename)
-			if err == nil {
-				// Write the header.
-				if _, err := file.Write(exprFileHeader); err != nil {
-					panic(err)
-				}
-				compressedWriter := zlib.NewWriter(file)
-				encoder := gob.NewEncoder(compressedWriter)
-				if err := encoder.Encode(definitions); err != nil {
-					panic(err)
-				}
-				compressedWriter.Close()
+			if err != nil {
+				return atoms.NewSymbol("System`$Failed")
+			}
+			defer file.Close()
+			// Write the header.
+			if _, err := file.Write(exprFileHeader); err != nil {
+				return atoms.NewSymbol("System`$Failed")
+			}
+			compressedWriter := zlib.NewWriter(file)
+			encoder := gob.NewEncoder(compressedWriter)
+			if err := encoder.Encode(definitions); err != nil {
+				panic(err)
+			}
+			if err := compressedWriter.Close(); err != nil {
+				return atoms.NewSymbol("System`$Failed")
 			}
-			file.Close()
 
 			return atoms.NewSymbol("System`Null")
 		},
-- 
2.43.0


From 3b620e183acc7e94424c615f43b3e974f2dd9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:29 +0000
Subject: [PATCH 065/100] fix: Numerator and Denominator of a single power or a
 rational factor

---
 expreduce/resources.go      | 16 +++++++++++-----
 expreduce/resources/manip.m | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index b90f86f..6309c5f 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -2577,8 +2577,9 @@ Tests`+"`"+`Together = {
 };
 
 Numerator::usage = "`+"`"+`Numerator[e]`+"`"+` returns the numerator of `+"`"+`e`+"`"+`.";
-denPattern := b_^n_?Negative | b_^(n : (-_Symbol));
-Numerator[prod_Times] := Times@@Cases[prod, Except[denPattern]];
+Numerator[prod_Times] := Times@@(Numerator /@ (List@@prod));
+Numerator[b_^n_?Negative] := 1;
+Numerator[b_^(n : (-_Symbol))] := 1;
 Numerator[Rational[n_,d_]] := n;
 Numerator[e_] := e;
 Attributes[Numerator] = {Listable, Protected};
@@ -2593,7 +2594,9 @@ Tests`+"`"+`Numerator = {
 };
 
 Denominator::usage = "`+"`"+`Denominator[e]`+"`"+` returns the denominator of `+"`"+`e`+"`"+`.";
-Denominator[prod_Times] := Times@@Cases[prod, denPattern -> b^(-n)];
+Denominator[prod_Times] := Times@@(Denominator /@ (List@@prod));
+Denominator[b_^n_?Negative] := b^(-n);
+Denominator[b_^(n : (-_Symbol))] := b^(-n);
 Denominator[Rational[n_,d_]] := d;
 Denominator[e_] := 1;
 Attributes[Denominator] = {Listable, Protected};
@@ -2664,12 +2667,15 @@ validDenTermQ[t_, x_] :=
 myApartUnexpanded[expr_Times, var_] :=
   Module[{e = expr, v = var, denTerms, num, den, divRes},
    num = Numerator[e];
-   den = Denominator[e];
+   denTerms = getDenTerms[Denominator[e]];
+   (*Factors without the variable belong to the coefficients.*)
+   num = num/(Times @@ Select[denTerms, FreeQ[#, v] &]);
+   denTerms = Select[denTerms, !FreeQ[#, v] &];
+   den = Times @@ denTerms;
    If[Exponent[num, v] > Exponent[den, v], Return[
      divRes = PolynomialQuotientRemainder[num, den, v];
      divRes[[1]] + myApartUnexpanded[divRes[[2]]/den, v]
      ]];
-   denTerms = getDenTerms[den];
    (*If[Length[denTerms]<2,Return[e]];*)
 
    If[! AllTrue[denTerms, validDenTermQ[#, v] &], Return[e]];
diff --git a/expreduce/resources/manip.m b/expreduce/resources/manip.m
index 57519d5..8d765a6 100644
--- a/expreduce/resources/manip.m
+++ b/expreduce/resources/manip.m
@@ -67,8 +67,9 @@ Tests`Together = {
 };
 
 Numerator::usage = "`Numerator[e]` returns the numerator of `e`.";
-denPattern := b_^n_?Negative | b_^(n : (-_Symbol));
-Numerator[prod_Times] := Times@@Cases[prod, Except[denPattern]];
+Numerator[prod_Times] := Times@@(Numerator /@ (List@@prod));
+Numerator[b_^n_?Negative] := 1;
+Numerator[b_^(n : (-_Symbol))] := 1;
 Numerator[Rational[n_,d_]] := n;
 Numerator[e_] := e;
 Attributes[Numerator] = {Listable, Protected};
@@ -83,7 +84,9 @@ Tests`Numerator = {
 };
 
 Denominator::usage = "`Denominator[e]` returns the denominator of `e`.";
-Denominator[prod_Times] := Times@@Cases[prod, denPattern -> b^(-n)];
+Denominator[prod_Times] := Times@@(Denominator /@ (List@@prod));
+Denominator[b_^n_?Negative] := b^(-n);
+Denominator[b_^(n : (-_Symbol))] := b^(-n);
 Denominator[Rational[n_,d_]] := d;
 Denominator[e_] := 1;
 Attributes[Denominator] = {Listable, Protected};
@@ -154,12 +157,15 @@ validDenTermQ[t_, x_] :=
 myApartUnexpanded[expr_Times, var_] :=
   Module[{e = expr, v = var, denTerms, num, den, divRes},
    num = Numerator[e];
-   den = Denominator[e];
+   denTerms = getDenTerms[Denominator[e]];
+   (*Factors without the variable belong to the coefficients.*)
+   num = num/(Times @@ Select[denTerms, FreeQ[#, v] &]);
+   denTerms = Select[denTerms, !FreeQ[#, v] &];
+   den = Times @@ denTerms;
    If[Exponent[num, v] > Exponent[den, v], Return[
      divRes = PolynomialQuotientRemainder[num, den, v];
      divRes[[1]] + myApartUnexpanded[divRes[[2]]/den, v]
      ]];
-   denTerms = getDenTerms[den];
    (*If[Length[denTerms]<2,Return[e]];*)
 
    If[! AllTrue[denTerms, validDenTermQ[#, v] &], Return[e]];
-- 
2.43.0


From 193fff2ff9bab969ef9f4749296c2204c86794c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:29 +0000
Subject: [PATCH 066/100] fix: Apart divides when numerator and denominator
 have the same degree

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/manip.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 6309c5f..54668d5 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -2672,7 +2672,7 @@ myApartUnexpanded[expr_Times, var_] :=
    num = num/(Times @@ Select[denTerms, FreeQ[#, v] &]);
    denTerms = Select[denTerms, !FreeQ[#, v] &];
    den = Times @@ denTerms;
-   If[Exponent[num, v] > Exponent[den, v], Return[
+   If[Exponent[num, v] >= Exponent[den, v], Return[
      divRes = PolynomialQuotientRemainder[num, den, v];
      divRes[[1]] + myApartUnexpanded[divRes[[2]]/den, v]
      ]];
diff --git a/expreduce/resources/manip.m b/expreduce/resources/manip.m
index 8d765a6..7951f31 100644
--- a/expreduce/resources/manip.m
+++ b/expreduce/resources/manip.m
@@ -162,7 +162,7 @@ myApartUnexpanded[expr_Times, var_] :=
    num = num/(Times @@ Select[denTerms, FreeQ[#, v] &]);
    denTerms = Select[denTerms, !FreeQ[#, v] &];
    den = Times @@ denTerms;
-   If[Exponent[num, v] > Exponent[den, v], Return[
+   If[Exponent[num, v] >= Exponent[den, v], Return[
      divRes = PolynomialQuotientRemainder[num, den, v];
      divRes[[1]] + myApartUnexpanded[divRes[[2]]/den, v]
      ]];
-- 
2.43.0


From 8a65631d159d76a2895ac43d0f685c40977c0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:29 +0000
Subject: [PATCH 067/100] fix: CoefficientList of zero is the empty list

---
 expreduce/resources.go      | 4 +++-
 expreduce/resources/power.m | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 54668d5..89ea574 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4316,7 +4316,9 @@ Tests`+"`"+`Coefficient = {
 
 CoefficientList::usage =  "`+"`"+`CoefficientList[p, var]`+"`"+` returns the list of coefficients associated with variable `+"`"+`var`+"`"+`.";
 CoefficientList[p_, var_] :=
-    Table[Coefficient[p,var,i],{i,0,Exponent[p,var]}];
+    If[Expand[p] === 0,
+        {},
+        Table[Coefficient[p,var,i],{i,0,Exponent[p,var]}]];
 Attributes[CoefficientList] = {Protected};
 Tests`+"`"+`CoefficientList = {
     ESimpleExamples[
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index 70c6ff2..c457b3c 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -495,7 +495,9 @@ Tests`Coefficient = {
 
 CoefficientList::usage =  "`CoefficientList[p, var]` returns the list of coefficients associated with variable `var`.";
 CoefficientList[p_, var_] :=
-    Table[Coefficient[p,var,i],{i,0,Exponent[p,var]}];
+    If[Expand[p] === 0,
+        {},
+        Table[Coefficient[p,var,i],{i,0,Exponent[p,var]}]];
 Attributes[CoefficientList] = {Protected};
 Tests`CoefficientList = {
     ESimpleExamples[
-- 
2.43.0


From 895966b804d39901b56b8bdc175fb746b5d61014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:29 +0000
Subject: [PATCH 068/100] fix: polynomial division takes as many steps as the
 degrees require

---
 expreduce/resources.go      | 6 ++++--
 expreduce/resources/power.m | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 89ea574..f272bac 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4335,7 +4335,7 @@ Tests`+"`"+`CoefficientList = {
 PolynomialQuotientRemainder::usage =  "`+"`"+`PolynomialQuotientRemainder[poly_, div_, var_]`+"`"+` returns the quotient and remainder of `+"`"+`poly`+"`"+` divided by `+"`"+`div`+"`"+` treating `+"`"+`var`+"`"+` as the polynomial variable.";
 ExpreduceLeadingCoeff[p_, x_] := Coefficient[p, x^Exponent[p, x]];
 PolynomialQuotientRemainder[inp_, inq_, v_] :=
-  Module[{a = inp, b = inq, x = v, r, d, c, i, s, q, rExp},
+  Module[{a = inp, b = inq, x = v, r, d, c, i, s, q, rExp, pow, maxSteps},
    (*I should think carefully about when I use = vs := to avoid unwanted evaluation*)
    q = 0;
    r = a;
@@ -4345,7 +4345,9 @@ PolynomialQuotientRemainder[inp_, inq_, v_] :=
    If[pow === 1, Return[{a/b//Distribute, 0}]];
    c = Coefficient[b, pow];
    i = 1;
-   While[rExp = Exponent[r, x]; rExp >= d && i < 20,
+   (*Every step removes the leading term.*)
+   maxSteps = Exponent[a, x] - d + 1;
+   While[rExp = Exponent[r, x]; rExp >= d && i <= maxSteps,
     (*Looks like we get the coefficient and the exponent of the leading term here. Perhaps we can just grab the leading term and get both at once. And maybe we can exploit the canonical ordering*)
     (*But all of this seems wrong. I think the slowness resides in the expreduce interpreter.*)
     (*TODO tomorrow: find out what 'power' function takes up the most time and optimize it by making kernel changes*)
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index c457b3c..ac564ed 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -514,7 +514,7 @@ Tests`CoefficientList = {
 PolynomialQuotientRemainder::usage =  "`PolynomialQuotientRemainder[poly_, div_, var_]` returns the quotient and remainder of `poly` divided by `div` treating `var` as the polynomial variable.";
 ExpreduceLeadingCoeff[p_, x_] := Coefficient[p, x^Exponent[p, x]];
 PolynomialQuotientRemainder[inp_, inq_, v_] :=
-  Module[{a = inp, b = inq, x = v, r, d, c, i, s, q, rExp},
+  Module[{a = inp, b = inq, x = v, r, d, c, i, s, q, rExp, pow, maxSteps},
    (*I should think carefully about when I use = vs := to avoid unwanted evaluation*)
    q = 0;
    r = a;
@@ -524,7 +524,9 @@ PolynomialQuotientRemainder[inp_, inq_, v_] :=
    If[pow === 1, Return[{a/b//Distribute, 0}]];
    c = Coefficient[b, pow];
    i = 1;
-   While[rExp = Exponent[r, x]; rExp >= d && i < 20,
+   (*Every step removes the leading term.*)
+   maxSteps = Exponent[a, x] - d + 1;
+   While[rExp = Exponent[r, x]; rExp >= d && i <= maxSteps,
     (*Looks like we get the coefficient and the exponent of the leading term here. Perhaps we can just grab the leading term and get both at once. And maybe we can exploit the canonical ordering*)
     (*But all of this seems wrong. I think the slowness resides in the expreduce interpreter.*)
     (*TODO tomorrow: find out what 'power' function takes up the most time and optimize it by making kernel changes*)
-- 
2.43.0


From 54f2403d42cfade04b69a1c1a72a0626532baea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:26 +0000
Subject: [PATCH 069/100] fix: FactorSquareFree keeps the constant factor, and
 division steps are not limited to 20

---
 expreduce/resources.go      | 11 +++++++----
 expreduce/resources/power.m | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index f272bac..a189d02 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4544,10 +4544,12 @@ Tests`+"`"+`Variables = {
 
 PolynomialGCD::usage = "`+"`"+`PolynomialGCD[a, b]`+"`"+` calculates the polynomial GCD of `+"`"+`a`+"`"+` and `+"`"+`b`+"`"+`.";
 PolySubresultantGCD[inA_, inB_, inX_] :=
-  Module[{u = inA, v = inB, x = inX, h, delta, beta, newU, newV, i},
+  Module[{u = inA, v = inB, x = inX, h, delta, beta, newU, newV, i,
+    uEx, vEx, maxSteps},
    h = 1;
    i = 1;
-   While[v =!= 0 && i < 20,
+   maxSteps = Max[Exponent[u, x], Exponent[v, x]] + 2;
+   While[v =!= 0 && i <= maxSteps,
     uEx = Exponent[u, x];
     vEx = Exponent[v, x];
     delta = uEx - vEx;
@@ -4637,7 +4639,7 @@ FactorSquareFree[poly_] :=
    d = c - D[nb, polyvar];
    i = 1;
    b = nb;
-   While[b =!= 1 && i < 20,
+   While[b =!= 1 && i <= Exponent[f, polyvar] + 1,
     a = PolynomialGCD[b, d];
     nb = PolynomialQuotient[b,a,polyvar];
     c = PolynomialQuotient[d,a,polyvar];
@@ -4647,7 +4649,8 @@ FactorSquareFree[poly_] :=
     d = c - D[b, polyvar]
     (*Print[{Subscript[a, i-1],Subscript[b, i],Subscript[c, i],
     Subscript[d, i]}]*)];
-   res
+   (*The greatest common divisors leave out a constant factor.*)
+   res*ExpreduceLeadingCoeff[f, polyvar]/ExpreduceLeadingCoeff[res, polyvar]
    ];
 Attributes[FactorSquareFree] = {Listable, Protected};
 Tests`+"`"+`FactorSquareFree = {
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index ac564ed..f1c4e9f 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -723,10 +723,12 @@ Tests`Variables = {
 
 PolynomialGCD::usage = "`PolynomialGCD[a, b]` calculates the polynomial GCD of `a` and `b`.";
 PolySubresultantGCD[inA_, inB_, inX_] :=
-  Module[{u = inA, v = inB, x = inX, h, delta, beta, newU, newV, i},
+  Module[{u = inA, v = inB, x = inX, h, delta, beta, newU, newV, i,
+    uEx, vEx, maxSteps},
    h = 1;
    i = 1;
-   While[v =!= 0 && i < 20,
+   maxSteps = Max[Exponent[u, x], Exponent[v, x]] + 2;
+   While[v =!= 0 && i <= maxSteps,
     uEx = Exponent[u, x];
     vEx = Exponent[v, x];
     delta = uEx - vEx;
@@ -816,7 +818,7 @@ FactorSquareFree[poly_] :=
    d = c - D[nb, polyvar];
    i = 1;
    b = nb;
-   While[b =!= 1 && i < 20,
+   While[b =!= 1 && i <= Exponent[f, polyvar] + 1,
     a = PolynomialGCD[b, d];
     nb = PolynomialQuotient[b,a,polyvar];
     c = PolynomialQuotient[d,a,polyvar];
@@ -826,7 +828,8 @@ FactorSquareFree[poly_] :=
     d = c - D[b, polyvar]
     (*Print[{Subscript[a, i-1],Subscript[b, i],Subscript[c, i],
     Subscript[d, i]}]*)];
-   res
+   (*The greatest common divisors leave out a constant factor.*)
+   res*ExpreduceLeadingCoeff[f, polyvar]/ExpreduceLeadingCoeff[res, polyvar]
    ];
 Attributes[FactorSquareFree] = {Listable, Protected};
 Tests`FactorSquareFree = {
-- 
2.43.0


From e24d4da1de9b7f9384fc00161ef10aca780a4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 070/100] fix: Exponent counts every term when it looks for
 terms without the variable

---
 expreduce/resources.go      | 4 ++--
 expreduce/resources/power.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index a189d02..e9266f0 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4222,9 +4222,9 @@ Exponent[expr_, var_, head_] := If[expr === 0, head[],
    toCheck = expr // Expand;
    toCheck = If[Head[toCheck] === Plus, toCheck, {toCheck}];
    theCases =
-    Cases[toCheck, p_.*v^Optional[exp_] -> exp] // DeleteDuplicates;
+    Cases[toCheck, p_.*v^Optional[exp_] -> exp];
    If[Length[theCases] =!= Length[toCheck], PrependTo[theCases, 0]];
-   h @@ theCases
+   h @@ DeleteDuplicates[theCases]
    ]];
 Exponent[expr_, var_] := Exponent[expr, var, Max];
 Attributes[Exponent] = {Listable, Protected};
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index f1c4e9f..115a2cf 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -401,9 +401,9 @@ Exponent[expr_, var_, head_] := If[expr === 0, head[],
    toCheck = expr // Expand;
    toCheck = If[Head[toCheck] === Plus, toCheck, {toCheck}];
    theCases =
-    Cases[toCheck, p_.*v^Optional[exp_] -> exp] // DeleteDuplicates;
+    Cases[toCheck, p_.*v^Optional[exp_] -> exp];
    If[Length[theCases] =!= Length[toCheck], PrependTo[theCases, 0]];
-   h @@ theCases
+   h @@ DeleteDuplicates[theCases]
    ]];
 Exponent[expr_, var_] := Exponent[expr, var, Max];
 Attributes[Exponent] = {Listable, Protected};
-- 
2.43.0


From 7f9082db4311a9ec162a5ddf9df5bf35afa6e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:36 +0000
Subject: [PATCH 071/100] fix: the derivative of Abs follows the chain rule

---
 expreduce/resources.go         | 2 +-
 expreduce/resources/calculus.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index e9266f0..4f2cf7e 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -786,7 +786,7 @@ D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
 D[f_[g_[x_Symbol]], x_Symbol] := (Evaluate[D[f[#], #]] &)[g[x]]*D[g[x],x];
 (*The times operator is needed here. Whitespace precedence is messed up*)
 D[a_^(b_), x_] := a^b*(D[b,x] Log[a]+D[a,x]/a*b);
-D[Abs[a_], x_] := If[FreeQ[a, x], 0, Derivative[1][Abs][x]];
+D[Abs[a_], x_] := If[FreeQ[a, x], 0, D[a, x]*Derivative[1][Abs][a]];
 D[Log[a_], x_] := D[a, x]/a;
 D[Sin[a_], x_] := D[a,x] Cos[a];
 D[Cos[a_], x_] := -D[a,x] Sin[a];
diff --git a/expreduce/resources/calculus.m b/expreduce/resources/calculus.m
index 3bb5c8e..b8ff92c 100644
--- a/expreduce/resources/calculus.m
+++ b/expreduce/resources/calculus.m
@@ -9,7 +9,7 @@ D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
 D[f_[g_[x_Symbol]], x_Symbol] := (Evaluate[D[f[#], #]] &)[g[x]]*D[g[x],x];
 (*The times operator is needed here. Whitespace precedence is messed up*)
 D[a_^(b_), x_] := a^b*(D[b,x] Log[a]+D[a,x]/a*b);
-D[Abs[a_], x_] := If[FreeQ[a, x], 0, Derivative[1][Abs][x]];
+D[Abs[a_], x_] := If[FreeQ[a, x], 0, D[a, x]*Derivative[1][Abs][a]];
 D[Log[a_], x_] := D[a, x]/a;
 D[Sin[a_], x_] := D[a,x] Cos[a];
 D[Cos[a_], x_] := -D[a,x] Sin[a];
-- 
2.43.0


From 7ecc6e77b7f92341cfc440b6163f1a24ebc0386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:37 +0000
Subject: [PATCH 072/100] fix: D with {x, n} differentiates n times

---
 expreduce/resources.go         | 3 ++-
 expreduce/resources/calculus.m | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 4f2cf7e..a551f3e 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -778,7 +778,8 @@ func resourcesBooleanM() (*asset, error) {
 var _resourcesCalculusM = []byte(`D::usage = "`+"`"+`D[f, x]`+"`"+` finds the partial derivative of `+"`"+`f`+"`"+` with respect to `+"`"+`x`+"`"+`.";
 D[Indeterminate, x_] := Indeterminate;
 D[x_,x_] := 1;
-D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate);
+D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[x] =!= List);
+D[a_,{x_,n_Integer}] := Nest[D[#,x]&, a, n] /; n >= 0;
 D[a_+b_,x_] := D[a,x]+D[b,x];
 D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
 (*Chain rule*)
diff --git a/expreduce/resources/calculus.m b/expreduce/resources/calculus.m
index b8ff92c..f30459a 100644
--- a/expreduce/resources/calculus.m
+++ b/expreduce/resources/calculus.m
@@ -1,7 +1,8 @@
 D::usage = "`D[f, x]` finds the partial derivative of `f` with respect to `x`.";
 D[Indeterminate, x_] := Indeterminate;
 D[x_,x_] := 1;
-D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate);
+D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[x] =!= List);
+D[a_,{x_,n_Integer}] := Nest[D[#,x]&, a, n] /; n >= 0;
 D[a_+b_,x_] := D[a,x]+D[b,x];
 D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
 (*Chain rule*)
-- 
2.43.0


From eb8766e4b848f23500d4486af235f99bfd9a174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 073/100] fix: the infinite sum of num/i^2 requires num to be
 free of i

---
 expreduce/resources.go           | 2 +-
 expreduce/resources/arithmetic.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index a551f3e..6752a2e 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -212,7 +212,7 @@ Sum[i_Symbol, {i_Symbol, 0, n_Symbol}]  := 1/2*n*(1 + n);
 Sum[i_Symbol, {i_Symbol, 1, n_Symbol}]  := 1/2*n*(1 + n);
 (* Infinite series *)
 Sum[i_Symbol^(-2), {i_Symbol, 1, Infinity}] := Pi^2/6;
-Sum[num_/(i_Symbol^2), {i_Symbol, 1, Infinity}] := num * Pi^2/6;
+Sum[num_/(i_Symbol^2), {i_Symbol, 1, Infinity}] := num * Pi^2/6 /; FreeQ[num, i];
 Tests`+"`"+`Sum = {
     ESimpleExamples[
         ESameTest[45, Sum[i, {i, 5, 10}]],
diff --git a/expreduce/resources/arithmetic.m b/expreduce/resources/arithmetic.m
index dc99fac..6737572 100644
--- a/expreduce/resources/arithmetic.m
+++ b/expreduce/resources/arithmetic.m
@@ -98,7 +98,7 @@ Sum[i_Symbol, {i_Symbol, 0, n_Symbol}]  := 1/2*n*(1 + n);
 Sum[i_Symbol, {i_Symbol, 1, n_Symbol}]  := 1/2*n*(1 + n);
 (* Infinite series *)
 Sum[i_Symbol^(-2), {i_Symbol, 1, Infinity}] := Pi^2/6;
-Sum[num_/(i_Symbol^2), {i_Symbol, 1, Infinity}] := num * Pi^2/6;
+Sum[num_/(i_Symbol^2), {i_Symbol, 1, Infinity}] := num * Pi^2/6 /; FreeQ[num, i];
 Tests`Sum = {
     ESimpleExamples[
         ESameTest[45, Sum[i, {i, 5, 10}]],
-- 
2.43.0


From 83c654db0c6d432ed23178fee776434c49b1543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 074/100] fix: the derivative of a constant list is a list

---
 expreduce/resources.go         | 2 +-
 expreduce/resources/calculus.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 6752a2e..5ceb315 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -778,7 +778,7 @@ func resourcesBooleanM() (*asset, error) {
 var _resourcesCalculusM = []byte(`D::usage = "`+"`"+`D[f, x]`+"`"+` finds the partial derivative of `+"`"+`f`+"`"+` with respect to `+"`"+`x`+"`"+`.";
 D[Indeterminate, x_] := Indeterminate;
 D[x_,x_] := 1;
-D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[x] =!= List);
+D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[a] =!= List && Head[x] =!= List);
 D[a_,{x_,n_Integer}] := Nest[D[#,x]&, a, n] /; n >= 0;
 D[a_+b_,x_] := D[a,x]+D[b,x];
 D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
diff --git a/expreduce/resources/calculus.m b/expreduce/resources/calculus.m
index f30459a..15e4f3d 100644
--- a/expreduce/resources/calculus.m
+++ b/expreduce/resources/calculus.m
@@ -1,7 +1,7 @@
 D::usage = "`D[f, x]` finds the partial derivative of `f` with respect to `x`.";
 D[Indeterminate, x_] := Indeterminate;
 D[x_,x_] := 1;
-D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[x] =!= List);
+D[a_,x_] := 0 /; (FreeQ[a,x] && a =!= Indeterminate && Head[a] =!= List && Head[x] =!= List);
 D[a_,{x_,n_Integer}] := Nest[D[#,x]&, a, n] /; n >= 0;
 D[a_+b_,x_] := D[a,x]+D[b,x];
 D[a_ b_,x_] := D[a,x]*b + a*D[b,x];
-- 
2.43.0


From ce14756db06643950c101f01f683a43073a51dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 075/100] fix: Solve finds no solution for a reciprocal equal
 to zero

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/solve.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 5ceb315..1cabcb8 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54410,7 +54410,7 @@ applyInverse[lhs_Times -> rhs_, var_Symbol] := Module[{nonVarParts},
 applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
   (* var in base *)
   Switch[pow,
-    -1,              {base -> 1/rhs},
+    -1,              If[rhs === 0, {}, {base -> 1/rhs}],
     2,               {base -> -Sqrt[rhs]//PowerExpand, base -> Sqrt[rhs]//PowerExpand},
     3,               {base->rhs^(1/3),base->-(-1)^(1/3) rhs^(1/3),base->(-1)^(2/3) rhs^(1/3)},
     4,               {base->-rhs^(1/4),base->-I rhs^(1/4),base->I rhs^(1/4),base->rhs^(1/4)},
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index acf61d9..97372c3 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -31,7 +31,7 @@ applyInverse[lhs_Times -> rhs_, var_Symbol] := Module[{nonVarParts},
 applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
   (* var in base *)
   Switch[pow,
-    -1,              {base -> 1/rhs},
+    -1,              If[rhs === 0, {}, {base -> 1/rhs}],
     2,               {base -> -Sqrt[rhs]//PowerExpand, base -> Sqrt[rhs]//PowerExpand},
     3,               {base->rhs^(1/3),base->-(-1)^(1/3) rhs^(1/3),base->(-1)^(2/3) rhs^(1/3)},
     4,               {base->-rhs^(1/4),base->-I rhs^(1/4),base->I rhs^(1/4),base->rhs^(1/4)},
-- 
2.43.0


From 96663ecea58d8c484ae6e04c912f8b5dfe922646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 076/100] fix: Solve finds no solution for Sec or Csc equal to
 zero

---
 expreduce/resources.go      | 1 +
 expreduce/resources/solve.m | 1 +
 2 files changed, 2 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 1cabcb8..a87070b 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54460,6 +54460,7 @@ applyInverse[Tan[lhs_] -> rhs_, var_Symbol] :=
 applyInverse[Cot[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[ArcCot[rhs] + Pi C[1],
          C[1] \[Element] Integers]};
+applyInverse[(Sec | Csc)[lhs_] -> 0, var_Symbol] := {};
 applyInverse[Sec[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[-ArcCos[1/rhs] + 2 Pi C[1],
          C[1] \[Element] Integers], lhs ->
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 97372c3..6708bf4 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -81,6 +81,7 @@ applyInverse[Tan[lhs_] -> rhs_, var_Symbol] :=
 applyInverse[Cot[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[ArcCot[rhs] + Pi C[1],
          C[1] \[Element] Integers]};
+applyInverse[(Sec | Csc)[lhs_] -> 0, var_Symbol] := {};
 applyInverse[Sec[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[-ArcCos[1/rhs] + 2 Pi C[1],
          C[1] \[Element] Integers], lhs ->
-- 
2.43.0


From 99a49f62e7228e78a321da160bf1007c16196e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:14 +0000
Subject: [PATCH 077/100] fix: Solve drops solutions whose condition does not
 hold

---
 expreduce/resources.go      | 2 ++
 expreduce/resources/solve.m | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index a87070b..40cc816 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54522,6 +54522,8 @@ isolateInEqn[eqn_Equal, var_Symbol] := Module[{isolated},
   If[!AllTrue[isolated, (Head[#[[1]]] == Rule)&], Return[SolveFailed]];
   (*Canonicalize solutions.*)
   isolated = isolated//Simplify//Sort;
+  (*Solutions for which the condition does not hold are Undefined.*)
+  isolated = Select[isolated, FreeQ[#, Undefined]&];
   isolated = Select[isolated, checkSolution[eqn, #]&];
   isolated
 ];
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 6708bf4..f6e531e 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -143,6 +143,8 @@ isolateInEqn[eqn_Equal, var_Symbol] := Module[{isolated},
   If[!AllTrue[isolated, (Head[#[[1]]] == Rule)&], Return[SolveFailed]];
   (*Canonicalize solutions.*)
   isolated = isolated//Simplify//Sort;
+  (*Solutions for which the condition does not hold are Undefined.*)
+  isolated = Select[isolated, FreeQ[#, Undefined]&];
   isolated = Select[isolated, checkSolution[eqn, #]&];
   isolated
 ];
-- 
2.43.0


From 93349073559492c212ab92be71e00c66b6661093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:14 +0000
Subject: [PATCH 078/100] fix: Solve fails as a whole when one of the branches
 cannot be inverted

---
 expreduce/resources.go      | 8 ++++++--
 expreduce/resources/solve.m | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 40cc816..2386586 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54460,7 +54460,8 @@ applyInverse[Tan[lhs_] -> rhs_, var_Symbol] :=
 applyInverse[Cot[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[ArcCot[rhs] + Pi C[1],
          C[1] \[Element] Integers]};
-applyInverse[(Sec | Csc)[lhs_] -> 0, var_Symbol] := {};
+applyInverse[Sec[lhs_] -> 0, var_Symbol] := {};
+applyInverse[Csc[lhs_] -> 0, var_Symbol] := {};
 applyInverse[Sec[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[-ArcCos[1/rhs] + 2 Pi C[1],
          C[1] \[Element] Integers], lhs ->
@@ -54510,6 +54511,7 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
      ", var: ", var]; Return[SolveFailed]];
 
    allIsolated = isolate[#, var]& /@ inverseApplied;
+   If[!AllTrue[allIsolated, (Head[#] === List)&], Return[SolveFailed]];
    Join[Sequence @@ allIsolated]
    ];
 checkSolution[eqn_Equal, sol_] := Module[{checkRes},
@@ -54517,7 +54519,9 @@ checkSolution[eqn_Equal, sol_] := Module[{checkRes},
     checkRes =!= False
 ];
 isolateInEqn[eqn_Equal, var_Symbol] := Module[{isolated},
-  isolated = {#}& /@ isolate[Rule @@ eqn, var];
+  isolated = isolate[Rule @@ eqn, var];
+  If[Head[isolated] =!= List, Return[SolveFailed]];
+  isolated = {#}& /@ isolated;
   (*Check that the isolate procedure returned sane results.*)
   If[!AllTrue[isolated, (Head[#[[1]]] == Rule)&], Return[SolveFailed]];
   (*Canonicalize solutions.*)
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index f6e531e..192de2f 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -81,7 +81,8 @@ applyInverse[Tan[lhs_] -> rhs_, var_Symbol] :=
 applyInverse[Cot[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[ArcCot[rhs] + Pi C[1],
          C[1] \[Element] Integers]};
-applyInverse[(Sec | Csc)[lhs_] -> 0, var_Symbol] := {};
+applyInverse[Sec[lhs_] -> 0, var_Symbol] := {};
+applyInverse[Csc[lhs_] -> 0, var_Symbol] := {};
 applyInverse[Sec[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[-ArcCos[1/rhs] + 2 Pi C[1],
          C[1] \[Element] Integers], lhs ->
@@ -131,6 +132,7 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
      ", var: ", var]; Return[SolveFailed]];
 
    allIsolated = isolate[#, var]& /@ inverseApplied;
+   If[!AllTrue[allIsolated, (Head[#] === List)&], Return[SolveFailed]];
    Join[Sequence @@ allIsolated]
    ];
 checkSolution[eqn_Equal, sol_] := Module[{checkRes},
@@ -138,7 +140,9 @@ checkSolution[eqn_Equal, sol_] := Module[{checkRes},
     checkRes =!= False
 ];
 isolateInEqn[eqn_Equal, var_Symbol] := Module[{isolated},
-  isolated = {#}& /@ isolate[Rule @@ eqn, var];
+  isolated = isolate[Rule @@ eqn, var];
+  If[Head[isolated] =!= List, Return[SolveFailed]];
+  isolated = {#}& /@ isolated;
   (*Check that the isolate procedure returned sane results.*)
   If[!AllTrue[isolated, (Head[#[[1]]] == Rule)&], Return[SolveFailed]];
   (*Canonicalize solutions.*)
-- 
2.43.0


From 88fd3e5815ba85003f8ac5968bb1ec25e69a1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:42 +0000
Subject: [PATCH 079/100] fix: Solve does not divide zero by zero for repeated
 roots

---
 expreduce/resources.go      | 27 ++++++++++++++++++++++-----
 expreduce/resources/solve.m | 27 ++++++++++++++++++++++-----
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 2386586..e9a0318 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54560,18 +54560,35 @@ collect[eqn_Equal, var_Symbol] := Module[{toTry, collected, continue, foundSimpl
 solveQuadratic[a_.*x_^2 + b_.*x_ + c_., x_] :=
   solveQuadratic[a,b,c,x]/;FreeQ[{a,b,c},x];
 solveCubic[d_.*x_^3 + c_.*x_^2 + b_.*x_ + a_., x_] :=
-  solveCubic[d,c,b,a,x]/;FreeQ[{a,b,c,d},x];
+  solveCubicCases[d,c,b,a,x]/;FreeQ[{a,b,c,d},x];
 solveCubic[d_.*x_^3 + c_.*x_^2 +          a_., x_] :=
-  solveCubic[d,c,0,a,x]/;FreeQ[{a,c,d},x];
+  solveCubicCases[d,c,0,a,x]/;FreeQ[{a,c,d},x];
 solveCubic[d_.*x_^3 +            b_.*x_ + a_., x_] :=
-  solveCubic[d,0,b,a,x]/;FreeQ[{a,b,d},x];
+  solveCubicCases[d,0,b,a,x]/;FreeQ[{a,b,d},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3 + c_.*x_^2 + b_.*x_ + a_., x_] :=
-  solveQuartic[e,d,c,b,a,x]/;FreeQ[{a,b,c,d,e},x];
+  solveQuarticCases[e,d,c,b,a,x]/;FreeQ[{a,b,c,d,e},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3 +                     a_, x_] :=
-  solveQuartic[e,d,0,0,a,x]/;FreeQ[{a,d,e},x];
+  solveQuarticCases[e,d,0,0,a,x]/;FreeQ[{a,d,e},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3                         , x_] :=
   {{x->0},{x->0},{x->0},{x->-(d/e)}}/;FreeQ[{d,e},x];
 
+(* The formula for the cubic divides zero by zero when the equation is a shifted
+pure cube, and the one for the quartic when it is a shifted biquadratic. *)
+solveCubicCases[d_,c_,b_,a_,x_] := Module[{s, k},
+   If[Expand[c^2-3 b d] =!= 0, Return[solveCubic[d,c,b,a,x]]];
+   s = -c/(3 d);
+   k = (c^3/(27 d^2)-a)/d;
+   {{x->s+k^(1/3)},{x->s-(-1)^(1/3) k^(1/3)},{x->s+(-1)^(2/3) k^(1/3)}}
+   ];
+solveQuarticCases[e_,d_,c_,b_,a_,x_] := Module[{s, u, roots},
+   If[Expand[d^3-4 c d e+8 b e^2] =!= 0,
+    roots = solveQuartic[e,d,c,b,a,x];
+    Return[If[FreeQ[roots, Indeterminate], roots, SolveFailed]]];
+   s = -d/(4 e);
+   u = (#[[1,2]])& /@ solveQuadratic[e, c-3 d^2/(8 e), a-b d/(4 e)+c d^2/(16 e^2)-3 d^4/(256 e^3), x];
+   Join[({x->s-Sqrt[#]})& /@ u, ({x->s+Sqrt[#]})& /@ u]
+   ];
+
 (* Solve using u-substitution for polynomial-like forms.*)
 uSubstitute::usage =
   "uSubstitute[eqn, var] takes a non-polynomial `+"`"+`eqn`+"`"+` and attempts a \
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 192de2f..a4bfffe 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -181,18 +181,35 @@ collect[eqn_Equal, var_Symbol] := Module[{toTry, collected, continue, foundSimpl
 solveQuadratic[a_.*x_^2 + b_.*x_ + c_., x_] :=
   solveQuadratic[a,b,c,x]/;FreeQ[{a,b,c},x];
 solveCubic[d_.*x_^3 + c_.*x_^2 + b_.*x_ + a_., x_] :=
-  solveCubic[d,c,b,a,x]/;FreeQ[{a,b,c,d},x];
+  solveCubicCases[d,c,b,a,x]/;FreeQ[{a,b,c,d},x];
 solveCubic[d_.*x_^3 + c_.*x_^2 +          a_., x_] :=
-  solveCubic[d,c,0,a,x]/;FreeQ[{a,c,d},x];
+  solveCubicCases[d,c,0,a,x]/;FreeQ[{a,c,d},x];
 solveCubic[d_.*x_^3 +            b_.*x_ + a_., x_] :=
-  solveCubic[d,0,b,a,x]/;FreeQ[{a,b,d},x];
+  solveCubicCases[d,0,b,a,x]/;FreeQ[{a,b,d},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3 + c_.*x_^2 + b_.*x_ + a_., x_] :=
-  solveQuartic[e,d,c,b,a,x]/;FreeQ[{a,b,c,d,e},x];
+  solveQuarticCases[e,d,c,b,a,x]/;FreeQ[{a,b,c,d,e},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3 +                     a_, x_] :=
-  solveQuartic[e,d,0,0,a,x]/;FreeQ[{a,d,e},x];
+  solveQuarticCases[e,d,0,0,a,x]/;FreeQ[{a,d,e},x];
 solveQuartic[e_.*x_^4 + d_.*x_^3                         , x_] :=
   {{x->0},{x->0},{x->0},{x->-(d/e)}}/;FreeQ[{d,e},x];
 
+(* The formula for the cubic divides zero by zero when the equation is a shifted
+pure cube, and the one for the quartic when it is a shifted biquadratic. *)
+solveCubicCases[d_,c_,b_,a_,x_] := Module[{s, k},
+   If[Expand[c^2-3 b d] =!= 0, Return[solveCubic[d,c,b,a,x]]];
+   s = -c/(3 d);
+   k = (c^3/(27 d^2)-a)/d;
+   {{x->s+k^(1/3)},{x->s-(-1)^(1/3) k^(1/3)},{x->s+(-1)^(2/3) k^(1/3)}}
+   ];
+solveQuarticCases[e_,d_,c_,b_,a_,x_] := Module[{s, u, roots},
+   If[Expand[d^3-4 c d e+8 b e^2] =!= 0,
+    roots = solveQuartic[e,d,c,b,a,x];
+    Return[If[FreeQ[roots, Indeterminate], roots, SolveFailed]]];
+   s = -d/(4 e);
+   u = (#[[1,2]])& /@ solveQuadratic[e, c-3 d^2/(8 e), a-b d/(4 e)+c d^2/(16 e^2)-3 d^4/(256 e^3), x];
+   Join[({x->s-Sqrt[#]})& /@ u, ({x->s+Sqrt[#]})& /@ u]
+   ];
+
 (* Solve using u-substitution for polynomial-like forms.*)
 uSubstitute::usage =
   "uSubstitute[eqn, var] takes a non-polynomial `eqn` and attempts a \
-- 
2.43.0


From bab85c2c6dbd2cf348f8b35502dcf6bc97c625b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:55 +0000
Subject: [PATCH 080/100] fix: Solve handles dependent and contradictory linear
 systems

---
 expreduce/resources.go      | 7 ++++---
 expreduce/resources/solve.m | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index e9a0318..0720ddd 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54692,11 +54692,12 @@ solveMultOrdered[eqns_List, vars_List] :=
   Module[{firstSol, secondSol, toSolve},
    If[Length[eqns] =!= 2 || Length[vars] =!= 2, Return[SolveFailed]];
    firstSol = Solve[eqns[[1]], vars[[1]]];
-   Print[firstSol];
    If[Length[firstSol] =!= 1, Return[TooManySols1]];
    toSolve := eqns[[2]] /. firstSol[[1, 1]];
    secondSol = Solve[toSolve, vars[[2]]];
-   Print[secondSol];
+   (*The equations contradict each other or are the same.*)
+   If[secondSol === {}, Return[{}]];
+   If[secondSol === {{}}, Return[firstSol]];
    If[Length[secondSol] =!= 1, Return[TooManySols2]];
    firstSol = firstSol /. secondSol[[1]];
    {{firstSol[[1, 1]], secondSol[[1, 1]]}}
@@ -54717,7 +54718,7 @@ Solve[{}, _] := {{}};
 Solve[x_Symbol+a_.*E^x_Symbol==0, x_Symbol] := {{x->-ProductLog[a]}};
 (* Currently needed for Apart: *)
 (*Orderless matching would be nice here*)
-Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol+e_.*y_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->-((c e-b f)/(b d-a e)),y->-((-c d+a f)/(b d-a e))}} /;FreeQ[{a,b,c,d,e,f},x]&&FreeQ[{a,b,c,d,e,f},y]
+Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol+e_.*y_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->-((c e-b f)/(b d-a e)),y->-((-c d+a f)/(b d-a e))}} /;FreeQ[{a,b,c,d,e,f},x]&&FreeQ[{a,b,c,d,e,f},y]&&Expand[b d-a e]=!=0
 Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->f/d,y->-((-c d+a f)/(b d))}}/;FreeQ[{a,b,c,d,f},x]&&FreeQ[{a,b,c,d,f},y]
 
 Attributes[Solve] = {Protected};
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index a4bfffe..6a0fd41 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -313,11 +313,12 @@ solveMultOrdered[eqns_List, vars_List] :=
   Module[{firstSol, secondSol, toSolve},
    If[Length[eqns] =!= 2 || Length[vars] =!= 2, Return[SolveFailed]];
    firstSol = Solve[eqns[[1]], vars[[1]]];
-   Print[firstSol];
    If[Length[firstSol] =!= 1, Return[TooManySols1]];
    toSolve := eqns[[2]] /. firstSol[[1, 1]];
    secondSol = Solve[toSolve, vars[[2]]];
-   Print[secondSol];
+   (*The equations contradict each other or are the same.*)
+   If[secondSol === {}, Return[{}]];
+   If[secondSol === {{}}, Return[firstSol]];
    If[Length[secondSol] =!= 1, Return[TooManySols2]];
    firstSol = firstSol /. secondSol[[1]];
    {{firstSol[[1, 1]], secondSol[[1, 1]]}}
@@ -338,7 +339,7 @@ Solve[{}, _] := {{}};
 Solve[x_Symbol+a_.*E^x_Symbol==0, x_Symbol] := {{x->-ProductLog[a]}};
 (* Currently needed for Apart: *)
 (*Orderless matching would be nice here*)
-Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol+e_.*y_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->-((c e-b f)/(b d-a e)),y->-((-c d+a f)/(b d-a e))}} /;FreeQ[{a,b,c,d,e,f},x]&&FreeQ[{a,b,c,d,e,f},y]
+Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol+e_.*y_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->-((c e-b f)/(b d-a e)),y->-((-c d+a f)/(b d-a e))}} /;FreeQ[{a,b,c,d,e,f},x]&&FreeQ[{a,b,c,d,e,f},y]&&Expand[b d-a e]=!=0
 Solve[{a_.*x_Symbol+b_.*y_Symbol==c_,d_.*x_Symbol==f_},{x_Symbol,y_Symbol}] := {{x->f/d,y->-((-c d+a f)/(b d))}}/;FreeQ[{a,b,c,d,f},x]&&FreeQ[{a,b,c,d,f},y]
 
 Attributes[Solve] = {Protected};
-- 
2.43.0


From 460f0fb719506fe0cf64e3cb9392be9c916b98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:46 +0000
Subject: [PATCH 081/100] fix: square roots of negative numbers are multiples
 of I however they are written

---
 expreduce/resources.go      | 4 ++++
 expreduce/resources/power.m | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 0720ddd..28f5ad5 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -3885,6 +3885,10 @@ Power[Rational[a_,b_], e_Integer?Positive] := Rational[a^e,b^e];
 Power[Rational[a_,b_], e_Integer?Negative] := Rational[b^(-e),a^(-e)];
 Power[-1, -1/2] := -I;
 Power[-1, 1/2] := I;
+Power[a_Integer?Negative, 1/2] := I*Power[-a, 1/2];
+Power[a_Integer?Negative, -1/2] := -I*Power[-a, -1/2];
+Power[a_Rational?Negative, 1/2] := I*Power[-a, 1/2];
+Power[a_Rational?Negative, -1/2] := -I*Power[-a, -1/2];
 Power[Rational[a_?Positive,b_?Positive], 1/2] := Power[a, 1/2] * Power[b, -1/2];
 Power[Power[x_, y_Rational], -1] := Power[x, -y];
 (*We may want to deprecate this in favor of the general definition.*)
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index 115a2cf..c5b8b90 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -63,6 +63,10 @@ Power[Rational[a_,b_], e_Integer?Positive] := Rational[a^e,b^e];
 Power[Rational[a_,b_], e_Integer?Negative] := Rational[b^(-e),a^(-e)];
 Power[-1, -1/2] := -I;
 Power[-1, 1/2] := I;
+Power[a_Integer?Negative, 1/2] := I*Power[-a, 1/2];
+Power[a_Integer?Negative, -1/2] := -I*Power[-a, -1/2];
+Power[a_Rational?Negative, 1/2] := I*Power[-a, 1/2];
+Power[a_Rational?Negative, -1/2] := -I*Power[-a, -1/2];
 Power[Rational[a_?Positive,b_?Positive], 1/2] := Power[a, 1/2] * Power[b, -1/2];
 Power[Power[x_, y_Rational], -1] := Power[x, -y];
 (*We may want to deprecate this in favor of the general definition.*)
-- 
2.43.0


From 80ad2671e539f2f5a83702034ce7b61b060950a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:51 +0000
Subject: [PATCH 082/100] fix: Arg, Conjugate and Abs apply their formulas only
 where real and imaginary parts are known

---
 expreduce/resources.go           | 6 +++---
 expreduce/resources/arithmetic.m | 2 +-
 expreduce/resources/power.m      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 28f5ad5..1e0c67d 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -363,7 +363,7 @@ Abs[a_?NumberQ] := If[a<0,-a,a];
 Abs[Infinity] := Infinity;
 Abs[ComplexInfinity] := Infinity;
 Abs[-a_] := Abs[a];
-Abs[a_?((!FreeQ[#,I|_Complex])&)] := Sqrt[Total[ReIm[a]^2]] ;/ (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
+Abs[a_?((!FreeQ[#,I|_Complex])&)] := Sqrt[Total[ReIm[a]^2]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Attributes[Abs] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`+"`"+`Abs = {
     ESimpleExamples[
@@ -4698,7 +4698,7 @@ Tests`+"`"+`PowerExpand = {
 Arg::usage = "`+"`"+`Arg[x]`+"`"+` computes the argument of `+"`"+`x`+"`"+`.";
 Attributes[Arg] = {Listable, NumericFunction, Protected};
 Arg[a_?NumberQ] := ArcTan[Re[a], Im[a]];
-Arg[a_] := ArcTan[Re[a], Im[a]] ;/ (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
+Arg[a_] := ArcTan[Re[a], Im[a]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Tests`+"`"+`Arg = {
     ESimpleExamples[
         ESameTest[Pi/4, Arg[1/2 E^(I*Pi/4)]],
@@ -4706,7 +4706,7 @@ Tests`+"`"+`Arg = {
 };
 
 Conjugate::usage = "`+"`"+`Conjugate[x]`+"`"+` computes the complex conjugate of `+"`"+`x`+"`"+`.";
-Conjugate[a_] := a - 2 Im[a] I ;/ (FreeQ[Im[a], Re] && FreeQ[Im[a], Im]);
+Conjugate[a_] := a - 2 Im[a] I /; (FreeQ[Im[a], Re] && FreeQ[Im[a], Im]);
 Attributes[Conjugate] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`+"`"+`Conjugate = {
     ESimpleExamples[
diff --git a/expreduce/resources/arithmetic.m b/expreduce/resources/arithmetic.m
index 6737572..3d0a482 100644
--- a/expreduce/resources/arithmetic.m
+++ b/expreduce/resources/arithmetic.m
@@ -249,7 +249,7 @@ Abs[a_?NumberQ] := If[a<0,-a,a];
 Abs[Infinity] := Infinity;
 Abs[ComplexInfinity] := Infinity;
 Abs[-a_] := Abs[a];
-Abs[a_?((!FreeQ[#,I|_Complex])&)] := Sqrt[Total[ReIm[a]^2]] ;/ (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
+Abs[a_?((!FreeQ[#,I|_Complex])&)] := Sqrt[Total[ReIm[a]^2]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Attributes[Abs] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`Abs = {
     ESimpleExamples[
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index c5b8b90..e2e98af 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -876,7 +876,7 @@ Tests`PowerExpand = {
 Arg::usage = "`Arg[x]` computes the argument of `x`.";
 Attributes[Arg] = {Listable, NumericFunction, Protected};
 Arg[a_?NumberQ] := ArcTan[Re[a], Im[a]];
-Arg[a_] := ArcTan[Re[a], Im[a]] ;/ (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
+Arg[a_] := ArcTan[Re[a], Im[a]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Tests`Arg = {
     ESimpleExamples[
         ESameTest[Pi/4, Arg[1/2 E^(I*Pi/4)]],
@@ -884,7 +884,7 @@ Tests`Arg = {
 };
 
 Conjugate::usage = "`Conjugate[x]` computes the complex conjugate of `x`.";
-Conjugate[a_] := a - 2 Im[a] I ;/ (FreeQ[Im[a], Re] && FreeQ[Im[a], Im]);
+Conjugate[a_] := a - 2 Im[a] I /; (FreeQ[Im[a], Re] && FreeQ[Im[a], Im]);
 Attributes[Conjugate] = {Listable, NumericFunction, Protected, ReadProtected};
 Tests`Conjugate = {
     ESimpleExamples[
-- 
2.43.0


From 0f69832cef67cfcb04cfcd0c39712743ed7a63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:51 +0000
Subject: [PATCH 083/100] fix: Solve finds no solution for a negative power
 equal to zero

---
 expreduce/resources.go      | 1 +
 expreduce/resources/solve.m | 1 +
 2 files changed, 2 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 1e0c67d..48ab8f8 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54411,6 +54411,7 @@ applyInverse[lhs_Times -> rhs_, var_Symbol] := Module[{nonVarParts},
    nonVarParts = Select[lhs, (countVar[#, var] === 0) &];
    varParts    = Select[lhs, (countVar[#, var] =!= 0) &];
    {varParts -> rhs / nonVarParts}];
+applyInverse[base_^_?Negative -> 0, var_Symbol] := {} /; countVar[base, var] =!= 0;
 applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
   (* var in base *)
   Switch[pow,
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 6a0fd41..71372b3 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -28,6 +28,7 @@ applyInverse[lhs_Times -> rhs_, var_Symbol] := Module[{nonVarParts},
    nonVarParts = Select[lhs, (countVar[#, var] === 0) &];
    varParts    = Select[lhs, (countVar[#, var] =!= 0) &];
    {varParts -> rhs / nonVarParts}];
+applyInverse[base_^_?Negative -> 0, var_Symbol] := {} /; countVar[base, var] =!= 0;
 applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
   (* var in base *)
   Switch[pow,
-- 
2.43.0


From acce7f0b0def6e79e5583657e9d0f8f62b77fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:52 +0000
Subject: [PATCH 084/100] fix: Solve restricts roots and absolute values of
 families of solutions to those that exist

---
 expreduce/resources.go      | 10 ++++++++--
 expreduce/resources/solve.m | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 48ab8f8..928d5e3 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54423,7 +54423,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
     (* Not implemented yet *)
     _Integer,        SolveError,
     (* Similar to the general case but without the message.*)
-    Rational[1, n_], {base -> rhs ^ (1/pow)},
+    (* Only values in this sector are principal roots. *)
+    Rational[1, _], If[FreeQ[rhs, C],
+      {base -> rhs ^ (1/pow)},
+      {base -> ConditionalExpression[rhs ^ (1/pow), -Pi pow < Arg[rhs] <= Pi pow]}],
     _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
   ],
   (* else, var in power *)
@@ -54451,7 +54454,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
 applyInverse[Log[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[E^rhs, -Pi < Im[rhs] <= Pi]};
 applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
-  (Message[Solve::ifun, Solve];{lhs -> -rhs, lhs -> rhs});
+  (Message[Solve::ifun, Solve];
+   If[FreeQ[rhs, C],
+     {lhs -> -rhs, lhs -> rhs},
+     {lhs -> ConditionalExpression[-rhs, rhs >= 0], lhs -> ConditionalExpression[rhs, rhs >= 0]}]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 71372b3..6c433e0 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -40,7 +40,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
     (* Not implemented yet *)
     _Integer,        SolveError,
     (* Similar to the general case but without the message.*)
-    Rational[1, n_], {base -> rhs ^ (1/pow)},
+    (* Only values in this sector are principal roots. *)
+    Rational[1, _], If[FreeQ[rhs, C],
+      {base -> rhs ^ (1/pow)},
+      {base -> ConditionalExpression[rhs ^ (1/pow), -Pi pow < Arg[rhs] <= Pi pow]}],
     _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
   ],
   (* else, var in power *)
@@ -68,7 +71,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
 applyInverse[Log[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[E^rhs, -Pi < Im[rhs] <= Pi]};
 applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
-  (Message[Solve::ifun, Solve];{lhs -> -rhs, lhs -> rhs});
+  (Message[Solve::ifun, Solve];
+   If[FreeQ[rhs, C],
+     {lhs -> -rhs, lhs -> rhs},
+     {lhs -> ConditionalExpression[-rhs, rhs >= 0], lhs -> ConditionalExpression[rhs, rhs >= 0]}]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
-- 
2.43.0


From 8e8b5e70b69a92e288ee5e36a8730a33478979e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:52 +0000
Subject: [PATCH 085/100] fix: Solve keeps solutions that satisfy the equation
 in another form

---
 expreduce/resources.go      | 3 +++
 expreduce/resources/solve.m | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 928d5e3..ac08471 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54526,6 +54526,9 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
    Join[Sequence @@ allIsolated]
    ];
 checkSolution[eqn_Equal, sol_] := Module[{checkRes},
+    (*Exact numbers of different form may be equal.*)
+    checkRes = N[(eqn[[1]]-eqn[[2]]) /. sol];
+    If[NumberQ[checkRes], Return[Abs[checkRes] < 10^-6*(1+Abs[N[eqn[[2]]/.sol]])]];
     checkRes = eqn /. sol // Simplify;
     checkRes =!= False
 ];
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 6c433e0..b76ffdb 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -143,6 +143,9 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
    Join[Sequence @@ allIsolated]
    ];
 checkSolution[eqn_Equal, sol_] := Module[{checkRes},
+    (*Exact numbers of different form may be equal.*)
+    checkRes = N[(eqn[[1]]-eqn[[2]]) /. sol];
+    If[NumberQ[checkRes], Return[Abs[checkRes] < 10^-6*(1+Abs[N[eqn[[2]]/.sol]])]];
     checkRes = eqn /. sol // Simplify;
     checkRes =!= False
 ];
-- 
2.43.0


From c4c170ae3eed7f464d2440f5f4a6434ed5f3fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:09 +0000
Subject: [PATCH 086/100] fix: Solve solves linear equations in which terms
 cancel

---
 expreduce/resources.go      | 34 ++++++++++++++++++++++++----------
 expreduce/resources/solve.m | 34 ++++++++++++++++++++++++----------
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index ac08471..eef8cff 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54403,6 +54403,10 @@ checkedConditionalExpression[e_, c_] :=
    res = res /. C[n_Integer?Positive] :> C[n + Length[reps]];
    res /. reps];
 
+(* Solutions of a family for which a further condition holds. *)
+restrictFamily[ConditionalExpression[e_, c_], fn_, cond_] :=
+  ConditionalExpression[fn[e], c && cond[e]];
+
 applyInverse[lhs_Plus -> rhs_, var_Symbol] := Module[{nonVarParts},
    nonVarParts = Select[lhs, (countVar[#, var] === 0) &];
    varParts    = Select[lhs, (countVar[#, var] =!= 0) &];
@@ -54424,9 +54428,13 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
     _Integer,        SolveError,
     (* Similar to the general case but without the message.*)
     (* Only values in this sector are principal roots. *)
-    Rational[1, _], If[FreeQ[rhs, C],
-      {base -> rhs ^ (1/pow)},
-      {base -> ConditionalExpression[rhs ^ (1/pow), -Pi pow < Arg[rhs] <= Pi pow]}],
+    Rational[1, _], Which[
+      Head[rhs] === ConditionalExpression,
+        {base -> restrictFamily[rhs, (#^(1/pow))&, (-Pi pow < Arg[#] <= Pi pow)&]},
+      Arg[rhs] === -Pi pow || TrueQ[Abs[N[Arg[rhs]]] > N[Pi pow] + 10^-9],
+        {},
+      True,
+        {base -> rhs ^ (1/pow)}],
     _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
   ],
   (* else, var in power *)
@@ -54451,13 +54459,15 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
       _, Message[Solve::ifun, Solve];{pow -> Log[rhs]/Log[base]}
     ]]
 ];
+applyInverse[Log[lhs_] -> rhs_ConditionalExpression, var_Symbol] :=
+  {lhs -> restrictFamily[rhs, (E^#)&, (-Pi < Im[#] <= Pi)&]};
 applyInverse[Log[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[E^rhs, -Pi < Im[rhs] <= Pi]};
 applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
-   If[FreeQ[rhs, C],
-     {lhs -> -rhs, lhs -> rhs},
-     {lhs -> ConditionalExpression[-rhs, rhs >= 0], lhs -> ConditionalExpression[rhs, rhs >= 0]}]);
+   If[Head[rhs] === ConditionalExpression,
+     {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
+     {lhs -> -rhs, lhs -> rhs}]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
@@ -54525,10 +54535,11 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
    If[!AllTrue[allIsolated, (Head[#] === List)&], Return[SolveFailed]];
    Join[Sequence @@ allIsolated]
    ];
-checkSolution[eqn_Equal, sol_] := Module[{checkRes},
+checkSolution[eqn_Equal, sol_] := Module[{checkRes, sides},
     (*Exact numbers of different form may be equal.*)
-    checkRes = N[(eqn[[1]]-eqn[[2]]) /. sol];
-    If[NumberQ[checkRes], Return[Abs[checkRes] < 10^-6*(1+Abs[N[eqn[[2]]/.sol]])]];
+    sides = N[(List @@ eqn) /. sol];
+    If[AllTrue[sides, NumberQ],
+      Return[Abs[sides[[1]] - sides[[2]]] < 10^-6*(1+Abs[sides[[2]]])]];
     checkRes = eqn /. sol // Simplify;
     checkRes =!= False
 ];
@@ -54672,7 +54683,7 @@ variable. Throw these out. *)
 (*Sterling, L, Bundy, A, Byrd, L, O'Keefe, R & Silver, B 1982, Solving Symbolic Equations with PRESS. in*)
 (*Computer Algebra - Lecture Notes in Computer Science. vol. 7. DOI: 10.1007/3-540-11607-9_13*)
 (* Available at: http://www.research.ed.ac.uk/portal/files/413486/Solving_Symbolic_Equations_%20with_PRESS.pdf *)
-Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly},
+Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly, expanded},
    If[containsZeroOccurrences[eqn, var], Return[{}]];
    (* Attempt isolation *)
    If[containsOneOccurrence[eqn, var], Return[isolateInEqn[eqn, var]]];
@@ -54680,6 +54691,9 @@ Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly}
    (* Attempt polynomial solve *)
    poly = eqn[[1]]-eqn[[2]];
    If[PolynomialQ[poly, var],
+    (*Terms may cancel.*)
+    expanded = Expand[poly];
+    If[countVar[expanded, var] < 2, Return[Solve[expanded == 0, var]]];
     degree = Exponent[poly, var];
     If[degree === 2, Return[solveQuadratic[poly//Expand, var]//Simplify//Sort]];
     If[degree === 3, Return[solveCubic[poly//Expand, var]//Simplify//Sort]];
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index b76ffdb..6f401a8 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -20,6 +20,10 @@ checkedConditionalExpression[e_, c_] :=
    res = res /. C[n_Integer?Positive] :> C[n + Length[reps]];
    res /. reps];
 
+(* Solutions of a family for which a further condition holds. *)
+restrictFamily[ConditionalExpression[e_, c_], fn_, cond_] :=
+  ConditionalExpression[fn[e], c && cond[e]];
+
 applyInverse[lhs_Plus -> rhs_, var_Symbol] := Module[{nonVarParts},
    nonVarParts = Select[lhs, (countVar[#, var] === 0) &];
    varParts    = Select[lhs, (countVar[#, var] =!= 0) &];
@@ -41,9 +45,13 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
     _Integer,        SolveError,
     (* Similar to the general case but without the message.*)
     (* Only values in this sector are principal roots. *)
-    Rational[1, _], If[FreeQ[rhs, C],
-      {base -> rhs ^ (1/pow)},
-      {base -> ConditionalExpression[rhs ^ (1/pow), -Pi pow < Arg[rhs] <= Pi pow]}],
+    Rational[1, _], Which[
+      Head[rhs] === ConditionalExpression,
+        {base -> restrictFamily[rhs, (#^(1/pow))&, (-Pi pow < Arg[#] <= Pi pow)&]},
+      Arg[rhs] === -Pi pow || TrueQ[Abs[N[Arg[rhs]]] > N[Pi pow] + 10^-9],
+        {},
+      True,
+        {base -> rhs ^ (1/pow)}],
     _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
   ],
   (* else, var in power *)
@@ -68,13 +76,15 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
       _, Message[Solve::ifun, Solve];{pow -> Log[rhs]/Log[base]}
     ]]
 ];
+applyInverse[Log[lhs_] -> rhs_ConditionalExpression, var_Symbol] :=
+  {lhs -> restrictFamily[rhs, (E^#)&, (-Pi < Im[#] <= Pi)&]};
 applyInverse[Log[lhs_] -> rhs_, var_Symbol] :=
   {lhs -> ConditionalExpression[E^rhs, -Pi < Im[rhs] <= Pi]};
 applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
-   If[FreeQ[rhs, C],
-     {lhs -> -rhs, lhs -> rhs},
-     {lhs -> ConditionalExpression[-rhs, rhs >= 0], lhs -> ConditionalExpression[rhs, rhs >= 0]}]);
+   If[Head[rhs] === ConditionalExpression,
+     {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
+     {lhs -> -rhs, lhs -> rhs}]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
@@ -142,10 +152,11 @@ isolate[lhs_ -> rhs_, var_Symbol] := Module[{inverseApplied},
    If[!AllTrue[allIsolated, (Head[#] === List)&], Return[SolveFailed]];
    Join[Sequence @@ allIsolated]
    ];
-checkSolution[eqn_Equal, sol_] := Module[{checkRes},
+checkSolution[eqn_Equal, sol_] := Module[{checkRes, sides},
     (*Exact numbers of different form may be equal.*)
-    checkRes = N[(eqn[[1]]-eqn[[2]]) /. sol];
-    If[NumberQ[checkRes], Return[Abs[checkRes] < 10^-6*(1+Abs[N[eqn[[2]]/.sol]])]];
+    sides = N[(List @@ eqn) /. sol];
+    If[AllTrue[sides, NumberQ],
+      Return[Abs[sides[[1]] - sides[[2]]] < 10^-6*(1+Abs[sides[[2]]])]];
     checkRes = eqn /. sol // Simplify;
     checkRes =!= False
 ];
@@ -289,7 +300,7 @@ variable. Throw these out. *)
 (*Sterling, L, Bundy, A, Byrd, L, O'Keefe, R & Silver, B 1982, Solving Symbolic Equations with PRESS. in*)
 (*Computer Algebra - Lecture Notes in Computer Science. vol. 7. DOI: 10.1007/3-540-11607-9_13*)
 (* Available at: http://www.research.ed.ac.uk/portal/files/413486/Solving_Symbolic_Equations_%20with_PRESS.pdf *)
-Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly},
+Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly, expanded},
    If[containsZeroOccurrences[eqn, var], Return[{}]];
    (* Attempt isolation *)
    If[containsOneOccurrence[eqn, var], Return[isolateInEqn[eqn, var]]];
@@ -297,6 +308,9 @@ Solve[eqn_Equal, var_Symbol] := Module[{degree, collected, fullSimplified, poly}
    (* Attempt polynomial solve *)
    poly = eqn[[1]]-eqn[[2]];
    If[PolynomialQ[poly, var],
+    (*Terms may cancel.*)
+    expanded = Expand[poly];
+    If[countVar[expanded, var] < 2, Return[Solve[expanded == 0, var]]];
     degree = Exponent[poly, var];
     If[degree === 2, Return[solveQuadratic[poly//Expand, var]//Simplify//Sort]];
     If[degree === 3, Return[solveCubic[poly//Expand, var]//Simplify//Sort]];
-- 
2.43.0


From db8b943143ea008ac3ecd0392193518cd7ae3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:01 +0000
Subject: [PATCH 087/100] fix: Solve finds no solution for an absolute value
 equal to a negative number

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/solve.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index eef8cff..eed0eb9 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54467,7 +54467,7 @@ applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
    If[Head[rhs] === ConditionalExpression,
      {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
-     {lhs -> -rhs, lhs -> rhs}]);
+     If[TrueQ[rhs < 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 6f401a8..b7c5bc6 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -84,7 +84,7 @@ applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
    If[Head[rhs] === ConditionalExpression,
      {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
-     {lhs -> -rhs, lhs -> rhs}]);
+     If[TrueQ[rhs < 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
-- 
2.43.0


From 2fd7b8cc61f50ea6aeb4ff57e5dae5db8092186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:55 +0000
Subject: [PATCH 088/100] fix: Solve restricts fractional powers of families of
 solutions to those that exist

---
 expreduce/resources.go      | 5 ++++-
 expreduce/resources/solve.m | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index eed0eb9..25261b7 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54435,7 +54435,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
         {},
       True,
         {base -> rhs ^ (1/pow)}],
-    _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
+    _,               Message[Solve::ifun, Solve];
+      If[Head[rhs] === ConditionalExpression && TrueQ[Abs[pow] < 1],
+        {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
+        {base -> rhs ^ (1/pow)}]
   ],
   (* else, var in power *)
   If[rhs === 0,
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index b7c5bc6..3a7c08f 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -52,7 +52,10 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
         {},
       True,
         {base -> rhs ^ (1/pow)}],
-    _,               Message[Solve::ifun, Solve];{base -> rhs ^ (1/pow)}
+    _,               Message[Solve::ifun, Solve];
+      If[Head[rhs] === ConditionalExpression && TrueQ[Abs[pow] < 1],
+        {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
+        {base -> rhs ^ (1/pow)}]
   ],
   (* else, var in power *)
   If[rhs === 0,
-- 
2.43.0


From e018ed80e8e36a59c565dc9b40b7f739c18625cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:54 +0000
Subject: [PATCH 089/100] fix: Solve finds no solution for an absolute value
 equal to a number that is not real

---
 expreduce/resources.go      | 2 +-
 expreduce/resources/solve.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 25261b7..a1f195b 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54470,7 +54470,7 @@ applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
    If[Head[rhs] === ConditionalExpression,
      {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
-     If[TrueQ[rhs < 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
+     If[TrueQ[rhs < 0] || TrueQ[N[Im[rhs]] != 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index 3a7c08f..d0e4413 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -87,7 +87,7 @@ applyInverse[Abs[lhs_] -> rhs_, var_Symbol] :=
   (Message[Solve::ifun, Solve];
    If[Head[rhs] === ConditionalExpression,
      {lhs -> restrictFamily[rhs, (-#)&, (# >= 0)&], lhs -> restrictFamily[rhs, (#)&, (# >= 0)&]},
-     If[TrueQ[rhs < 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
+     If[TrueQ[rhs < 0] || TrueQ[N[Im[rhs]] != 0], {}, {lhs -> -rhs, lhs -> rhs}]]);
 (* Trig inverses *)
 applyInverse[Sin[lhs_] -> rhs_, var_Symbol] :=
   {lhs->checkedConditionalExpression[Pi-ArcSin[rhs]+2 Pi C[-1],C[-1]\[Element]Integers],
-- 
2.43.0


From 1344d46ce7bd27223487a1e714557f100a87897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:50 +0000
Subject: [PATCH 090/100] fix: Arg[0] is 0

---
 expreduce/resources.go      | 1 +
 expreduce/resources/power.m | 1 +
 2 files changed, 2 insertions(+)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index a1f195b..355af0b 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4697,6 +4697,7 @@ Tests`+"`"+`PowerExpand = {
 
 Arg::usage = "`+"`"+`Arg[x]`+"`"+` computes the argument of `+"`"+`x`+"`"+`.";
 Attributes[Arg] = {Listable, NumericFunction, Protected};
+Arg[0] := 0;
 Arg[a_?NumberQ] := ArcTan[Re[a], Im[a]];
 Arg[a_] := ArcTan[Re[a], Im[a]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Tests`+"`"+`Arg = {
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index e2e98af..db50775 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -875,6 +875,7 @@ Tests`PowerExpand = {
 
 Arg::usage = "`Arg[x]` computes the argument of `x`.";
 Attributes[Arg] = {Listable, NumericFunction, Protected};
+Arg[0] := 0;
 Arg[a_?NumberQ] := ArcTan[Re[a], Im[a]];
 Arg[a_] := ArcTan[Re[a], Im[a]] /; (FreeQ[ReIm[a], Re] && FreeQ[ReIm[a], Im]);
 Tests`Arg = {
-- 
2.43.0


From 395caef9fe9b6dcc2d3898bfc7f9e260beb3c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:23 +0000
Subject: [PATCH 091/100] fix: Solve finds no solution for a fractional power
 equal to a number outside its range

---
 expreduce/resources.go      | 12 +++++++++---
 expreduce/resources/solve.m | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 355af0b..bdfe534 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54437,9 +54437,15 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
       True,
         {base -> rhs ^ (1/pow)}],
     _,               Message[Solve::ifun, Solve];
-      If[Head[rhs] === ConditionalExpression && TrueQ[Abs[pow] < 1],
-        {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
-        {base -> rhs ^ (1/pow)}]
+      Which[
+        !TrueQ[Abs[pow] < 1],
+          {base -> rhs ^ (1/pow)},
+        Head[rhs] === ConditionalExpression,
+          {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
+        TrueQ[Abs[N[Arg[rhs]]] > N[Pi Abs[pow]] + 10^-9],
+          {},
+        True,
+          {base -> rhs ^ (1/pow)}]
   ],
   (* else, var in power *)
   If[rhs === 0,
diff --git a/expreduce/resources/solve.m b/expreduce/resources/solve.m
index d0e4413..90780af 100644
--- a/expreduce/resources/solve.m
+++ b/expreduce/resources/solve.m
@@ -53,9 +53,15 @@ applyInverse[base_^pow_ -> rhs_, var_Symbol] := If[countVar[base, var] =!= 0,
       True,
         {base -> rhs ^ (1/pow)}],
     _,               Message[Solve::ifun, Solve];
-      If[Head[rhs] === ConditionalExpression && TrueQ[Abs[pow] < 1],
-        {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
-        {base -> rhs ^ (1/pow)}]
+      Which[
+        !TrueQ[Abs[pow] < 1],
+          {base -> rhs ^ (1/pow)},
+        Head[rhs] === ConditionalExpression,
+          {base -> restrictFamily[rhs, (#^(1/pow))&, (Abs[Arg[#]] <= Pi Abs[pow])&]},
+        TrueQ[Abs[N[Arg[rhs]]] > N[Pi Abs[pow]] + 10^-9],
+          {},
+        True,
+          {base -> rhs ^ (1/pow)}]
   ],
   (* else, var in power *)
   If[rhs === 0,
-- 
2.43.0


From 0f5a9ab54fc9e33dc02de0ffb41efdf5986bca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:30 +0000
Subject: [PATCH 092/100] fix: keep the whole power of the factor taken out of
 a root

A perfect power was taken out of an integer's root to the first power
only, whatever the numerator of the exponent was: 12^(-7/3) and
(-12)^(5/2) came out too large or too small.
---
 expreduce/builtin_power.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index c2f600b..99cc02c 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -389,6 +389,7 @@ func getPowerDefinitions() (defs []Definition) {
 						if xPositivity == -1 {
 							radicand.Neg(radicand)
 						}
+						extracted.Exp(extracted, big.NewInt(0).Abs(m), nil)
 						var coeff expreduceapi.Ex = atoms.NewInteger(extracted)
 						if mPositivity == -1 {
 							coeff = atoms.NewRational(big.NewInt(1), extracted)
-- 
2.43.0


From 031eba797c241dfe5096d967fcde5602e581c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:30 +0000
Subject: [PATCH 093/100] fix: combine nested powers only where it is valid

(a^b)^c is a^(b c) for integer c or for b between -1 and 1; with b = -5/2
the square root of x^(-5/2) was said to be x^(-5/4).
---
 expreduce/resources.go      | 3 ++-
 expreduce/resources/power.m | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index bdfe534..4d866d6 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -3826,7 +3826,8 @@ Power[Power[a_,b_Integer],c_Integer] := a^(b*c);
 Power[Power[a_,b_Real],c_Integer] := a^(b*c);
 Power[Power[a_,b_Symbol],c_Integer] := a^(b*c);
 Power[Power[a_,b_Complex*c_Symbol],d_Integer] := a^(b*c*d);
-Power[Power[a_,b_Rational],c_] := a^(b*c);
+Power[Power[a_,b_Rational],c_Integer] := a^(b*c);
+Power[Power[a_,b_Rational?((-1 < # && # < 1)&)],c_] := a^(b*c);
 Power[Infinity, 0] := Indeterminate;
 Power[-Infinity, 0] := Indeterminate;
 Power[_, 0] := 1;
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index db50775..eda024c 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -4,7 +4,8 @@ Power[Power[a_,b_Integer],c_Integer] := a^(b*c);
 Power[Power[a_,b_Real],c_Integer] := a^(b*c);
 Power[Power[a_,b_Symbol],c_Integer] := a^(b*c);
 Power[Power[a_,b_Complex*c_Symbol],d_Integer] := a^(b*c*d);
-Power[Power[a_,b_Rational],c_] := a^(b*c);
+Power[Power[a_,b_Rational],c_Integer] := a^(b*c);
+Power[Power[a_,b_Rational?((-1 < # && # < 1)&)],c_] := a^(b*c);
 Power[Infinity, 0] := Indeterminate;
 Power[-Infinity, 0] := Indeterminate;
 Power[_, 0] := 1;
-- 
2.43.0


From bfae41dbc845a06a7098188e0cadc1970919138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 094/100] fix: multiply roots of negative integers only by
 roots of positive ones

(-2)^(1/3) (-3)^(1/3) was said to be 6^(1/3), which is another number.
---
 expreduce/resources.go           | 2 +-
 expreduce/resources/arithmetic.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 4d866d6..e0c0c53 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -238,7 +238,7 @@ Times::usage = "`+"`"+`(e1 * e2 * ...)`+"`"+` computes the product of all expres
 care. *)
 Verbatim[Times][beg___, a_^Optional[m_], a_^Optional[n_], end___] := beg*a^(m+n)*end /; (!NumberQ[a] || !NumberQ[m] || !NumberQ[n]);
 (*Verbatim[Times][a_Integer, mid___, b_Integer^n_, end___] := mid*-(b^(n+1))*end /; (a == -b);*)
-a_Integer^c_Rational*b_Integer^c_Rational*rest___ := (a*b)^c*rest;
+a_Integer^c_Rational*b_Integer^c_Rational*rest___ := (a*b)^c*rest /; (a > 0 || b > 0);
 (*Verbatim[Times][beg___, a_^Optional[m_], a_^Optional[n_], end___] := beg*a^(m+n)*end;*)
 (* This qualifier is so that the simplification for 3^(4/3) -> 3*3^(1/3) does not produce an infinite evaluation loop *)
 wouldntBeLessThanNegOne[x_] := ((x - 1) < -1) =!= True;
diff --git a/expreduce/resources/arithmetic.m b/expreduce/resources/arithmetic.m
index 3d0a482..72ae03a 100644
--- a/expreduce/resources/arithmetic.m
+++ b/expreduce/resources/arithmetic.m
@@ -124,7 +124,7 @@ Times::usage = "`(e1 * e2 * ...)` computes the product of all expressions in the
 care. *)
 Verbatim[Times][beg___, a_^Optional[m_], a_^Optional[n_], end___] := beg*a^(m+n)*end /; (!NumberQ[a] || !NumberQ[m] || !NumberQ[n]);
 (*Verbatim[Times][a_Integer, mid___, b_Integer^n_, end___] := mid*-(b^(n+1))*end /; (a == -b);*)
-a_Integer^c_Rational*b_Integer^c_Rational*rest___ := (a*b)^c*rest;
+a_Integer^c_Rational*b_Integer^c_Rational*rest___ := (a*b)^c*rest /; (a > 0 || b > 0);
 (*Verbatim[Times][beg___, a_^Optional[m_], a_^Optional[n_], end___] := beg*a^(m+n)*end;*)
 (* This qualifier is so that the simplification for 3^(4/3) -> 3*3^(1/3) does not produce an infinite evaluation loop *)
 wouldntBeLessThanNegOne[x_] := ((x - 1) < -1) =!= True;
-- 
2.43.0


From d35060b00f97fcef2071985bf148ac6dc600384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 095/100] fix: take the logarithm of E^p back to p only within
 its strip

Log[E^(4 I)] was 4 I; its imaginary part has to lie between -Pi and Pi.
---
 expreduce/resources.go      | 2 +-
 expreduce/resources/power.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index e0c0c53..eb58ee8 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4069,7 +4069,7 @@ Log[-Infinity] := Infinity;
 Log[0] := -Infinity;
 Log[1] := 0;
 Log[E] := 1;
-Log[E^p_?NumberQ] := p;
+Log[E^p_?NumberQ] := p /; -3.14159 < Im[p] < 3.14159;
 Log[Rational[1,b_]] := -Log[b];
 Attributes[Log] = {Listable,NumericFunction,Protected};
 Tests`+"`"+`Log = {
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index eda024c..a1d8a5c 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -247,7 +247,7 @@ Log[-Infinity] := Infinity;
 Log[0] := -Infinity;
 Log[1] := 0;
 Log[E] := 1;
-Log[E^p_?NumberQ] := p;
+Log[E^p_?NumberQ] := p /; -3.14159 < Im[p] < 3.14159;
 Log[Rational[1,b_]] := -Log[b];
 Attributes[Log] = {Listable,NumericFunction,Protected};
 Tests`Log = {
-- 
2.43.0


From 90a60a580046d3ce29a4906e8cf0f319b800f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 096/100] fix: do not divide by a zero coefficient in Simplify

Simplify[-x + (-2.5 + x)], whose coefficient of x is 0., was ComplexInfinity.
---
 expreduce/resources.go         | 2 +-
 expreduce/resources/simplify.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index eb58ee8..8c44a85 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -54277,7 +54277,7 @@ tryFactoringOutTerm[p_Plus] := Module[{cterms, simplest, i, tryVal},
    simplest = p;
    cterms = ((ExpreduceConstantTerm /@ (List @@ p)) // Transpose)[[1]];
    For[i = 1, i <= Length[cterms], i++,
-    tryVal = cterms[[i]] (p/cterms[[i]] // Distribute);
+    tryVal = If[cterms[[i]] == 0, p, cterms[[i]] (p/cterms[[i]] // Distribute)];
     If[ExpreduceLeafCountSimplify[tryVal] < ExpreduceLeafCountSimplify[simplest],
      simplest = tryVal];
     ];
diff --git a/expreduce/resources/simplify.m b/expreduce/resources/simplify.m
index f8368a0..46798d2 100644
--- a/expreduce/resources/simplify.m
+++ b/expreduce/resources/simplify.m
@@ -43,7 +43,7 @@ tryFactoringOutTerm[p_Plus] := Module[{cterms, simplest, i, tryVal},
    simplest = p;
    cterms = ((ExpreduceConstantTerm /@ (List @@ p)) // Transpose)[[1]];
    For[i = 1, i <= Length[cterms], i++,
-    tryVal = cterms[[i]] (p/cterms[[i]] // Distribute);
+    tryVal = If[cterms[[i]] == 0, p, cterms[[i]] (p/cterms[[i]] // Distribute)];
     If[ExpreduceLeafCountSimplify[tryVal] < ExpreduceLeafCountSimplify[simplest],
      simplest = tryVal];
     ];
-- 
2.43.0


From 2b1dcfdbaf3ad10697640892b30edaedf9b0eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:31 +0000
Subject: [PATCH 097/100] fix: take the sign out of a cotangent of a sum of
 several terms

Cot[-x + y + z] was -Cot[x - y z]: the remaining terms were multiplied.
---
 expreduce/resources.go     | 2 +-
 expreduce/resources/trig.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 8c44a85..88e7d7d 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -55871,7 +55871,7 @@ Attributes[Tan] = {Listable, NumericFunction, Protected};
 Cot::usage = "`+"`"+`Cot[x]`+"`"+` is the cotangent of `+"`"+`x`+"`"+`.";
 Cot[x_]^(-1) := Tan[x];
 Cot[x_ + Pi/2] := -Tan[x];
-Cot[Verbatim[Plus][-1*a_, b___]] := -Cot[a-b];
+Cot[Verbatim[Plus][-1*a_, b___]] := -Cot[a-Plus[b]];
 Attributes[Cot] = {Listable, NumericFunction, Protected};
 
 Sec[x_ - Pi/2] := Csc[x];
diff --git a/expreduce/resources/trig.m b/expreduce/resources/trig.m
index 59d67d0..f7b5879 100644
--- a/expreduce/resources/trig.m
+++ b/expreduce/resources/trig.m
@@ -56,7 +56,7 @@ Attributes[Tan] = {Listable, NumericFunction, Protected};
 Cot::usage = "`Cot[x]` is the cotangent of `x`.";
 Cot[x_]^(-1) := Tan[x];
 Cot[x_ + Pi/2] := -Tan[x];
-Cot[Verbatim[Plus][-1*a_, b___]] := -Cot[a-b];
+Cot[Verbatim[Plus][-1*a_, b___]] := -Cot[a-Plus[b]];
 Attributes[Cot] = {Listable, NumericFunction, Protected};
 
 Sec[x_ - Pi/2] := Csc[x];
-- 
2.43.0


From 1031f695b913503e1873c48f2d463ddc68800870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:10 +0000
Subject: [PATCH 098/100] fix: a rational to the power 0. is 1

The exponent zero was only handled for integer and approximate bases, and
(-9/2)^0. crashed.
---
 expreduce/builtin_power.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index 99cc02c..5605bb3 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -229,7 +229,8 @@ func getPowerDefinitions() (defs []Definition) {
 			} else if baseIsInt {
 				basePositivity = baseInt.Val.Cmp(big.NewInt(0))
 			}
-			if powerPositivity == 0 && (baseIsInt || baseIsFlt) {
+			_, baseIsRat := this.GetParts()[1].(*atoms.Rational)
+			if powerPositivity == 0 && (baseIsInt || baseIsFlt || baseIsRat) {
 				if basePositivity == 0 {
 					return atoms.NewSymbol("System`Indeterminate")
 				}
-- 
2.43.0


From 4320ba476f4652f3f0ca49b492bb59d8e5f73ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 099/100] fix: Expand leaves out addends to the power 0

They were written as a^0, so that an approximate zero among the addends
made terms Indeterminate: Expand[(0. + x)^2].
---
 expreduce/resources.go      | 5 ++++-
 expreduce/resources/power.m | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/expreduce/resources.go b/expreduce/resources.go
index 88e7d7d..799d9d4 100644
--- a/expreduce/resources.go
+++ b/expreduce/resources.go
@@ -4119,7 +4119,10 @@ Tests`+"`"+`I = {
 possibleExponents[n_Integer, m_Integer] :=
  Flatten[Permutations /@ ((PadRight[#, m]) & /@
      IntegerPartitions[n, m]), 1];
-genVars[addends_List, exponents_List] := Times@@(addends ^ exponents);
+(*An addend to the power 0 is left out: it may be an approximate zero.*)
+genVars[addends_List, exponents_List] := Times@@Table[
+  If[exponents[[ExpandUnique`+"`"+`j]] === 0, 1, addends[[ExpandUnique`+"`"+`j]]^exponents[[ExpandUnique`+"`"+`j]]],
+  {ExpandUnique`+"`"+`j, 1, Length[addends]}];
 genExpand[addends_List, exponents_List] :=
  Plus@@Table[(Multinomial @@ exponents[[ExpandUnique`+"`"+`i]])*
    genVars[addends, exponents[[ExpandUnique`+"`"+`i]]], {ExpandUnique`+"`"+`i, 1,
diff --git a/expreduce/resources/power.m b/expreduce/resources/power.m
index a1d8a5c..99ca518 100644
--- a/expreduce/resources/power.m
+++ b/expreduce/resources/power.m
@@ -297,7 +297,10 @@ Tests`I = {
 possibleExponents[n_Integer, m_Integer] :=
  Flatten[Permutations /@ ((PadRight[#, m]) & /@
      IntegerPartitions[n, m]), 1];
-genVars[addends_List, exponents_List] := Times@@(addends ^ exponents);
+(*An addend to the power 0 is left out: it may be an approximate zero.*)
+genVars[addends_List, exponents_List] := Times@@Table[
+  If[exponents[[ExpandUnique`j]] === 0, 1, addends[[ExpandUnique`j]]^exponents[[ExpandUnique`j]]],
+  {ExpandUnique`j, 1, Length[addends]}];
 genExpand[addends_List, exponents_List] :=
  Plus@@Table[(Multinomial @@ exponents[[ExpandUnique`i]])*
    genVars[addends, exponents[[ExpandUnique`i]]], {ExpandUnique`i, 1,
-- 
2.43.0


From a807e8879aeca6b88006cef083054b47aac5b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:33 +0000
Subject: [PATCH 100/100] fix: keep the comparisons between two others and the
 ends of equalities in Inequality

---
 expreduce/builtin_comparison.go | 85 ++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index 5d9c056..3fb1149 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -89,6 +89,11 @@ func getCompSign(e expreduceapi.Ex) int {
 	return -2
 }
 
+func isStrictComp(e expreduceapi.Ex) bool {
+	sym, isSym := e.(*atoms.Symbol)
+	return isSym && (sym.Name == "System`Less" || sym.Name == "System`Greater")
+}
+
 func int64InSlice(target int64, list []int64) bool {
 	for _, v := range list {
 		if v == target {
@@ -367,40 +372,41 @@ func getComparisonDefinitions() (defs []Definition) {
 			if len(this.GetParts())%2 != 0 {
 				return this
 			}
-			firstSign := getCompSign(this.GetParts()[2])
-			if firstSign == -2 {
-				return this
-			}
-			if firstSign != 0 {
-				for i := 4; i < len(this.GetParts()); i += 2 {
-					thisSign := getCompSign(this.GetParts()[i])
-					if thisSign == -2 {
-						return this
-					}
-					if thisSign == -firstSign {
-						firstIneq := atoms.E(atoms.S("Inequality"))
-						secondIneq := atoms.E(atoms.S("Inequality"))
-						for j := 1; j < len(this.GetParts()); j++ {
-							if j < i {
-								firstIneq.AppendEx(this.GetParts()[j])
-							}
-							if j > (i - 2) {
-								secondIneq.AppendEx(this.GetParts()[j])
-							}
+			firstSign := 0
+			for i := 2; i < len(this.GetParts()); i += 2 {
+				thisSign := getCompSign(this.GetParts()[i])
+				if thisSign == -2 {
+					return this
+				}
+				if firstSign == 0 {
+					firstSign = thisSign
+				}
+				if thisSign != 0 && thisSign == -firstSign {
+					firstIneq := atoms.E(atoms.S("Inequality"))
+					secondIneq := atoms.E(atoms.S("Inequality"))
+					for j := 1; j < len(this.GetParts()); j++ {
+						if j < i {
+							firstIneq.AppendEx(this.GetParts()[j])
+						}
+						if j > (i - 2) {
+							secondIneq.AppendEx(this.GetParts()[j])
 						}
-						return atoms.E(atoms.S("And"), firstIneq, secondIneq)
 					}
+					return atoms.E(atoms.S("And"), firstIneq, secondIneq)
 				}
 			}
+			// Comparisons that are true are left out at both ends. Those between
+			// two others become a single one which connects them.
 			res := atoms.E(atoms.S("Inequality"))
-			for i := 0; i < (len(this.GetParts())-1)/2; i++ {
-				lhs := this.GetParts()[2*i+1]
-				if len(res.GetParts()) > 1 {
-					lhs = res.GetParts()[len(res.GetParts())-1]
-				}
-				op := this.GetParts()[2*i+2]
-				rhs := this.GetParts()[2*i+3]
-				for rhsI := 2*i + 3; rhsI < len(this.GetParts()); rhsI += 2 {
+			var linkOp expreduceapi.Ex
+			for i := 2; i < len(this.GetParts()); i += 2 {
+				lhs := this.GetParts()[i-1]
+				op := this.GetParts()[i]
+				for rhsI := i + 1; rhsI < len(this.GetParts()); rhsI += 2 {
+					// An equality only tells about the next term.
+					if rhsI > i+1 && getCompSign(op) == 0 {
+						break
+					}
 					if falseQ(
 						es.Eval(atoms.E(op, lhs, this.GetParts()[rhsI])),
 						es.GetLogger(),
@@ -408,17 +414,20 @@ func getComparisonDefinitions() (defs []Definition) {
 						return atoms.S("False")
 					}
 				}
-				evalRes := es.Eval(atoms.E(op, lhs, rhs))
-				if !trueQ(evalRes, es.GetLogger()) {
-					if !atoms.IsSameQ(
-						res.GetParts()[len(res.GetParts())-1],
-						lhs,
-					) {
-						res.AppendEx(lhs)
+				evalRes := es.Eval(atoms.E(op, lhs, this.GetParts()[i+1]))
+				if trueQ(evalRes, es.GetLogger()) {
+					if linkOp == nil || getCompSign(linkOp) == 0 || isStrictComp(op) {
+						linkOp = op
 					}
-					res.AppendEx(op)
-					res.AppendEx(rhs)
+					continue
+				}
+				if res.Len() == 0 {
+					res.AppendEx(lhs)
+				} else if linkOp != nil {
+					res.AppendExArray([]expreduceapi.Ex{linkOp, lhs})
 				}
+				linkOp = nil
+				res.AppendExArray([]expreduceapi.Ex{op, this.GetParts()[i+1]})
 			}
 			if len(res.GetParts()) == 1 {
 				return atoms.S("True")
-- 
2.43.0

