From a4c80c127568a85871413fb1c381766ba7bdec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 01/51] fix: do not call the handler for mixed-type operands
 that are valid

(+ 1 2.0), (< 1.5 2), (create-char + integer) and friends first demanded
the other operand's own class, which signals a <domain-error> to the active
handler although the operation then succeeds.
---
 atom.go   | 12 +++++-----
 number.go | 68 +++++++++++++++++++++++++++----------------------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..430dcbe 100644
--- a/atom.go
+++ b/atom.go
@@ -176,24 +176,24 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r + Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r + value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r + Rune(value), nil
-	}
 	return nil, err
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r - Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r - value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r - Rune(value), nil
-	}
 	return nil, err
 }
 
diff --git a/number.go b/number.go
index 78ce32a..89589ca 100644
--- a/number.go
+++ b/number.go
@@ -52,35 +52,35 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) + _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i + _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) + _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) - _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i - _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) - _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) * _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i * _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) * _n, nil
-	}
 	return nil, err
 }
 
@@ -147,30 +147,30 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return i / _n, nil
+		return Float(i) / _n, nil
 	}
-	if _n, ok := n.(Float); ok {
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return Float(i) / _n, nil
+		return i / _n, nil
 	}
 	return nil, err
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) < _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i < _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
-	}
 	return false, err
 }
 
@@ -200,63 +200,63 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f + Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f + _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f + Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f - Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f - _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f - Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f * Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f * _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f * Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / _n, nil
+		return f / Float(_n), nil
 	}
-	if _n, ok := n.(Integer); ok {
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / Float(_n), nil
+		return f / _n, nil
 	}
 	return nil, err
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Integer); ok {
+		return f < Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f < _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
-	}
 	return false, err
 }
 
-- 
2.43.0


From d8d05b09be5778334f803e72163981d52a6794f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 02/51] fix: comparison chains hold exactly when every adjacent
 pair does

(< 3 1 5) raised an error because the failed pair's nil became the next
left operand, (equalp nil nil) was nil, (>= x NaN) was t, and mixed
integer/float operands lost precision beyond 2^53.
---
 number.go   | 35 ++++++++++++++++++---
 operator.go | 88 +++++++++++++++++++++--------------------------------
 2 files changed, 65 insertions(+), 58 deletions(-)

diff --git a/number.go b/number.go
index 89589ca..641676c 100644
--- a/number.go
+++ b/number.go
@@ -44,13 +44,40 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 			return true
 		}
 		_n, ok := n.(Float)
-		return ok && Float(i) == _n
+		return ok && compareIntegerFloat(i, _n) == 0
 	} else {
 		_n, ok := n.(Integer)
 		return ok && i == _n
 	}
 }
 
+// compareIntegerFloat compares i with f without losing precision. It returns
+// -1, 0 or 1 for i < f, i == f and i > f, and 2 when f is not a number.
+func compareIntegerFloat(i Integer, f Float) int {
+	switch {
+	case f != f:
+		return 2
+	case f >= 1<<63:
+		return -1
+	case f < -(1 << 63):
+		return 1
+	}
+	t := Integer(f)
+	switch {
+	case i < t:
+		return -1
+	case i > t:
+		return 1
+	}
+	switch frac := f - Float(t); {
+	case frac > 0:
+		return -1
+	case frac < 0:
+		return 1
+	}
+	return 0
+}
+
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
 	if _n, ok := n.(Float); ok {
 		return Float(i) + _n, nil
@@ -165,7 +192,7 @@ func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
+		return compareIntegerFloat(i, _n) == -1, nil
 	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
@@ -192,7 +219,7 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 			return true
 		}
 		_n, ok := n.(Integer)
-		return ok && f == Float(_n)
+		return ok && compareIntegerFloat(_n, f) == 0
 	} else {
 		v, ok := n.(Float)
 		return ok && f == v
@@ -251,7 +278,7 @@ func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
+		return compareIntegerFloat(_n, f) == 1, nil
 	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
diff --git a/operator.go b/operator.go
index adaa3fd..e952278 100644
--- a/operator.go
+++ b/operator.go
@@ -5,14 +5,23 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
+// compareChain returns True when `f` holds for every adjacent pair of `args`.
+func compareChain(args []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	if len(args) <= 0 {
+		return Null, nil
 	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
+	for i := 1; i < len(args); i++ {
+		result, err := f(args[i-1], args[i])
+		if err != nil || !result {
+			return Null, err
+		}
 	}
-	return True, err
+	return True, nil
+}
+
+func isNaN(n Node) bool {
+	f, ok := n.(Float)
+	return ok && f != f
 }
 
 type canPlus interface {
@@ -83,80 +92,51 @@ type canLessThan interface {
 }
 
 func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+			return _left.LessThan(ctx, w, right)
 		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+		return false, MakeError(ErrNotSupportType, left)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+			return _right.LessThan(ctx, w, left)
 		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		return false, MakeError(ErrNotSupportType, right)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareChain(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
 		if _left, ok := left.(canLessThan); ok {
 			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
+			return !result && !isNaN(left) && !isNaN(right), err
 		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		return false, MakeError(ErrNotSupportType, right)
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareChain(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
 		if _right, ok := right.(canLessThan); ok {
 			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
+			return !result && !isNaN(left) && !isNaN(right), err
 		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		return false, MakeError(ErrNotSupportType, right)
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From 6575682f65d074888412214e29a588b3f71048ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 03/51] fix: mod, rem, floor, round and arithmetic of one or no
 operand

(mod 5 3) was -1, (rem 5 0) panicked, (rem 7 2.0) was unsupported, (mod)
lost precision, (floor 1e300) was an arbitrary integer, (oddp -3) was nil,
(round 2.5) was 3 where ISLisp rounds ties to even, (+) and (*) were nil
and (+ 'a) returned its non-numeric operand.
---
 cmds.go     |  2 +-
 operator.go | 87 ++++++++++++++++++++++++++++++++++-------------------
 world.go    |  4 +--
 3 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..29bc076 100644
--- a/cmds.go
+++ b/cmds.go
@@ -151,7 +151,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/operator.go b/operator.go
index e952278..74c1a5b 100644
--- a/operator.go
+++ b/operator.go
@@ -30,6 +30,12 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
+	if _, ok := args[0].(canPlus); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
@@ -44,6 +50,9 @@ type canMinus interface {
 }
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
+	if _, ok := args[0].(canMinus); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	if len(args) == 1 {
 		class := args[0].ClassOf()
 		zero := class.Create()
@@ -66,6 +75,12 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
+	if _, ok := args[0].(CanMulti); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
@@ -79,6 +94,9 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Divide(context.Context, *World, Node) (Node, error)
 	}
+	if _, ok := args[0].(CanDevide); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanDevide); ok {
 			return _left.Divide(ctx, w, right)
@@ -180,7 +198,11 @@ func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
 		return value, nil
 	}
 	if value, ok := arg.(Float); ok {
-		return Integer(int(f(float64(value)))), nil
+		v := f(float64(value))
+		if !(v >= -(1<<63) && v < 1<<63) {
+			return nil, &DomainError{Object: arg, ExpectedClass: integerClass}
+		}
+		return Integer(int(v)), nil
 	}
 	return nil, MakeError(ErrNotSupportType, arg)
 }
@@ -201,54 +223,57 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-	var left float64
-	var right float64
-	bits := 0
-
-	if _left, ok := first.(Float); ok {
-		left = float64(_left)
-	} else {
-		_left, ok := first.(Integer)
-		if !ok {
-			return nil, ErrNotSupportType
-		}
-		left = float64(int(_left))
-		bits = 1
+	rem, err := funRem(ctx, w, first, second)
+	if err != nil {
+		return nil, err
 	}
-	if _right, ok := second.(Float); ok {
-		right = float64(_right)
-	} else {
-		_right, ok := second.(Integer)
+	// The result of (mod) has the sign of the divisor.
+	switch r := rem.(type) {
+	case Integer:
+		d, ok := second.(Integer)
+		if ok && r != 0 && (r < 0) != (d < 0) {
+			return r + d, nil
+		}
+	case Float:
+		d, ok := second.(Float)
 		if !ok {
-			return nil, ErrNotSupportType
+			i, _ := second.(Integer)
+			d = Float(i)
+		}
+		if r != 0 && (r < 0) != (d < 0) {
+			return r + d, nil
 		}
-		right = float64(int(_right))
-		bits |= 2
-	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
 	}
-	return Float(value), nil
+	return rem, nil
 }
 
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Integer(left % right), nil
 		}
+		first = Float(left)
 	}
 	if left, ok := first.(Float); ok {
-		if right, ok := second.(Float); ok {
-			return Float(math.Mod(float64(left), float64(right))), nil
+		right, ok := second.(Float)
+		if !ok {
+			_right, ok := second.(Integer)
+			if !ok {
+				return nil, ErrNotSupportType
+			}
+			right = Float(_right)
 		}
-		if right, ok := second.(Integer); ok {
-			return Float(math.Mod(float64(left), float64(int(right)))), nil
+		if right == 0 {
+			return raiseDivisionByZero(ctx, w, first, second)
 		}
+		return Float(math.Mod(float64(left), float64(right))), nil
 	}
 	return nil, ErrNotSupportType
 }
diff --git a/world.go b/world.go
index 348d176..96c9101 100644
--- a/world.go
+++ b/world.go
@@ -265,8 +265,8 @@ var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
 	NewSymbol("+"):                              &Function{F: funAdd},
-	NewSymbol("-"):                              &Function{F: funSub},
-	NewSymbol("/"):                              &Function{F: funDevide},
+	NewSymbol("-"):                              &Function{Min: 1, F: funSub},
+	NewSymbol("/"):                              &Function{Min: 1, F: funDevide},
 	NewSymbol("/="):                             &Function{C: 2, F: funNotEqual},
 	NewSymbol("<"):                              &Function{F: funLessThan},
 	NewSymbol("<="):                             &Function{F: funLessOrEqual},
-- 
2.43.0


From 4b4c5fff9153b2a94fd1c2a2ea12d3c18fe98d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 04/51] fix: (and) is t, (or) is nil, (cond (x)) is x, case
 compares with eql

---
 operator.go | 6 ++++++
 progn.go    | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index 74c1a5b..2d484c6 100644
--- a/operator.go
+++ b/operator.go
@@ -158,6 +158,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -176,6 +179,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
diff --git a/progn.go b/progn.go
index 9fe2110..d1b63ff 100644
--- a/progn.go
+++ b/progn.go
@@ -161,6 +161,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
@@ -195,7 +198,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From 7b3ef9c6d4efe869230a89e3d467b68923968fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 05/51] fix: setf of elt on a string, nthcdr 0, assoc and setq

(setf (elt str i) c) always failed because strings are basic arrays,
(setf (nthcdr 0 x) v) did nothing, (setf (assoc k m) v) replaced every
entry of that key and evaluated the value once per entry, and
(setf (setq ...) v) referred to an unbound variable.
---
 embed/set-assoc.lsp  | 15 +++++++--------
 embed/set-elt.lsp    | 10 +++++++---
 embed/set-nthcdr.lsp | 13 ++++++-------
 embed/set-setq.lsp   | 10 ++++------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..521d956 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -1,9 +1,8 @@
 (lambda-macro (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m) (,K ,key) (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L))
-                  (consp ,tmp)
-                  (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+  (let ((L (gensym)) (K (gensym)) (V (gensym)))
+    `(let* ((,V ,newvalue) (,K ,key) (,L ,m))
+       (while (and ,L
+                   (not (and (consp (car ,L))
+                             (eql ,K (car (car ,L))))))
+         (setq ,L (cdr ,L)))
+       (if ,L (set-car ,V ,L)))))
diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..41ee8de 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,8 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((v (gensym)) (s (gensym)))
+    `(let ((,v ,newvalue) (,s ,seq))
+       (if (stringp ,s)
+         (setf ,seq (swap-elt ,v ,s ,@z))
+         (if (basic-array-p ,s)
+           (set-aref ,v ,s ,@z)
+           (swap-elt ,v ,s ,@z))))))
diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..6c59720 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -1,7 +1,6 @@
-(lambda (newvalue z source)
-  (let ((s source))
-    (while s
-      (setq z (1- z))
-      (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
-    source))
+(lambda-macro (newvalue z source)
+  (let ((v (gensym)) (n (gensym)))
+    `(let ((,v ,newvalue) (,n ,z))
+       (if (= ,n 0)
+         (setf ,source ,v)
+         (set-cdr ,v (nthcdr (1- ,n) ,source))))))
diff --git a/embed/set-setq.lsp b/embed/set-setq.lsp
index 66a7cf7..c591406 100644
--- a/embed/set-setq.lsp
+++ b/embed/set-setq.lsp
@@ -1,6 +1,4 @@
-(lambda-macro (newvalue name avlue)
-  (let ((name (elt expr 1))
-        (value (elt expr 2)))
-    `(progn
-       (setq ,name ,value)
-       (setf ,name ,newvalue))))
+(lambda-macro (newvalue name value)
+  `(progn
+     (setq ,name ,value)
+     (setf ,name ,newvalue)))
-- 
2.43.0


From 5215143822189de9282791d39cd35483b511ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 06/51] fix: for, case-using, incf and decf evaluate user forms
 once and in order

for evaluated its initial values in reverse order and dropped all but the
first result form, case-using evaluated its keys and re-evaluated the
predicate form for every key, incf and decf evaluated the sub-forms of
the place twice.
---
 embed/case-using.lsp | 44 ++++++++++++++++++++++----------------------
 embed/decf.lsp       | 16 ++++++++++++++--
 embed/for.lsp        |  3 ++-
 embed/incf.lsp       | 16 ++++++++++++++--
 4 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 4665747..31b70b4 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,22 +1,22 @@
-(lambda-macro (predform keyform &rest body)
-  (let ((keyform_ (gensym)))
-    (setq body
-          (mapcar
-            (lambda (entry)
-              (if (equal (car entry) 't)
-                entry
-                (append
-                  (list
-                    (cons
-                      'or
-                      (mapcar
-                        (lambda (key1)
-                          (list 'funcall predform keyform_ key1))
-                        (car entry))))
-                      (cdr entry)))
-                  ) body))
-    (setq body (cons 'cond body))
-    (setq body `(let ((,keyform_ ,keyform)) ,body))
-    ;(format t "~s~%" body)
-    ;body
-    ))
+(lambda-macro (predform keyform &rest body)
+  (let ((keyform_ (gensym)) (pred_ (gensym)))
+    (setq body
+          (mapcar
+            (lambda (entry)
+              (if (equal (car entry) 't)
+                entry
+                (append
+                  (list
+                    (cons
+                      'or
+                      (mapcar
+                        (lambda (key1)
+                          (list 'funcall pred_ keyform_ (list 'quote key1)))
+                        (car entry))))
+                      (cdr entry)))
+                  ) body))
+    (setq body (cons 'cond body))
+    (setq body `(let* ((,pred_ ,predform) (,keyform_ ,keyform)) ,body))
+    ;(format t "~s~%" body)
+    ;body
+    ))
diff --git a/embed/decf.lsp b/embed/decf.lsp
index d768631..2643b3e 100644
--- a/embed/decf.lsp
+++ b/embed/decf.lsp
@@ -1,3 +1,15 @@
 (lambda-macro (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (- ,place ,delta))))
+  (let ((delta (if args (car args) 1)) (binds nil))
+    (if (consp place)
+      (setq place
+            (cons (car place)
+                  (mapcar
+                    (lambda (arg)
+                      (if (consp arg)
+                        (let ((v (gensym)))
+                          (setq binds (cons (list v arg) binds))
+                          v)
+                        arg))
+                    (cdr place)))))
+    (setq binds (reverse binds))
+    `(let ,binds (setf ,place (- ,place ,delta)))))
diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..0531cef 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -2,7 +2,7 @@
   (let ((inits nil)
         (steps '(psetq))
         (test (car test-result))
-        (result (elt test-result 1)))
+        (result (cons 'progn (cdr test-result))))
     (while iters
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
@@ -13,6 +13,7 @@
             (setq steps (append steps (list var step))))))
         (setq iters (cdr iters))
       ) ; while
+    (setq inits (reverse inits))
     (if (> (length steps) 1)
       `(let ,inits (while (not ,test) ,@body ,steps) ,result)
       `(let ,inits (while (not ,test) ,@body) ,result))
diff --git a/embed/incf.lsp b/embed/incf.lsp
index c279153..a8e57e3 100644
--- a/embed/incf.lsp
+++ b/embed/incf.lsp
@@ -1,3 +1,15 @@
 (lambda-macro (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (+ ,place ,delta))))
+  (let ((delta (if args (car args) 1)) (binds nil))
+    (if (consp place)
+      (setq place
+            (cons (car place)
+                  (mapcar
+                    (lambda (arg)
+                      (if (consp arg)
+                        (let ((v (gensym)))
+                          (setq binds (cons (list v arg) binds))
+                          v)
+                        arg))
+                    (cdr place)))))
+    (setq binds (reverse binds))
+    `(let ,binds (setf ,place (+ ,place ,delta)))))
-- 
2.43.0


From c5f9058f21557c79b6adc81e536aecd899fefea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 07/51] fix: expanding macros at definition time respects scope
 and immediate lambdas

A function body form whose operator is a lambda expression was replaced by
a form of missing values, a macro hidden by flet or by a later defun was
still expanded, and a failing expansion printed to standard error and ran
the active handler although nothing had been evaluated yet.
---
 lambda.go | 20 +++++++++++---------
 macro.go  |  4 ----
 world.go  |  1 -
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..7eaaa8f 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,16 +89,14 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
+	}
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
 	}
-	macro, ok := w.macro[symbol]
+	macro, ok := f.(*_Macro)
 	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
 		ls, ok := f.(*LispString)
 		if !ok {
 			return nil
@@ -116,9 +114,13 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 			return nil
 		}
 	}
+	// A failure here is not an error of the running program yet:
+	// it is reported when the form is evaluated.
+	handler := w.handler
+	w.handler = nil
 	expandCode, err := macro.expand(ctx, w, cons.Cdr)
+	w.handler = handler
 	if err != nil {
-		println(err.Error())
 		return nil
 	}
 	if x := expandMacroOne(ctx, w, expandCode); x != nil {
diff --git a/macro.go b/macro.go
index bb0c4a2..41e005c 100644
--- a/macro.go
+++ b/macro.go
@@ -184,10 +184,6 @@ func cmdDefMacro(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	w.defun.Set(macroName, value)
-	if w.macro == nil {
-		w.macro = make(map[Symbol]*_Macro)
-	}
-	w.macro[macroName] = value
 	return macroName, nil
 }
 
diff --git a/world.go b/world.go
index 96c9101..d999368 100644
--- a/world.go
+++ b/world.go
@@ -97,7 +97,6 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
 	handler   Callable
 	global    Scope
 	defun     FuncScope
-- 
2.43.0


From 765b9597db7bc91cb814e6915e9445dbb2e9f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 08/51] fix: block, tagbody and catch leave exactly the
 matching active form

Exit points were matched by name only: a lambda swallowed (return x) of the
enclosing block, a recursive call's block of the same name caught the exit
meant for an outer activation, leaving an inner block made the outer one of
the same name unreachable, and catch panicked for unhashable tags and
compared tags with equalp.
---
 lambda.go |   4 --
 progn.go  | 146 ++++++++++++++++++++++++++++--------------------------
 world.go  |  21 ++++----
 3 files changed, 86 insertions(+), 85 deletions(-)

diff --git a/lambda.go b/lambda.go
index 7eaaa8f..5252f14 100644
--- a/lambda.go
+++ b/lambda.go
@@ -310,10 +310,6 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			lexical[name] = value
 		}
 	}
-	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-		return errEarlyReturns.Value, nil
-	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
diff --git a/progn.go b/progn.go
index d1b63ff..2ee3f64 100644
--- a/progn.go
+++ b/progn.go
@@ -6,9 +6,42 @@ import (
 	"fmt"
 )
 
+// exitPoint is an active (block) or (tagbody). It belongs to the lexical
+// environment of its body so that only code written inside can refer to it.
+type exitPoint struct {
+	name   Symbol          // block
+	tags   map[Symbol]Node // tagbody
+	exited bool
+}
+
+func (w *World) letExit(e *exitPoint) *World {
+	return &World{
+		parent: w,
+		shared: w.shared,
+		exit:   e,
+	}
+}
+
+func (w *World) findExit(match func(*exitPoint) bool) *exitPoint {
+	for ; w != nil; w = w.parent {
+		if w.exit != nil && match(w.exit) {
+			if w.exit.exited {
+				return nil
+			}
+			return w.exit
+		}
+	}
+	return nil
+}
+
+func (w *World) findBlock(name Symbol) *exitPoint {
+	return w.findExit(func(e *exitPoint) bool { return e.tags == nil && e.name == name })
+}
+
 type _ErrEarlyReturns struct {
 	Value Node
 	Name  Symbol
+	exit  *exitPoint
 }
 
 func (e *_ErrEarlyReturns) Error() string {
@@ -19,13 +52,11 @@ func (e *_ErrEarlyReturns) Error() string {
 }
 
 func funReturn(ctx context.Context, w *World, arg Node) (Node, error) {
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nulSymbol]; !ok {
+	exit := w.findBlock(nulSymbol)
+	if exit == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", nulSymbol.String()))
 	}
-	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol}
+	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol, exit: exit}
 }
 
 func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
@@ -43,17 +74,15 @@ func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
 	} else {
 		symbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[symbol]; !ok {
+	exit := w.findBlock(symbol)
+	if exit == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", symbol.String()))
 	}
 	value, err := w.Eval(ctx, argv[1])
 	if err != nil {
 		return nil, err
 	}
-	return nil, &_ErrEarlyReturns{Value: value, Name: symbol}
+	return nil, &_ErrEarlyReturns{Value: value, Name: symbol, exit: exit}
 }
 
 func Progn(ctx context.Context, w *World, n Node) (value Node, err error) {
@@ -87,24 +116,24 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	} else {
 		nameSymbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nameSymbol]; !ok {
-		defer delete(w.blockName, nameSymbol)
-		w.blockName[nameSymbol] = struct{}{}
-	}
+	exit := &exitPoint{name: nameSymbol}
+	defer func() { exit.exited = true }()
 	var errEarlyReturns *_ErrEarlyReturns
-	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == nameSymbol {
+	rv, err := Progn(ctx, w.letExit(exit), statements)
+	if errors.As(err, &errEarlyReturns) && errEarlyReturns.exit == exit {
 		return errEarlyReturns.Value, nil
 	}
 	return rv, err
 }
 
+type catchPoint struct {
+	tag Node
+}
+
 type _ErrThrown struct {
 	Value   Node
 	TagForm Node
+	catch   *catchPoint
 }
 
 func (e *_ErrThrown) Error() string {
@@ -117,30 +146,26 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	catch := &catchPoint{tag: tagForm}
+	catchTag := w.catchTag
+	defer func() { w.catchTag = catchTag }()
+	w.catchTag = append(catchTag[:len(catchTag):len(catchTag)], catch)
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.catch == catch {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	for i := len(w.catchTag) - 1; i >= 0; i-- {
+		if catch := w.catchTag[i]; catch.tag.Equals(tagForm, STRICT) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value, catch: catch}
+		}
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
@@ -340,7 +365,8 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 }
 
 type _ErrTagBody struct {
-	tag Symbol
+	tag  Symbol
+	exit *exitPoint
 }
 
 func (t *_ErrTagBody) Error() string {
@@ -356,21 +382,20 @@ func cmdGo(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
-	if _, ok := w.goTag[symbol]; !ok {
+	exit := w.findExit(func(e *exitPoint) bool {
+		_, ok := e.tags[symbol]
+		return ok
+	})
+	if exit == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
 	}
-	return Null, &_ErrTagBody{tag: symbol}
+	return Null, &_ErrTagBody{tag: symbol, exit: exit}
 }
 
 func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
-	tag := map[Symbol]Node{}
+	exit := &exitPoint{tags: map[Symbol]Node{}}
+	defer func() { exit.exited = true }()
 
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
 	for _args := args; IsSome(_args); {
 		var current Node
 		var err error
@@ -380,13 +405,10 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := current.(Symbol); ok {
-			if _, ok := w.goTag[symbol]; !ok {
-				w.goTag[symbol] = struct{}{}
-				defer delete(w.goTag, symbol)
-			}
+			exit.tags[symbol] = _args
 		}
 	}
-mainloop:
+	w = w.letExit(exit)
 	for IsSome(args) {
 		var current Node
 		var err error
@@ -395,37 +417,21 @@ mainloop:
 		if err != nil {
 			return nil, err
 		}
-		if symbol, ok := current.(Symbol); ok {
-			tag[symbol] = args
+		if _, ok := current.(Symbol); ok {
 			continue
 		}
+		if err = checkContext(ctx); err != nil {
+			return nil, err
+		}
 		_, err = w.Eval(ctx, current)
 		if err == nil {
 			continue
 		}
 		var t *_ErrTagBody
-		if !errors.As(err, &t) {
+		if !errors.As(err, &t) || t.exit != exit {
 			return nil, err
 		}
-		if next, ok := tag[t.tag]; ok {
-			args = next
-			continue
-		}
-		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
-			}
-			symbol, ok := current.(Symbol)
-			if !ok {
-				continue
-			}
-			tag[symbol] = args
-			if symbol == t.tag {
-				continue mainloop
-			}
-		}
-		return nil, err
+		args = exit.tags[t.tag]
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index d999368..2c36cf5 100644
--- a/world.go
+++ b/world.go
@@ -97,17 +97,15 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	handler   Callable
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
+	handler  Callable
+	global   Scope
+	defun    FuncScope
+	dynamic  Variables
+	stdout   *_WriterNode
+	errout   *_WriterNode
+	stdin    _ReaderNode
+	startup  sync.Once
+	catchTag []*catchPoint
 }
 
 type World struct {
@@ -115,6 +113,7 @@ type World struct {
 	parent *World
 	funcs  FuncScope
 	vars   Scope
+	exit   *exitPoint
 }
 
 type _Reader interface {
-- 
2.43.0


From a2f691fc793e1c9a8eaa16608f14ec57f14664aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 09/51] fix: a condition is delivered once, at the raise point,
 with its handler inactive

Handlers were called twice for most errors and once more after unwinding,
were still active while they ran (guarded by a context value that silenced
every error inside them), their non-local exits at the raise point were
discarded, a handler that returned hid the outer handlers, and
signal-condition evaluated the condition object again. ignore-errors
swallowed non-local exits, quit and cancellation, and unwind-protect
returned the value of its cleanup form.
---
 cond.go  | 153 ++++++++++++++++++++++++++++++++++++++++---------------
 cons.go  |  16 ++++--
 error.go |  22 +++-----
 progn.go |   8 ++-
 world.go |  11 +++-
 5 files changed, 146 insertions(+), 64 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..bbaca3f 100644
--- a/cond.go
+++ b/cond.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"reflect"
 )
 
 func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
@@ -17,39 +18,105 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = handler
-	value, err := Progn(ctx, w, node)
+	w.handler = &_Handler{function: handler, outer: oldHandler}
+	return Progn(ctx, w, node)
+}
 
-	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
-	// 呼ばなければいけないが、 古いコードは error を返して、error の処理元で
-	// ハンドラー関数を呼ぶことを想定し、エラー発生箇所で呼べていない
-	//
-	// エラー発生箇所でハンドラー関数が呼ばれて、ここに戻る時は大域脱出系エラーで
-	// 戻ってくるはずなので、そういった場合は、ここでハンドラー関数を呼ばない
-	// ようにしている
-	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
+// _Handler is one of the active handlers of (with-handler)
+type _Handler struct {
+	function Callable
+	outer    *_Handler
+}
 
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
-		return value, err
+// _Signaled marks an error all of the active handlers have already declined
+// (or which was raised by a handler itself) so that they are not called again.
+type _Signaled struct {
+	error
+}
+
+func (s *_Signaled) Unwrap() error {
+	return s.error
+}
+
+// isControlFlow returns true when err is not a condition but a transfer of
+// control: non-local exits, quit, abort or the cancellation by the host.
+func isControlFlow(ctx context.Context, err error) bool {
+	var e1 *_ErrEarlyReturns      // block & return-from
+	var e2 *_ErrThrown            // catch & throw
+	var e3 *_ErrTagBody           // tagbody & go
+	var e4 *_ErrContinueCondition // continue-condition
+	var e5 *_ErrTailRecOpt
+	return ctx.Err() != nil ||
+		errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) ||
+		errors.As(err, &e4) || errors.As(err, &e5) ||
+		errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort)
+}
+
+// callHandlers calls the active handlers with cond from the innermost to the
+// outermost until one of them does not return. Each of them runs while only
+// its outer handlers are active. err is the error reported to the caller
+// when all of the handlers returned.
+func (w *World) callHandlers(ctx context.Context, cond Node, cont bool, err error) (Node, error) {
+	current := w.handler
+	if current == nil {
+		return nil, err
+	}
+	defer func() { w.handler = current }()
+	for h := current; h != nil; h = h.outer {
+		w.handler = h.outer
+		_, e := h.function.Call(ctx, w, UnevalList(cond))
+		if e == nil {
+			continue
+		}
+		var ce *_ErrContinueCondition
+		if errors.As(e, &ce) && sameNode(ce.Cond, cond) {
+			if cont {
+				return ce.Value, nil
+			}
+			e = ControlError{err: ce}
+		}
+		return nil, w.signal(ctx, e)
 	}
+	return nil, &_Signaled{error: err}
+}
+
+// signal calls the handlers for err unless it was already done.
+func (w *World) signal(ctx context.Context, err error) error {
+	switch err.(type) {
+	case *_Signaled, *_ErrEarlyReturns, *_ErrThrown, *_ErrTagBody, *_ErrContinueCondition, *_ErrTailRecOpt:
+		return err
+	}
+	var signaled *_Signaled
+	if w.handler == nil || errors.As(err, &signaled) || isControlFlow(ctx, err) {
+		return &_Signaled{error: err}
+	}
+	var cond errorAndNode
+	if !errors.As(err, &cond) {
+		cond = ErrorNode{Value: err}
+	}
+	_, err = w.callHandlers(ctx, cond, false, err)
+	return err
+}
 
-	var errorValue interface {
-		Node
-		Error() string
+// sameNode returns true when a and b are the same object.
+func sameNode(a, b Node) bool {
+	if a == nil || b == nil {
+		return IsNone(a) && IsNone(b)
 	}
-	var err2 error
-	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
-	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
+	ta := reflect.TypeOf(a)
+	if ta != reflect.TypeOf(b) {
+		return false
 	}
-	if err2 != nil {
-		return nil, err2
+	if ta.Comparable() && reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable() {
+		return a == b
 	}
-	return nil, err
+	switch _a := a.(type) {
+	case _Hash:
+		return reflect.ValueOf(_a).Pointer() == reflect.ValueOf(b).Pointer()
+	case FunctionRef:
+		return _a.Equals(b, STRICT)
+	}
+	return a.Equals(b, STRICT)
 }
 
 type _ErrContinueCondition struct {
@@ -69,26 +136,28 @@ var reportCondition = &_Generic{
 }
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
-	if w.handler == nil {
-		buffer := &StringBuilder{}
-		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
-			return nil, errors.New(buffer.String())
-		} else if !errors.Is(err, ErrNoMatchMethods) {
-			return nil, fmt.Errorf("%w in (report-condition)", err)
-		}
-		if err, ok := cond.(error); ok {
-			return nil, err
-		}
-		return nil, errors.New(cond.String())
+	value, err := w.callHandlers(ctx, cond, IsSome(continueable), errNotHandled)
+	if !errors.Is(err, errNotHandled) {
+		return value, err
+	}
+	handler := w.handler
+	defer func() { w.handler = handler }()
+	w.handler = nil
+	var noMethod *_UndefinedEntity
+	buffer := &StringBuilder{}
+	if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
+		return nil, &_Signaled{error: errors.New(buffer.String())}
+	} else if !errors.As(err, &noMethod) || noMethod.name != symReportCondition {
+		return nil, &_Signaled{error: fmt.Errorf("%w in (report-condition)", err)}
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
-	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
-		return e.Value, nil
+	if err, ok := cond.(error); ok {
+		return nil, &_Signaled{error: err}
 	}
-	return rv, err
+	return nil, &_Signaled{error: errors.New(cond.String())}
 }
 
+var errNotHandled = errors.New("not handled")
+
 func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error) {
 	cond, node, err := w.ShiftAndEvalCar(ctx, node)
 	if err != nil {
diff --git a/cons.go b/cons.go
index 80dc726..c797641 100644
--- a/cons.go
+++ b/cons.go
@@ -205,8 +205,18 @@ func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 		}
 		rc, err = function.Call(ctx, w, cons.Cdr)
 	}
-	if err != nil {
-		return nil, fmt.Errorf("%w\n\tat %v", err, symbol)
+	switch e := err.(type) {
+	case nil:
+		return rc, nil
+	case *_ErrEarlyReturns, *_ErrThrown, *_ErrTagBody, *_ErrContinueCondition:
+		return nil, err
+	case *_Signaled:
+		return nil, &_Signaled{error: fmt.Errorf("%w\n\tat %v", e.error, symbol)}
+	default:
+		err = w.signal(ctx, err)
+		if s, ok := err.(*_Signaled); ok {
+			return nil, &_Signaled{error: fmt.Errorf("%w\n\tat %v", s.error, symbol)}
+		}
+		return nil, err
 	}
-	return rc, nil
 }
diff --git a/error.go b/error.go
index 8c49c20..0f34fe9 100644
--- a/error.go
+++ b/error.go
@@ -134,24 +134,16 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
-
 func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
 	var zero T
-	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
-		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
-		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
-				return v, nil
-			}
-		}
+	value, err := w.callHandlers(ctx, condition, cont, condition)
+	if err != nil {
+		return zero, err
+	}
+	if v, ok := value.(T); ok {
+		return v, nil
 	}
-	return zero, condition
+	return zero, &_Signaled{error: condition}
 }
 
 func ExpectInterface[T Node](ctx context.Context, w *World, v Node, class Class) (T, error) {
diff --git a/progn.go b/progn.go
index 2ee3f64..88c5904 100644
--- a/progn.go
+++ b/progn.go
@@ -344,11 +344,12 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
+	var value Node
 	var formErr error
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
+	value, list, formErr = w.ShiftAndEvalCar(ctx, list)
 
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
@@ -439,6 +440,9 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if isControlFlow(ctx, err) {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
diff --git a/world.go b/world.go
index 2c36cf5..7b6f65e 100644
--- a/world.go
+++ b/world.go
@@ -97,7 +97,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	handler  Callable
+	handler  *_Handler
 	global   Scope
 	defun    FuncScope
 	dynamic  Variables
@@ -513,7 +513,14 @@ func (w *World) Eval(ctx context.Context, node Node) (Node, error) {
 		Eval(context.Context, *World) (Node, error)
 	}
 	if e, ok := node.(canEval); ok {
-		return e.Eval(ctx, w)
+		value, err := e.Eval(ctx, w)
+		if err != nil {
+			return value, w.signal(ctx, err)
+		}
+		node = value
+	}
+	if node == nil {
+		return Null, nil
 	}
 	return node, nil
 }
-- 
2.43.0


From f15b527e7ff47451aeb71a6d4c7396a0822bbac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 10/51] fix: apply evaluates its arguments in order, cerror
 works

apply evaluated its last argument before the others and ignored an improper
one; cerror referred to the variable format and always failed.
---
 embed/cerror.lsp | 16 ++++++++--------
 lambda.go        | 12 +++++++++---
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..769693c 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -1,8 +1,8 @@
-(lambda (continue-string error-string :rest obj)
-  (signal-condition
-    (create (class <simple-error>)
-        'format-string error-string
-        'format-arguments obj)
-    (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
-      (get-output-stream-string str))))
+(lambda (continue-string error-string :rest obj)
+  (signal-condition
+    (create (class <simple-error>)
+        'format-string error-string
+        'format-arguments obj)
+    (let ((str (create-string-output-stream)))
+      (apply #'format str continue-string obj)
+      (get-output-stream-string str))))
diff --git a/lambda.go b/lambda.go
index 5252f14..def7930 100644
--- a/lambda.go
+++ b/lambda.go
@@ -467,13 +467,19 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
+			if err := SeqEach(ctx, w, value, func(n Node) error {
 				newargs.Add(ctx, w, Uneval{n})
 				return nil
-			})
+			}); err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		value, err = w.Eval(ctx, value)
+		if err != nil {
+			return nil, err
+		}
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From 32c5e69b708d35612b7e33018f22b93b727fa35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 11/51] fix: tail calls bind their arguments like ordinary
 calls, let* nests its bindings

A self tail call kept the previous call's environment (closures captured
one shared binding), ignored surplus arguments, never rebound the rest
parameter, never checked the context and called the function of that name
as it was when the loop began. The forms of a let* saw the variables bound
after them.
---
 lambda.go | 65 ++++++++++++++++++++++---------------------------------
 setq.go   | 18 ++++++++++-----
 2 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/lambda.go b/lambda.go
index def7930..a17bc29 100644
--- a/lambda.go
+++ b/lambda.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -207,6 +206,7 @@ func (t _Lambda) String() string {
 var trace = map[Symbol]int{}
 
 type _ErrTailRecOpt struct {
+	lambda *_Lambda
 	params Node
 }
 
@@ -215,6 +215,17 @@ func (*_ErrTailRecOpt) Error() string {
 }
 
 func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
+	for {
+		result, err := L.call(ctx, w, n)
+		tail, ok := err.(*_ErrTailRecOpt)
+		if !ok {
+			return result, err
+		}
+		L, n = tail.lambda, tail.params
+	}
+}
+
+func (L *_Lambda) call(ctx context.Context, w *World, n Node) (Node, error) {
 	if err := checkContext(ctx); err != nil {
 		// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
 		return nil, err
@@ -279,37 +290,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 	}
 
-	var result Node
-	var err error
-	for {
-		newWorld := L.lexical.Let(lexical)
-		result, err = prognWithTailRecOpt(ctx, newWorld, L.code, L.name)
-
-		var errTailRecOpt *_ErrTailRecOpt
-		if !errors.As(err, &errTailRecOpt) {
-			break
-		}
-		n = errTailRecOpt.params
-		foundSlash = false
-		for _, name := range L.param {
-			if name == slashSymbol {
-				foundSlash = true
-				continue
-			}
-			if foundSlash {
-				lexical[name] = Null
-				continue
-			}
-			var err error
-			var value Node
-			value, n, err = Shift(n)
-			if err != nil {
-				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
-			}
-			lexical[name] = value
-		}
-	}
+	result, err := prognWithTailRecOpt(ctx, L.lexical.Let(lexical), L.code, L.name)
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
@@ -333,22 +314,28 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 		return nil
 	}
 
+	// The name may have been redefined or hidden by another function.
+	f, err := w.GetFunc(currFunc)
+	if err != nil {
+		return nil
+	}
+	lambda, ok := f.(*_Lambda)
+	if !ok || lambda.name != currFunc {
+		return nil
+	}
+
 	// Tail call optimization
 	var params Node = cons.Cdr
-	var evaled Node
+	var evaled ListBuilder
 	for IsSome(params) {
 		var value Node
 		value, params, err = w.ShiftAndEvalCar(ctx, params)
 		if err != nil {
 			return err
 		}
-		evaled = &Cons{Car: value, Cdr: evaled}
-	}
-	evaled, err = NReverse(ctx, w, evaled)
-	if err != nil {
-		panic(err.Error())
+		evaled.Add(ctx, w, Uneval{value})
 	}
-	return &_ErrTailRecOpt{params: evaled}
+	return &_ErrTailRecOpt{lambda: lambda, params: evaled.Sequence()}
 }
 
 var (
diff --git a/setq.go b/setq.go
index 4d8f66e..875d34e 100644
--- a/setq.go
+++ b/setq.go
@@ -125,12 +125,18 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
-
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+	newWorld := w
+	for IsSome(list) {
+		var item Node
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, newWorld, List(item), lexical); err != nil {
+			return nil, err
+		}
+		newWorld = newWorld.Let(lexical)
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
 }
-- 
2.43.0


From 8b52c98f0f3bf6707e78d24a4526494c3a9c9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 12/51] fix: library functions are compiled once per World, in
 its global scope

---
 lambda.go | 7 ++++++-
 world.go  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index a17bc29..a4f46f2 100644
--- a/lambda.go
+++ b/lambda.go
@@ -613,7 +613,12 @@ type LispString struct {
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
+		// The code must not see the local definitions of the first caller.
+		root := w
+		for root.parent != nil {
+			root = root.parent
+		}
+		c, err := root.Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
 		}
diff --git a/world.go b/world.go
index 7b6f65e..0ef459a 100644
--- a/world.go
+++ b/world.go
@@ -477,7 +477,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
-- 
2.43.0


From cf08b926555ac62845a27566c6f2f9ac7427fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 13/51] fix: each World has its own report-condition

---
 cond.go  | 9 ++++-----
 world.go | 5 +++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cond.go b/cond.go
index bbaca3f..938370e 100644
--- a/cond.go
+++ b/cond.go
@@ -129,11 +129,6 @@ func (e *_ErrContinueCondition) Error() string {
 }
 
 var symReportCondition = NewSymbol("report-condition")
-var reportCondition = &_Generic{
-	Symbol:  symReportCondition,
-	argc:    2,
-	methods: []*_Method{},
-}
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	value, err := w.callHandlers(ctx, cond, IsSome(continueable), errNotHandled)
@@ -145,6 +140,10 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 	w.handler = nil
 	var noMethod *_UndefinedEntity
 	buffer := &StringBuilder{}
+	reportCondition, ok := w.defun.Get(symReportCondition)
+	if !ok {
+		return nil, &_UndefinedEntity{name: symReportCondition, space: symFunction}
+	}
 	if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 		return nil, &_Signaled{error: errors.New(buffer.String())}
 	} else if !errors.As(err, &noMethod) || noMethod.name != symReportCondition {
diff --git a/world.go b/world.go
index 0ef459a..74a870e 100644
--- a/world.go
+++ b/world.go
@@ -446,7 +446,6 @@ var autoLoadFunc = Functions{
 	NewSymbol("with-open-output-file"):          SpecialF(cmdWithOpenOutputFile),
 	NewSymbol("with-standard-input"):            SpecialF(cmdWithStandardInput),
 	NewSymbol("zerop"):                          Function1(funZerop),
-	symReportCondition:                          reportCondition,
 	// *sort*end*
 }
 
@@ -492,7 +491,9 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 
 func New() *World {
 	rwvars := &autoLoadVars
-	rwfuncs := _RootWorld{}
+	rwfuncs := _RootWorld{
+		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
+	}
 	w := &World{
 		shared: &shared{
 			global:  rwvars,
-- 
2.43.0


From 72e760c575cd4815bcf7cea67431215400def4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 14/51] fix: generic functions call the most specific method,
 in the scope of its definition

---
 class.go   |   2 +-
 generic.go | 138 ++++++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 123 insertions(+), 17 deletions(-)

diff --git a/class.go b/class.go
index 2dab2ac..bfd4c27 100644
--- a/class.go
+++ b/class.go
@@ -66,7 +66,7 @@ func newBoundp(class Class, slotName Symbol) *_Method {
 func registerMethod(w *World, methodName Symbol, class Class, method *_Method) error {
 	if _acc, err := w.GetFunc(methodName); err == nil {
 		if gen, ok := _acc.(*_Generic); ok {
-			gen.methods = append(gen.methods, method)
+			gen.addMethod(method)
 		} else {
 			return fmt.Errorf("%v: already defined as not method", methodName)
 		}
diff --git a/generic.go b/generic.go
index 87b9f49..88efeb0 100644
--- a/generic.go
+++ b/generic.go
@@ -50,6 +50,118 @@ type _Generic struct {
 	methods []*_Method
 }
 
+// addMethod appends m. The method for the same classes is replaced.
+func (c *_Generic) addMethod(m *_Method) {
+	methods := make([]*_Method, 0, len(c.methods)+1)
+	for _, old := range c.methods {
+		if !old.sameTypes(m) {
+			methods = append(methods, old)
+		}
+	}
+	c.methods = append(methods, m)
+}
+
+func sameClass(a, b Class) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	return a.Name() == b.Name()
+}
+
+func (m *_Method) sameTypes(other *_Method) bool {
+	if len(m.types) != len(other.types) || !sameClass(m.restType, other.restType) {
+		return false
+	}
+	for i, t := range m.types {
+		if !sameClass(t, other.types[i]) {
+			return false
+		}
+	}
+	return true
+}
+
+// mostSpecific returns the applicable method whose classes are the most
+// specific ones for values, comparing them from the first to the last argument.
+func (c *_Generic) mostSpecific(values []Node) *_Method {
+	var result *_Method
+	var distance []int
+	for _, m := range c.methods {
+		if !m.canCallWith(values) {
+			continue
+		}
+		d := m.distance(values)
+		if result == nil || !lessInts(distance, d) {
+			result = m
+			distance = d
+		}
+	}
+	return result
+}
+
+// distance returns how far the classes of the parameters are from the ones of values.
+func (m *_Method) distance(values []Node) []int {
+	result := make([]int, 0, len(values)+1)
+	for i, v := range values {
+		t := m.restType
+		if i < len(m.types) {
+			t = m.types[i]
+		}
+		list := classPrecedenceList(v.ClassOf())
+		n := 0
+		for n < len(list)-1 && !sameClass(list[n], t) {
+			n++
+		}
+		if sameClass(t, objectClass) {
+			n = len(list)
+		}
+		result = append(result, n)
+	}
+	return append(result, -len(m.types))
+}
+
+func lessInts(a, b []int) bool {
+	for i := range a {
+		if a[i] != b[i] {
+			return a[i] < b[i]
+		}
+	}
+	return false
+}
+
+// classPrecedenceList returns c and its super classes from the most specific one.
+func classPrecedenceList(c Class) []Class {
+	var all []Class
+	var walk func(Class)
+	walk = func(c Class) {
+		all = append(all, c)
+		for _, s := range superClasses(c) {
+			walk(s)
+		}
+	}
+	walk(c)
+	var result []Class
+	for i, c := range all {
+		duplicated := sameClass(c, objectClass)
+		for _, after := range all[i+1:] {
+			duplicated = duplicated || sameClass(c, after)
+		}
+		if !duplicated {
+			result = append(result, c)
+		}
+	}
+	return append(result, objectClass)
+}
+
+func superClasses(c Class) []Class {
+	switch _c := c.(type) {
+	case *_StandardClass:
+		return _c.Super
+	case *_BuiltInClass:
+		return _c.super
+	}
+	return nil
+}
+
 func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 	_name, node, err := Shift(node)
 	if err != nil {
@@ -115,10 +227,8 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
-	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
-		}
+	if m := c.mostSpecific(values); m != nil {
+		return m.method(ctx, w, values)
 	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
@@ -159,6 +269,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 	method := &_Method{}
 	paramNames := []Symbol{}
 	var restName Symbol
+	lexical := w
 	for IsSome(params) {
 		var t1 Node
 		t1, params, err = Shift(params)
@@ -222,20 +333,15 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
 		vars := Variables{}
-		for i, v := range args {
-			if i >= len(paramNames) {
-				var rest Node = Null
-				for j := len(args) - 1; j >= i; j-- {
-					rest = &Cons{Car: args[j], Cdr: rest}
-				}
-				vars[restName] = rest
-				break
-			}
-			vars[paramNames[i]] = v
+		for i, name := range paramNames {
+			vars[name] = args[i]
+		}
+		if restName != nil {
+			vars[restName] = List(args[len(paramNames):]...)
 		}
-		return Progn(ctx, w.Let(vars), code)
+		return Progn(ctx, lexical.Let(vars), code)
 	}
-	generic.methods = append(generic.methods, method)
+	generic.addMethod(method)
 	return name, nil
 }
 
-- 
2.43.0


From 1edfccd0429b6da5c9ab50d5e7177e894d78a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 15/51] fix: slot initialisation follows the class precedence,
 class predicates agree with class-of

---
 builtinclass.go | 27 ++++++++++++++++--
 class.go        | 73 +++++++++++++++++++++++++------------------------
 cmds.go         |  4 +--
 cons.go         |  2 +-
 error.go        |  4 +--
 number.go       |  8 +++---
 sequence.go     |  2 +-
 world.go        | 10 +++++++
 8 files changed, 82 insertions(+), 48 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..516b5c4 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -2,6 +2,7 @@ package gmnlisp
 
 import (
 	"context"
+	"reflect"
 )
 
 type Class interface {
@@ -45,7 +46,8 @@ func (e *_BuiltInClass) Name() Symbol {
 }
 
 func (e *_BuiltInClass) InstanceP(n Node) bool {
-	return e.instanceP(n) || n.ClassOf().InheritP(e)
+	class := n.ClassOf()
+	return e.instanceP(n) || class.Equals(e, STRICT) || class.InheritP(e)
 }
 
 func (e *_BuiltInClass) String() string {
@@ -77,7 +79,15 @@ func newBuiltInClass[T Node](name string) *_BuiltInClass {
 		},
 		create: func() Node {
 			var value T
-			return value
+			switch v := reflect.ValueOf(&value).Elem(); v.Kind() {
+			case reflect.Int, reflect.Int32, reflect.Int64, reflect.Float64, reflect.String:
+				return value
+			case reflect.Struct:
+				if v.NumField() == 0 {
+					return value
+				}
+			}
+			return nil
 		},
 	}
 }
@@ -103,6 +113,19 @@ func registerNewBuiltInClass[T Node](name string, super ...Class) *_BuiltInClass
 	return class
 }
 
+// registerNewSuperClass defines the class which has no instances but the nodes whose
+// ClassOf method returns it or one of its sub-classes.
+func registerNewSuperClass(name string, super ...Class) *_BuiltInClass {
+	class := &_BuiltInClass{
+		name:      NewSymbol(name),
+		instanceP: func(Node) bool { return false },
+		create:    func() Node { return nil },
+		super:     append(super, objectClass, builtInClass),
+	}
+	autoLoadVars[class.name] = class
+	return class
+}
+
 func registerNewAbstractClass[T Node](name string, super ...Class) *_BuiltInClass {
 	class := newAbstractClass[T](name)
 	class.super = append(super, objectClass, builtInClass)
diff --git a/class.go b/class.go
index bfd4c27..a4a81fb 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	initialize func(context.Context) (Node, error)
 	initarg    []Symbol
 }
 
@@ -146,6 +147,7 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 			}
 		case kwInitForm:
 			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initialize = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -164,6 +166,7 @@ type _StandardClass struct {
 	Symbol Symbol
 	Super  []Class
 	Slot   map[Symbol]*_SlotSpec
+	order  []Symbol
 }
 
 // standardClass can not be created with registerNewBuilInClass
@@ -175,8 +178,7 @@ var standardClass = &_BuiltInClass{
 		return ok
 	},
 	create: func() Node {
-		classCounter++
-		return &_StandardClass{}
+		return nil
 	},
 	super: []Class{objectClass},
 }
@@ -198,14 +200,14 @@ func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
 	for _, s := range class1.Super {
-		if s.Equals(class2, STRICT) {
+		if sameClass(s, class2) {
 			return true
 		}
 		if s.InheritP(class2) {
 			return true
 		}
 	}
-	return false
+	return sameClass(class2, objectClass)
 }
 
 func (c *_StandardClass) String() string {
@@ -317,6 +319,9 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		if err != nil {
 			return nil, fmt.Errorf("[3][%d] %w", slotCount, err)
 		}
+		if _, ok := class.Slot[spec.identifier]; !ok {
+			class.order = append(class.order, spec.identifier)
+		}
 		class.Slot[spec.identifier] = spec
 
 		getter := newGetter(class, spec.identifier)
@@ -349,11 +354,6 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	}
 	w.DefineGlobal(className, class)
 
-	registerMethod(w, symInitializeObject, class, &_Method{
-		restType: objectClass,
-		types:    []Class{class},
-		method:   defaultInitializeObject,
-	})
 	return className, nil
 }
 
@@ -434,43 +434,41 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
-				return err
-			}
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
+	for _, c := range classPrecedenceList(classDef) {
+		uc, ok := c.(*_StandardClass)
+		if !ok {
+			continue
 		}
-	}
-	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			var err error
-			reciever.Slot[name], err = slot1.initform()
+		for _, name := range uc.order {
+			slot1 := uc.Slot[name]
+			if _, ok := reciever.Slot[name]; ok || slot1.initialize == nil {
+				continue
+			}
+			value, err := slot1.initialize(ctx)
 			if err != nil {
 				return err
 			}
+			reciever.Slot[name] = value
 		}
 	}
 	return nil
 }
 
-func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
-	for name, slot := range classDef.Slot {
-		for _, slotInitArg := range slot.initarg {
-			if slotInitArg == initArg {
-				reciever.Slot[name] = initVal
-				return true
-			}
+func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) {
+	for _, c := range classPrecedenceList(classDef) {
+		uc, ok := c.(*_StandardClass)
+		if !ok {
+			continue
 		}
-	}
-	for _, super := range classDef.Super {
-		if superUc, ok := super.(*_StandardClass); ok {
-			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
+		for name, slot := range uc.Slot {
+			for _, slotInitArg := range slot.initarg {
+				if slotInitArg == initArg {
+					reciever.Slot[name] = initVal
+				}
 			}
 		}
 	}
-	return false
 }
 
 type Uneval struct {
@@ -508,7 +506,10 @@ func funCreate(ctx context.Context, w *World, args []Node) (Node, error) {
 	rec := class.Create()
 	if _, ok := rec.(*_StandardObject); ok {
 		newargs := append([]Node{rec}, args[1:]...)
-		return gen.Call(ctx, w, UnevalList(newargs...))
+		if _, err := gen.Call(ctx, w, UnevalList(newargs...)); err != nil {
+			return nil, err
+		}
+		return rec, nil
 	}
 	if rec == nil {
 		return raiseProgramError(ctx, w, fmt.Errorf("Can not create instance for %s", class.Name()))
@@ -529,7 +530,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
@@ -539,7 +540,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
diff --git a/cmds.go b/cmds.go
index 29bc076..24977cb 100644
--- a/cmds.go
+++ b/cmds.go
@@ -179,8 +179,8 @@ func funAnyTypep[T Node](_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var (
-	floatingPointOverflowClass  = registerNewAbstractClass[Node]("<floating-point-overflow>", arithmeticErrorClass)
-	floatingPointUnderflowClass = registerNewAbstractClass[Node]("<floating-point-underflow>", arithmeticErrorClass)
+	floatingPointOverflowClass  = registerNewSuperClass("<floating-point-overflow>", arithmeticErrorClass)
+	floatingPointUnderflowClass = registerNewSuperClass("<floating-point-underflow>", arithmeticErrorClass)
 )
 
 func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
diff --git a/cons.go b/cons.go
index c797641..48ee0cd 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
diff --git a/error.go b/error.go
index 0f34fe9..2a12f20 100644
--- a/error.go
+++ b/error.go
@@ -194,8 +194,8 @@ func (u *_UndefinedEntity) Equals(other Node, mode EqlMode) bool {
 
 var (
 	undefinedEntityClass   = registerNewAbstractClass[*_UndefinedEntity]("<undefined-entity>", programErrorClass)
-	unboundVariableClass   = registerNewAbstractClass[*_UndefinedEntity]("<unbound-variable>", undefinedEntityClass)
-	undefinedFunctionClass = registerNewAbstractClass[*_UndefinedEntity]("<undefined-function>", undefinedEntityClass)
+	unboundVariableClass   = registerNewSuperClass("<unbound-variable>", undefinedEntityClass)
+	undefinedFunctionClass = registerNewSuperClass("<undefined-function>", undefinedEntityClass)
 )
 
 func (u *_UndefinedEntity) ClassOf() Class {
diff --git a/number.go b/number.go
index 641676c..af168ec 100644
--- a/number.go
+++ b/number.go
@@ -8,7 +8,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
+	name: NewSymbol("<number>"),
 	instanceP: func(n Node) bool {
 		if _, ok := n.(Integer); ok {
 			return true
@@ -117,7 +117,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewAbstractClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -147,7 +147,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewSuperClass("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
@@ -203,7 +203,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
diff --git a/sequence.go b/sequence.go
index 2a7054c..6a52236 100644
--- a/sequence.go
+++ b/sequence.go
@@ -12,7 +12,7 @@ type Sequence interface {
 	Node
 }
 
-var listClass = registerNewBuiltInClass[Sequence]("<list>")
+var listClass = registerNewSuperClass("<list>")
 
 func SeqEach(ctx context.Context, w *World, list Node, f func(Node) error) error {
 	for IsSome(list) {
diff --git a/world.go b/world.go
index 74a870e..0c70db5 100644
--- a/world.go
+++ b/world.go
@@ -493,6 +493,16 @@ func New() *World {
 	rwvars := &autoLoadVars
 	rwfuncs := _RootWorld{
 		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
+		symInitializeObject: &_Generic{
+			Symbol: symInitializeObject,
+			argc:   1,
+			rest:   true,
+			methods: []*_Method{{
+				types:    []Class{objectClass},
+				restType: objectClass,
+				method:   defaultInitializeObject,
+			}},
+		},
 	}
 	w := &World{
 		shared: &shared{
-- 
2.43.0


From 3f8aee8362fe5aadbae48e4f93cc9988ff00c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 16/51] fix: eq, eql and equal never panic, are reflexive and
 compare arrays by elements

---
 array.go       |  9 ++++++++-
 cmds.go        |  2 +-
 cond.go        |  6 ------
 error.go       | 15 +++++++++++++--
 functionref.go | 15 ++++++++++++++-
 hash.go        |  4 +++-
 macro.go       |  2 +-
 newtypes.go    | 40 +++++++++++++++++++++++++---------------
 number.go      |  7 +++++--
 9 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/array.go b/array.go
index 89d9cee..8506071 100644
--- a/array.go
+++ b/array.go
@@ -106,6 +106,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -118,7 +121,11 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if IsNone(v) {
+			if !IsNone(B.list[i]) {
+				return false
+			}
+		} else if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
diff --git a/cmds.go b/cmds.go
index 24977cb..b01986c 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,7 +68,7 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return sameNode(left, right)
 	})
 }
 
diff --git a/cond.go b/cond.go
index 938370e..840578f 100644
--- a/cond.go
+++ b/cond.go
@@ -110,12 +110,6 @@ func sameNode(a, b Node) bool {
 	if ta.Comparable() && reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable() {
 		return a == b
 	}
-	switch _a := a.(type) {
-	case _Hash:
-		return reflect.ValueOf(_a).Pointer() == reflect.ValueOf(b).Pointer()
-	case FunctionRef:
-		return _a.Equals(b, STRICT)
-	}
 	return a.Equals(b, STRICT)
 }
 
diff --git a/error.go b/error.go
index 2a12f20..a91b200 100644
--- a/error.go
+++ b/error.go
@@ -101,6 +101,9 @@ func (e *DomainError) Equals(_other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if e == other || mode == STRICT {
+		return e == other
+	}
 	return e.Object.Equals(other.Object, mode) &&
 		e.ExpectedClass.Equals(other.ExpectedClass, mode)
 }
@@ -249,8 +252,16 @@ func (p *ParseError) String() string {
 	return fmt.Sprintf("ParseError: %s: %s", String(p.str), p.ExpectedClass.String())
 }
 
-func (p *ParseError) Equals(n Node, _ EqlMode) bool {
-	return false
+func (p *ParseError) Equals(n Node, mode EqlMode) bool {
+	other, ok := n.(*ParseError)
+	if !ok {
+		return false
+	}
+	if p == other || mode == STRICT {
+		return p == other
+	}
+	return p.str.Equals(other.str, mode) &&
+		p.ExpectedClass.Equals(other.ExpectedClass, mode)
 }
 
 func (p *ParseError) Error() string {
diff --git a/functionref.go b/functionref.go
index f4ec65c..8e6a4a1 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type FunctionRef struct {
@@ -21,7 +22,19 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	return sameCallable(f.value, _other.value)
+}
+
+// sameCallable returns true when a and b are the same function.
+func sameCallable(a, b Callable) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
+	if va.Kind() == reflect.Func && va.Type() == vb.Type() {
+		return va.Pointer() == vb.Pointer()
+	}
+	return va.Comparable() && vb.Comparable() && a == b
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
diff --git a/hash.go b/hash.go
index e330e0c..d9dd7d7 100644
--- a/hash.go
+++ b/hash.go
@@ -4,13 +4,15 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 	"strings"
 )
 
 type _Hash map[Node]Node
 
 func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+	_other, ok := other.(_Hash)
+	return ok && reflect.ValueOf(h).Pointer() == reflect.ValueOf(_other).Pointer()
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/macro.go b/macro.go
index 41e005c..649c583 100644
--- a/macro.go
+++ b/macro.go
@@ -57,7 +57,7 @@ func (j _JoinedForm) Equals(_other Node, m EqlMode) bool {
 		return false
 	}
 	for i := range j {
-		if j[i].Equals(other[i], m) {
+		if !j[i].Equals(other[i], m) {
 			return false
 		}
 	}
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..4a808b8 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -1,13 +1,18 @@
 package gmnlisp
 
+import (
+	"reflect"
+)
+
 var stringBuilderClass = registerNewBuiltInClass[*StringBuilder]("<string-builder>")
 
 func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
 }
 
-func (t *StringBuilder) Equals(Node, EqlMode) bool {
-	return false
+func (t *StringBuilder) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*StringBuilder)
+	return ok && t == other
 }
 
 var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
@@ -16,8 +21,9 @@ func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
 }
 
-func (t *inputStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *inputStream) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*inputStream)
+	return ok && t == other
 }
 
 func (t *inputStream) String() string {
@@ -30,16 +36,18 @@ func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
 }
 
-func (t *_OutputFileStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *_OutputFileStream) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_OutputFileStream)
+	return ok && t == other
 }
 
 func (t *_OutputFileStream) String() string {
 	return "(*_OutputFileStream)"
 }
 
-func (t *_Macro) Equals(Node, EqlMode) bool {
-	return false
+func (t *_Macro) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_Macro)
+	return ok && t == other
 }
 
 func (t *_Macro) String() string {
@@ -52,24 +60,26 @@ func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
 }
 
-func (t _ReaderNode) Equals(Node, EqlMode) bool {
-	return false
+func (t _ReaderNode) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(_ReaderNode)
+	return ok && reflect.ValueOf(t).Comparable() && reflect.ValueOf(other).Comparable() && t == other
 }
 
 func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewBuiltInClass[*_WriterNode]("<_WriterNode>")
 
-func (_WriterNode) ClassOf() Class {
+func (*_WriterNode) ClassOf() Class {
 	return writerNodeClass
 }
 
-func (t _WriterNode) Equals(Node, EqlMode) bool {
-	return false
+func (t *_WriterNode) Equals(n Node, _ EqlMode) bool {
+	other, ok := n.(*_WriterNode)
+	return ok && t == other
 }
 
-func (t _WriterNode) String() string {
+func (t *_WriterNode) String() string {
 	return "(_WriterNode)"
 }
diff --git a/number.go b/number.go
index af168ec..24b69f5 100644
--- a/number.go
+++ b/number.go
@@ -131,14 +131,17 @@ func (e *ArithmeticError) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if e == o || mode == STRICT {
+		return e == o
+	}
 	return e.Operands.Equals(o.Operands, mode) &&
 		e.Operation.Equals(o.Operation, mode) &&
-		e.Class.Equals(o.Class, mode)
+		e.ClassOf().Equals(o.ClassOf(), mode)
 }
 
 func (e *ArithmeticError) String() string {
 	return fmt.Sprintf("%s: (%#v %#v)",
-		e.Class.String(),
+		e.ClassOf().String(),
 		e.Operation.String(),
 		e.Operands.String())
 }
-- 
2.43.0


From ba627e207784b70ddd8d7289bdc4ba64d04778ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 17/51] fix: list, array and convert functions handle empty
 lists, 0-dimensional arrays and bad indices

---
 array.go    | 21 ++++++++++++++-------
 cmds.go     |  4 ++--
 convert.go  | 19 ++++++++++++++++---
 sequence.go | 18 ++++++++++++++++--
 world.go    |  4 ++--
 5 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/array.go b/array.go
index 8506071..3aa24e1 100644
--- a/array.go
+++ b/array.go
@@ -159,12 +159,12 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 				ExpectedClass: integerClass,
 			})
 		}
+		if n >= 1234567890 || size*int(n) >= 1234567890 {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		_dim = append(_dim, int(n))
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
@@ -184,7 +184,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
@@ -205,13 +205,16 @@ func funAref(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args)-1 > len(array.dim) {
 		return nil, ErrTooManyArguments
 	}
+	if len(array.dim) == 0 {
+		return array.list[0], nil
+	}
 	for _, _nth := range args[1:] {
 		nth, err := ExpectClass[Integer](ctx, w, _nth)
 		if err != nil {
 			return nil, err
 		}
 		if nth < 0 || int(nth) >= array.dim[0] {
-			return nil, MakeError(ErrIndexOutOfRange, args[1])
+			return nil, MakeError(ErrIndexOutOfRange, nth)
 		}
 		if len(array.dim) == 1 {
 			return array.list[nth], nil
@@ -237,13 +240,17 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 		return nil, ErrTooManyArguments
 	}
 
+	if len(array.dim) == 0 {
+		array.list[0] = newValue
+		return newValue, nil
+	}
 	for _, _index := range args[2:] {
 		index, err := ExpectClass[Integer](ctx, w, _index)
 		if err != nil {
 			return nil, err
 		}
 		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
@@ -272,7 +279,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	var cons Node = Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
diff --git a/cmds.go b/cmds.go
index b01986c..efec538 100644
--- a/cmds.go
+++ b/cmds.go
@@ -198,14 +198,14 @@ func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
 					class = floatingPointUnderflowClass
 				}
 
-				return callHandler[*ArithmeticError](ctx, w, true, &ArithmeticError{
+				return callHandler[Node](ctx, w, true, &ArithmeticError{
 					Operation: FunctionRef{value: Function1(funParseNumber)},
 					Operands:  s,
 					Class:     class,
 				})
 			}
 		}
-		return callHandler[*ParseError](ctx, w, true, &ParseError{
+		return callHandler[Node](ctx, w, true, &ParseError{
 			str:           s,
 			ExpectedClass: numberClass,
 		})
diff --git a/convert.go b/convert.go
index de9224d..ee7fe1c 100644
--- a/convert.go
+++ b/convert.go
@@ -25,6 +25,17 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, ErrTooManyArguments
 	}
 	switch val := source.(type) {
+	case _NullType:
+		switch class {
+		case classList:
+			return val, nil
+		case classVector:
+			return NewVector(ctx, w), nil
+		case symbolClass.name:
+			return val, nil
+		case stringClass.name:
+			return String(val.String()), nil
+		}
 	case Rune:
 		switch class {
 		case characterClass.name:
@@ -39,7 +50,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case integerClass.name:
 			i, err := strconv.ParseInt(val.String(), 10, 64)
 			if err != nil {
-				return callHandler[*ParseError](ctx, w, true, &ParseError{
+				return callHandler[Node](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: integerClass,
 				})
@@ -48,7 +59,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			f, err := strconv.ParseFloat(val.String(), 64)
 			if err != nil {
-				return callHandler[*ParseError](ctx, w, true, &ParseError{
+				return callHandler[Node](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
 				})
@@ -113,7 +124,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			var cons Node = Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
@@ -124,6 +135,8 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 	case Symbol:
 		switch class {
+		case symbolClass.name:
+			return val, nil
 		case stringClass.name:
 			return String(val.String()), nil
 		}
diff --git a/sequence.go b/sequence.go
index 6a52236..3233ead 100644
--- a/sequence.go
+++ b/sequence.go
@@ -99,12 +99,18 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, index)
+		}
 		for list := value; index >= 0; {
 			seq, ok := list.(Sequence)
 			if !ok {
 				return Null, nil
 			}
-			value, list, _ = seq.FirstAndRest()
+			value, list, ok = seq.FirstAndRest()
+			if !ok {
+				return nil, MakeError(ErrIndexOutOfRange, indexArg)
+			}
 			index--
 		}
 	}
@@ -112,6 +118,9 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
+	if array, ok := arg.(*Array); ok && len(array.dim) == 1 {
+		return Integer(array.dim[0]), nil
+	}
 	length := 0
 	err := SeqEach(ctx, w, arg, func(_ Node) error {
 		length++
@@ -208,6 +217,11 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
+	for _, list := range listSet {
+		if IsNone(list) {
+			return nil
+		}
+	}
 	for {
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
@@ -248,7 +262,7 @@ func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if len(argv) < 2 {
 		return Null, err
 	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
diff --git a/world.go b/world.go
index 0c70db5..f0cca2f 100644
--- a/world.go
+++ b/world.go
@@ -275,7 +275,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("and"):                            SpecialF(cmdAnd),
 	NewSymbol("append"):                         &Function{F: funAppend},
 	NewSymbol("apply"):                          SpecialF(cmdApply),
-	NewSymbol("aref"):                           &Function{Min: 2, F: funAref},
+	NewSymbol("aref"):                           &Function{Min: 1, F: funAref},
 	NewSymbol("arithmetic-error-operands"):      Function1(funArithmeticErrorOperands),
 	NewSymbol("arithmetic-error-operation"):     Function1(funArithmeticErrorOperation),
 	NewSymbol("array-dimensions"):               Function1(funArrayDimensions),
@@ -410,7 +410,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("return-from"):                    SpecialF(cmdReturnFrom),
 	NewSymbol("reverse"):                        Function1(funReverse),
 	NewSymbol("round"):                          Function1(funRound),
-	NewSymbol("set-aref"):                       &Function{Min: 3, F: funSetAref},
+	NewSymbol("set-aref"):                       &Function{Min: 2, F: funSetAref},
 	NewSymbol("set-car"):                        Function2(funSetCar),
 	NewSymbol("set-cdr"):                        Function2(funSetCdr),
 	NewSymbol("set-gethash"):                    &Function{C: 3, F: funSetHash},
-- 
2.43.0


From c357453f7c5a62071679ee642170c980f05de4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 18/51] fix: the reader accepts characters, arrays and barred
 symbols it misread, and rejects truncated input

---
 pkg/parser/main.go     | 219 ++++++++++++++++++++++-------------------
 pkg/parser/tokenize.go |  26 +++--
 2 files changed, 136 insertions(+), 109 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..a4ecf6e 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -14,7 +14,7 @@ import (
 var (
 	rxFloat1     = regexp.MustCompile(`^[\-\+]?[0-9]+\.[0-9]*([eE][\-\+]?\d+)?$`)
 	rxFloat2     = regexp.MustCompile(`^[\-\+]?[0-9]+[eE][-+]?\d+$`)
-	rxInteger    = regexp.MustCompile(`^-?[0-9]+$`)
+	rxInteger    = regexp.MustCompile(`^[\-\+]?[0-9]+$`)
 	rxHexInteger = regexp.MustCompile(`^\#[Xx][0-9A-Fa-f]+$`)
 	rxOctInteger = regexp.MustCompile(`^\#[Oo][0-7]+$`)
 	rxBinInteger = regexp.MustCompile(`^\#[Bb][01]+$`)
@@ -45,17 +45,16 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
+	dotSymbol      N
+	functionSymbol N
 }
 
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
+func (p *_Parser[N]) nodes2cons(nodes []N, dot int) N {
 	if nodes == nil || len(nodes) <= 0 {
 		return p.Null()
 	}
 	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
+	if len(nodes) >= 3 && dot == len(nodes)-2 {
 		// dot pairs
 		cons = nodes[len(nodes)-1]
 		nodes = nodes[:len(nodes)-2]
@@ -66,65 +65,71 @@ func (p *_Parser[N]) nodes2cons(nodes []N) N {
 	return cons
 }
 
+// maxArrayRank is the limit of N of #Na(...)
+const maxArrayRank = 255
+
 func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
-	nodes := []N{}
+	if lenDim < 1 || lenDim > maxArrayRank {
+		return p.Null(), fmt.Errorf("array syntax error: rank %d", lenDim)
+	}
 	dim := make([]int, lenDim)
-	countDim := 0
-	fix := make([]bool, lenDim)
-	for {
-		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
-			if err != nil {
-				return p.Null(), err
-			}
-			if newNode == p.parenCloseSymbol {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				nodes = append(nodes, newNode)
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+	for i := range dim {
+		dim[i] = -1
+	}
+	nodes, err := p.readArrayElements(nil, dim, rs)
+	if err != nil {
+		if err == io.EOF {
+			err = ErrTooShortTokens
+		}
+		return p.Null(), err
+	}
+	for i, n := range dim {
+		if n < 0 {
+			dim[i] = 0
+		}
+	}
+	return p.Array(nodes, dim), nil
+}
+
+// readArrayElements reads until the close parenthesis and appends the elements
+// to nodes. dim[i] is -1 until the first row of the depth is completed.
+func (p *_Parser[N]) readArrayElements(nodes []N, dim []int, rs io.RuneScanner) ([]N, error) {
+	count := 0
+	for ; ; count++ {
+		if len(dim) == 1 {
+			node, err := p.readNode(rs)
+			if err == errParenClose {
+				break
 			}
-		} else {
-			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
-			}
-			if token == "(" {
-				if !fix[countDim] {
-					dim[countDim]++
-				}
-				countDim++
-			} else if token == ")" {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				return p.Null(), fmt.Errorf("array syntax error: %#v", token)
+				return nil, err
 			}
+			nodes = append(nodes, node)
+			continue
+		}
+		token, err := readToken(rs)
+		if err != nil {
+			return nil, err
+		}
+		if token == ")" {
+			break
+		}
+		if token != "(" {
+			return nil, fmt.Errorf("array syntax error: %#v", token)
+		}
+		nodes, err = p.readArrayElements(nodes, dim[1:], rs)
+		if err != nil {
+			return nil, err
 		}
 	}
-	size := 1
-	for _, v := range dim {
-		size *= v
-	}
-	if len(nodes) < size {
-		return p.Null(), ErrTooFewArguments
-	} else if len(nodes) > size {
-		return p.Null(), ErrTooManyArguments
-	} else {
-		return p.Array(nodes, dim), nil
-		//&Array{
-		//	list: nodes,
-		//	dim:  dim,
-		//}, nil
+	if dim[0] < 0 {
+		dim[0] = count
+	} else if count < dim[0] {
+		return nil, ErrTooFewArguments
+	} else if count > dim[0] {
+		return nil, ErrTooManyArguments
 	}
+	return nodes, nil
 }
 
 func (p *_Parser[N]) newQuote(value N) N {
@@ -195,76 +200,83 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+// errParenClose and errDot are returned instead of the tokens `)` and `.`
+var (
+	errParenClose = errors.New("unexpected close parenthesis")
+	errDot        = errors.New("unexpected dot")
+)
+
+func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) (N, error) {
 	nodes := []N{}
-	var err error
+	dot := -1
 	for {
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
-		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
-			}
-			return nil, err
-		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		node, err := p.readNode(rs)
+		switch err {
+		case nil:
+			nodes = append(nodes, node)
+		case errParenClose:
+			return p.nodes2cons(nodes, dot), nil
+		case errDot:
+			dot = len(nodes)
+			nodes = append(nodes, p.dotSymbol)
+		case io.EOF:
+			return p.Null(), ErrTooShortTokens
+		default:
+			return p.Null(), err
 		}
-		nodes = append(nodes, node1)
 	}
 }
 
+// readOperand reads the node after the reader macros like quotations.
+func (p *_Parser[N]) readOperand(rs io.RuneScanner) (N, error) {
+	node, err := p.ReadNode(rs)
+	if err == io.EOF {
+		err = ErrTooShortTokens
+	}
+	return node, err
+}
+
 var symbol4barReplacer = strings.NewReplacer(
 	`\\`, `\`,
 	`\|`, `|`)
 
 func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
+	node, err := p.readNode(rs)
+	if err == errDot {
+		return p.dotSymbol, nil
+	}
+	return node, err
+}
+
+func (p *_Parser[N]) readNode(rs io.RuneScanner) (N, error) {
 	token, err := readToken(rs)
 	if err != nil {
 		return p.Null(), err
 	}
 	if token == "`" {
-		quoted, err := p.ReadNode(rs)
+		quoted, err := p.readOperand(rs)
 		if err != nil {
-			if err == io.EOF {
-				return p.Null(), ErrTooShortTokens
-			}
 			return p.Null(), err
 		}
 		return p.newBackQuote(quoted), nil
 	}
 	if token == "'" {
-		quoted, err := p.ReadNode(rs)
+		quoted, err := p.readOperand(rs)
 		if err != nil {
-			if err == io.EOF {
-				return p.Null(), ErrTooShortTokens
-			}
 			return p.Null(), err
 		}
 		return p.newQuote(quoted), nil
 	}
 	if token == "," {
-		quoted, err := p.ReadNode(rs)
+		quoted, err := p.readOperand(rs)
 		if err != nil {
-			if err == io.EOF {
-				return p.Null(), ErrTooShortTokens
-			}
 			return p.Null(), err
 		}
 		return p.Cons(p.Symbol("unquote"), p.Cons(quoted, p.Null())), nil
 	}
 	if token == "#'" {
-		function, err := p.ReadNode(rs)
+		function, err := p.readOperand(rs)
 		if err != nil {
-			if err == io.EOF {
-				return p.Null(), ErrTooShortTokens
-			}
 			return p.Null(), err
 		}
 		return p.Cons(p.functionSymbol, p.Cons(function, p.Null())), nil
@@ -275,16 +287,18 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
 		if err != nil {
-			panic(err.Error())
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
-		if err != nil {
-			return p.Null(), err
-		}
-		return p.nodes2cons(nodes), nil
+		return p.readUntilCloseParen(rs)
+	}
+	if token == ")" {
+		return p.Null(), errParenClose
+	}
+	if token == "." {
+		return p.Null(), errDot
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -341,7 +355,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		token = buffer.String()
 		return p.String(token), nil
 	}
-	if token[0] == '|' && token[len(token)-1] == '|' {
+	if len(token) >= 2 && token[0] == '|' && token[len(token)-1] == '|' {
 		return p.Symbol(symbol4barReplacer.Replace(token[1 : len(token)-1])), nil
 	}
 	if token[0] == ':' {
@@ -358,10 +372,9 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
-		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		Factory:        f,
+		dotSymbol:      f.Symbol("."),
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..fff7499 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"io"
 	"regexp"
 	"strings"
@@ -11,7 +10,7 @@ import (
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
 	if err != nil {
-		return false, err
+		return false, nil
 	}
 	if c != '|' {
 		if e := r.UnreadRune(); e != nil {
@@ -55,7 +54,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
 func readtokenWord(r io.RuneScanner) (string, error) {
 	var buffer strings.Builder
@@ -66,13 +65,21 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if quote || bar4symbol {
+				return "", ErrTooShortTokens
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", ErrTooShortTokens
+			}
+			if !quote && buffer.String() == "#" {
+				buffer.WriteRune(lastRune)
+				buffer.WriteRune(nextRune)
+				continue
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
@@ -89,7 +96,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 			if lastRune == '#' {
 				done, err := skipComment(r)
 				if err != nil {
-					return "", err
+					return "", ErrTooShortTokens
 				}
 				if done {
 					continue
@@ -104,8 +111,12 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 				return buffer.String(), nil
 			}
 		}
-		if lastRune == '"' {
+		if lastRune == '"' && !bar4symbol {
 			quote = !quote
+			if !quote && strings.HasPrefix(buffer.String(), `"`) {
+				buffer.WriteRune(lastRune)
+				return buffer.String(), nil
+			}
 		}
 		if !quote && lastRune == '|' && lastLastRune != '\\' {
 			bar4symbol = !bar4symbol
@@ -147,5 +158,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		if token != "" {
 			return token, nil
 		}
+		if err != nil && err != io.EOF {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 741b0b3fff246e93291811d3e4afc0f9dea5fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 19/51] fix: ~s prints floats, strings, symbols and empty
 vectors so that they are read back

---
 array.go   | 39 ++++++++++++++++++---------------------
 atom.go    | 26 ++++++++++++++++++++++++++
 cons.go    |  8 ++------
 convert.go |  2 +-
 number.go  |  8 +++++++-
 parse.go   |  1 -
 string.go  |  5 +++--
 7 files changed, 57 insertions(+), 32 deletions(-)

diff --git a/array.go b/array.go
index 3aa24e1..c32b0f6 100644
--- a/array.go
+++ b/array.go
@@ -43,30 +43,27 @@ func (*Array) ClassOf() Class {
 }
 
 func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]Node, int, error) {
-	dem := byte('(')
-	n := 0
 	if len(dim) < 1 {
-		w.Write([]byte{dem})
-	} else {
-		for i := 0; i < dim[0]; i++ {
-			_n, err := w.Write([]byte{dem})
+		n, err := tryPrintTo(w, list[0], mode)
+		return list[1:], n, err
+	}
+	n, err := w.Write([]byte{'('})
+	if err != nil {
+		return nil, n, err
+	}
+	for i := 0; i < dim[0]; i++ {
+		var _n int
+		if i > 0 {
+			_n, err = w.Write([]byte{' '})
 			n += _n
 			if err != nil {
 				return nil, n, err
 			}
-			dem = ' '
-
-			if len(dim) >= 2 {
-				list, _n, err = A.printTo(w, mode, list, dim[1:])
-				n += _n
-			} else {
-				_n, err = tryPrintTo(w, list[0], mode)
-				n += _n
-				list = list[1:]
-			}
-			if err != nil {
-				return nil, n, err
-			}
+		}
+		list, _n, err = A.printTo(w, mode, list, dim[1:])
+		n += _n
+		if err != nil {
+			return nil, n, err
 		}
 	}
 	_n, err := w.Write([]byte{')'})
@@ -85,8 +82,8 @@ func (A *Array) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	_, n, err = A.printTo(w, mode, A.list, A.dim)
-	return n, err
+	_, _n, err := A.printTo(w, mode, A.list, A.dim)
+	return n + _n, err
 }
 
 func (t Array) String() string {
diff --git a/atom.go b/atom.go
index 430dcbe..e358112 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -128,6 +129,31 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+var barEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+
+// needsBar returns true when `name` is not read as the symbol without bars.
+func needsBar(name string) bool {
+	if name == "" || name == "." || name[0] == ':' || name[0] == '&' {
+		return true
+	}
+	if strings.EqualFold(name, "t") || strings.EqualFold(name, "nil") {
+		return true
+	}
+	if strings.ContainsAny(name, "()\"#',;\\`|") || strings.IndexFunc(name, unicode.IsSpace) >= 0 {
+		return true
+	}
+	_, ok, _ := tryParseAsNumber(name)
+	return ok
+}
+
+func (s _Symbol) GoString() string {
+	name := s.String()
+	if needsBar(name) {
+		return "|" + barEscaper.Replace(name) + "|"
+	}
+	return name
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
diff --git a/cons.go b/cons.go
index 48ee0cd..6c415d2 100644
--- a/cons.go
+++ b/cons.go
@@ -85,7 +85,6 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
 	if IsNone(cons.Car) {
 		if wc.Try(io.WriteString(w, "nil")) {
 			return wc.Result()
@@ -101,10 +100,8 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 			// output as ( X Y Z ...)
 
 			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
+				if wc.Try(io.WriteString(w, " ")) {
+					return wc.Result()
 				}
 				if IsNull(p.Car) {
 					if wc.Try(io.WriteString(w, "nil")) {
@@ -113,7 +110,6 @@ func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
 					return wc.Result()
 				}
-				lastCar = p.Car
 			}
 		} else {
 			// output as ( X . Y )
diff --git a/convert.go b/convert.go
index ee7fe1c..4a7e557 100644
--- a/convert.go
+++ b/convert.go
@@ -89,7 +89,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			return String(val.String()), nil
 		}
 	case Integer:
 		switch class {
diff --git a/number.go b/number.go
index 24b69f5..ddbac68 100644
--- a/number.go
+++ b/number.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strconv"
+	"strings"
 )
 
 var numberClass = &_BuiltInClass{
@@ -213,7 +215,11 @@ func (Float) ClassOf() Class {
 }
 
 func (f Float) String() string {
-	return fmt.Sprintf("%f", float64(f))
+	s := strconv.FormatFloat(float64(f), 'g', -1, 64)
+	if !strings.ContainsAny(s, ".eIN") {
+		s += ".0"
+	}
+	return s
 }
 
 func (f Float) Equals(n Node, m EqlMode) bool {
diff --git a/parse.go b/parse.go
index 76094ec..ae1f504 100644
--- a/parse.go
+++ b/parse.go
@@ -9,7 +9,6 @@ import (
 
 var (
 	ampRest         = NewKeyword("&rest")
-	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
 	nulSymbol       = NewSymbol("")
 	quoteSymbol     = NewSymbol("quote")
diff --git a/string.go b/string.go
index 1816b15..0abe165 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -19,8 +18,10 @@ func (s String) String() string {
 	return string(s)
 }
 
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
 func (s String) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From 14714ed7059191f1d15453e2de5b9349f405845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 20/51] fix: dynamic-let binds in parallel and restores the
 values before it

---
 setq.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/setq.go b/setq.go
index 875d34e..d436011 100644
--- a/setq.go
+++ b/setq.go
@@ -239,7 +239,11 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
+	_, saved := D.backups[symbol]
+	_, added := D.removes[symbol]
+	if saved || added {
+		// The value before the first Set is the one to restore.
+	} else if orig, ok := D.world.dynamic.Get(symbol); ok {
 		D.backups[symbol] = orig
 	} else {
 		D.removes[symbol] = struct{}{}
@@ -261,6 +265,8 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, err
 	}
 
+	// All the values are computed before the first variable is bound.
+	bindings := []Pair{}
 	for IsSome(vars) {
 		var varAndValue Node
 		varAndValue, vars, err = Shift(vars)
@@ -268,7 +274,7 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			bindings = append(bindings, Pair{Key: symbol, Value: Null})
 		} else {
 			var symbolNode Node
 			var value Node
@@ -288,8 +294,11 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			bindings = append(bindings, Pair{Key: symbol, Value: value})
 		}
 	}
+	for _, b := range bindings {
+		D.Set(b.Key, b.Value)
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From 7de499643ac39d071ff73cbde638de08dc7ee15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 21/51] fix: gensym makes a symbol that no name reads,
 quasiquote fills in vectors

---
 atom.go | 12 +++++++++---
 cmds.go | 11 +++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/atom.go b/atom.go
index e358112..4477249 100644
--- a/atom.go
+++ b/atom.go
@@ -68,14 +68,20 @@ func (idm *idMap[T]) NameToId(name string) T {
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := T(len(idm.name2id))
+	id := idm.newId(name)
 	idm.name2id[name] = id
+	return id
+}
+
+// newId makes an id which is not found by its name.
+func (idm *idMap[T]) newId(name string) T {
+	id := T(len(idm.id2name))
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
-	return len(idm.name2id)
+	return len(idm.id2name)
 }
 
 type Symbol interface {
@@ -103,7 +109,7 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newId(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
diff --git a/cmds.go b/cmds.go
index efec538..6ad7e5d 100644
--- a/cmds.go
+++ b/cmds.go
@@ -38,6 +38,17 @@ func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 		return &Cons{Car: newCar, Cdr: newCdr}, nil
 	}
+	if array, ok := n.(*Array); ok {
+		newList := make([]Node, len(array.list))
+		for i, value := range array.list {
+			newValue, err := quasiQuote(ctx, w, value)
+			if err != nil {
+				return nil, err
+			}
+			newList[i] = newValue
+		}
+		return &Array{list: newList, dim: array.dim}, nil
+	}
 	return n, nil
 }
 
-- 
2.43.0


From c8b7d13995ac43bce7c703d74e99d39d510dfb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 22/51] fix: format parameters, ~& on every stream, and errors
 of reading and writing

---
 format.go   | 126 +++++++++++++++++++++++++++++-----------------------
 io.go       |  70 ++++++++++++++++++++++-------
 sequence.go |   8 +++-
 world.go    |  16 +++----
 4 files changed, 138 insertions(+), 82 deletions(-)

diff --git a/format.go b/format.go
index e12df35..0bf5a0d 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type runeWriter interface {
@@ -43,7 +44,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			io.WriteString(w, string(rune(padding)))
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
@@ -124,6 +125,22 @@ func printSpaces(n int, w io.Writer) {
 	}
 }
 
+func printObject(w io.Writer, value Node, m PrintMode, args ...int) error {
+	if len(args) <= 0 {
+		_, err := tryPrintTo(w, value, m)
+		return err
+	}
+	var buffer strings.Builder
+	if _, err := tryPrintTo(&buffer, value, m); err != nil {
+		return err
+	}
+	if _, err := io.WriteString(w, buffer.String()); err != nil {
+		return err
+	}
+	printSpaces(args[0]-utf8.RuneCountInString(buffer.String()), w)
+	return nil
+}
+
 var NewLineOnFormat = []byte{'\n'}
 
 func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) error {
@@ -158,36 +175,30 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			continue
 		}
 		parameter := []int{}
+		next := func() (err error) {
+			if c, format, ok = format.firstRuneAndRestString(); !ok {
+				err = ErrInvalidFormat
+			}
+			return err
+		}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
-				for {
-					if IsNone(format) {
-						return ErrInvalidFormat
-					}
-					c, format, ok = format.firstRuneAndRestString()
-					if !ok {
-						return ErrInvalidFormat
-					}
-					d := strings.IndexByte("0123456789", byte(c))
-					if d < 0 {
-						parameter = append(parameter, decimal)
-						break
+			if '0' <= c && c <= '9' {
+				decimal := 0
+				for '0' <= c && c <= '9' {
+					decimal = decimal*10 + int(c-'0')
+					if err := next(); err != nil {
+						return err
 					}
-					decimal = decimal*10 + d
 				}
+				parameter = append(parameter, decimal)
 			} else if c == '\'' {
-				if IsNone(format) {
-					return ErrInvalidFormat
-				}
-				c, format, ok = format.firstRuneAndRestString()
-				if !ok {
-					return ErrInvalidFormat
+				if err := next(); err != nil {
+					return err
 				}
 				parameter = append(parameter, int(c))
-				if IsNone(format) {
-					return ErrInvalidFormat
+				if err := next(); err != nil {
+					return err
 				}
-				c, format, ok = format.firstRuneAndRestString()
 			} else if c == 'v' || c == 'V' {
 				if len(argv) < 1 {
 					return ErrTooFewArguments
@@ -196,21 +207,24 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				if err != nil {
 					return err
 				}
+				argv = argv[1:]
 				parameter = append(parameter, int(decimal))
+				if err := next(); err != nil {
+					return err
+				}
 			} else if c == '#' {
-				parameter = append(parameter, int(len(argv)))
+				parameter = append(parameter, len(argv))
+				if err := next(); err != nil {
+					return err
+				}
 			} else {
 				break
 			}
 			if c != ',' {
 				break
 			}
-			if IsNone(format) {
-				return ErrInvalidFormat
-			}
-			c, format, ok = format.firstRuneAndRestString()
-			if !ok {
-				break
+			if err := next(); err != nil {
+				return err
 			}
 		}
 
@@ -265,21 +279,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		case 'g', 'G':
 			err = printFloat(w, value, 'g', parameter...)
 		case 'a', 'A':
-			n, err := tryPrintTo(w, value, PRINC)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINC, parameter...)
 		case 's', 'S':
-			n, err := tryPrintTo(w, value, PRINT)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printObject(w, value, PRINT, parameter...)
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
 		}
@@ -292,12 +294,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 
 func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error) (Node, error) {
 	if output, ok := argv[0].(io.Writer); ok {
-		rw, ok := output.(*_WriterNode)
-		if !ok {
-			rw = &_WriterNode{_Writer: output}
-		}
-		err := f(rw, argv[1:])
-		return Null, err
+		return Null, writeTo(output, argv[1:], f)
 	}
 	if IsNone(argv[0]) {
 		var buffer strings.Builder
@@ -305,15 +302,32 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
-		W, ok := w.stdout._Writer.(*_WriterNode)
-		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
-		}
-		return Null, f(W, argv[1:])
+		return Null, writeTo(w.stdout, argv[1:], f)
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
 
+// writeTo calls f and returns its error or the one of writing to output.
+func writeTo(output io.Writer, argv []Node, f func(*_WriterNode, []Node) error) error {
+	var rw *_WriterNode
+	switch t := output.(type) {
+	case *_WriterNode:
+		rw = t
+	case *_OutputFileStream:
+		rw = &t._WriterNode
+	default:
+		rw = &_WriterNode{_Writer: output}
+		if c, ok := output.(CanKnowLastOutput); ok {
+			rw.lastOutputIsNotLf = !c.IsLastOutputLf()
+		}
+	}
+	rw.err = nil
+	if err := f(rw, argv); err != nil {
+		return err
+	}
+	return rw.err
+}
+
 func funFormat(ctx context.Context, world *World, argv []Node) (Node, error) {
 	return tAndNilToWriter(world, argv, func(_w *_WriterNode, _argv []Node) error {
 		return formatSub(ctx, world, _w, _argv)
diff --git a/io.go b/io.go
index c85ab9a..33f9f70 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	node     Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,10 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.node = argv[0]
 	case 0:
 		this.reader = w.Stdin()
+		this.node = w.Stdin()
 	}
 	return this, nil
 }
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,13 +112,13 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.node,
 		})
 	}
 	if err != nil {
 		var numError *strconv.NumError
 		if errors.As(err, &numError) {
-			return callHandler[*ParseError](ctx, w, true, &ParseError{
+			return callHandler[Node](ctx, w, true, &ParseError{
 				str:           String(numError.Num),
 				ExpectedClass: numberClass,
 			})
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -162,11 +165,11 @@ func funCreateStringOutputStream(ctx context.Context, w *World) (Node, error) {
 }
 
 func funGetOutputStreamString(ctx context.Context, w *World, arg Node) (Node, error) {
-	stringer, ok := arg.(fmt.Stringer) // expect StringBuilder
+	builder, ok := arg.(*StringBuilder)
 	if !ok {
 		return nil, ErrNotSupportType
 	}
-	return String(stringer.String()), nil
+	return String(builder.String()), nil
 }
 
 type inputStream struct {
@@ -218,13 +221,30 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 }
 
 type _OutputFileStream struct {
-	*bufio.Writer
+	_WriterNode
+	buffer *bufio.Writer
 	closer io.Closer
+	closed bool
 }
 
+type closedWriter struct{}
+
+func (closedWriter) Write([]byte) (int, error) {
+	return 0, os.ErrClosed
+}
+
+// Close writes the buffered data out. To close twice has no effect.
 func (o *_OutputFileStream) Close() error {
-	o.Writer.Flush()
-	return o.closer.Close()
+	if o.closed {
+		return nil
+	}
+	o.closed = true
+	o._Writer = closedWriter{}
+	flushErr := o.buffer.Flush()
+	if err := o.closer.Close(); err != nil {
+		return err
+	}
+	return flushErr
 }
 
 func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFileStream, error) {
@@ -236,14 +256,19 @@ func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFile
 	if err != nil {
 		return nil, err
 	}
-	return &_OutputFileStream{Writer: bufio.NewWriter(writer), closer: writer}, nil
+	buffer := bufio.NewWriter(writer)
+	return &_OutputFileStream{
+		_WriterNode: _WriterNode{_Writer: buffer},
+		buffer:      buffer,
+		closer:      writer,
+	}, nil
 }
 
 func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
 	return openOutputFile(ctx, w, arg)
 }
 
-func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, error) {
+func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (result Node, err error) {
 	param, list, err := Shift(list)
 	if err != nil {
 		return nil, err
@@ -264,7 +289,11 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, erro
 	if err != nil {
 		return nil, err
 	}
-	defer stream.Close()
+	defer func() {
+		if closeErr := stream.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	nw := w.Let(&Pair{Key: symbol, Value: stream})
 	return Progn(ctx, nw, list)
@@ -295,6 +324,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, false, &DomainError{
+			Object:        _n,
+			ExpectedClass: integerClass,
+		})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
@@ -310,11 +345,14 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	}
 	stream, ok := _stream.(_ReaderNode)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		reader, ok := _stream.(_Reader)
+		if !ok {
+			return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		}
+		stream = _ReaderNode{_Reader: reader}
 	}
 	save := w.stdin
+	defer func() { w.stdin = save }()
 	w.stdin = stream
-	result, err := Progn(ctx, w, node)
-	w.stdin = save
-	return result, err
+	return Progn(ctx, w, node)
 }
diff --git a/sequence.go b/sequence.go
index 3233ead..c35884a 100644
--- a/sequence.go
+++ b/sequence.go
@@ -77,10 +77,16 @@ func (S *StringBuilder) Sequence() Node {
 	return String(S.String())
 }
 
-func (S StringBuilder) GoString() string {
+func (S *StringBuilder) GoString() string {
 	return strconv.Quote(S.String())
 }
 
+// IsLastOutputLf returns true at the beginning of a line.
+func (S *StringBuilder) IsLastOutputLf() bool {
+	s := S.String()
+	return s == "" || s[len(s)-1] == '\n'
+}
+
 func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 	type canElt interface {
 		Elt(int) (Node, error)
diff --git a/world.go b/world.go
index f0cca2f..7cebea4 100644
--- a/world.go
+++ b/world.go
@@ -130,6 +130,7 @@ type _Writer = io.Writer
 type _WriterNode struct {
 	_Writer
 	lastOutputIsNotLf bool
+	err               error // the last error of writing
 }
 
 type CanKnowLastOutput interface {
@@ -145,28 +146,25 @@ func (w *_WriterNode) Write(p []byte) (nn int, err error) {
 	if nn >= 1 {
 		w.lastOutputIsNotLf = (p[nn-1] != '\n')
 	}
+	if err != nil {
+		w.err = err
+	}
 	return nn, err
 }
 
 func (w *_WriterNode) WriteByte(c byte) error {
-	w.lastOutputIsNotLf = (c != '\n')
-	_, err := w._Writer.Write([]byte{c})
+	_, err := w.Write([]byte{c})
 	return err
 }
 
 func (w *_WriterNode) WriteRune(c rune) (int, error) {
 	var buffer [utf8.UTFMax]byte
 	size := utf8.EncodeRune(buffer[:], c)
-	w.lastOutputIsNotLf = (c != '\n')
-	return w._Writer.Write(buffer[:size])
+	return w.Write(buffer[:size])
 }
 
 func (w *_WriterNode) WriteString(s string) (size int, err error) {
-	n, err := io.WriteString(w._Writer, s)
-	if n > 0 {
-		w.lastOutputIsNotLf = (s[n-1] != '\n')
-	}
-	return n, err
+	return w.Write([]byte(s))
 }
 
 func (w *World) Get(name Symbol) (Node, error) {
-- 
2.43.0


From afb58b474ce8e6044a3412b7fedd8f6d8b06fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 23/51] fix: sqrt of integers, string-index start, surplus
 macro arguments and other argument checks

---
 macro.go             |  5 +++--
 number.go            | 21 ++++++++++++++++-----
 pkg/command/main.go  |  2 +-
 pkg/wildcard/main.go |  4 ++--
 string.go            |  8 +++++++-
 world.go             |  4 ++++
 6 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/macro.go b/macro.go
index 649c583..c08fef6 100644
--- a/macro.go
+++ b/macro.go
@@ -102,6 +102,9 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	if m.rest == nulSymbol && IsSome(n) {
+		return nil, ErrTooManyArguments
+	}
 	lexical[m.rest] = n
 	joinedForm := _JoinedForm{}
 	for cons, ok := n.(*Cons); ok && IsSome(cons); cons, ok = cons.Cdr.(*Cons) {
@@ -159,8 +162,6 @@ func lambdaMacro(ctx context.Context, w *World, n Node) (*_Macro, error) {
 	code := p.code
 	if c, err := expandMacroInList(ctx, w, code); err == nil {
 		code = c
-	} else {
-		println(err.Error())
 	}
 	return &_Macro{
 		param:   p.param,
diff --git a/number.go b/number.go
index ddbac68..744f067 100644
--- a/number.go
+++ b/number.go
@@ -297,12 +297,23 @@ func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-	n, err := ExpectClass[Float](ctx, w, arg)
-	if err != nil {
-		return nil, err
+	var n Float
+	if i, ok := arg.(Integer); ok {
+		n = Float(i)
+	} else {
+		var err error
+		n, err = ExpectClass[Float](ctx, w, arg)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if n < 0 {
+		return callHandler[Node](ctx, w, true, &DomainError{
+			Object:        arg,
+			ExpectedClass: numberClass,
+		})
 	}
-	v := math.Sqrt(float64(n))
-	return Float(v), nil
+	return Float(math.Sqrt(float64(n))), nil
 }
 
 type BigInt struct {
diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..26a61c2 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	result := gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
diff --git a/string.go b/string.go
index 0abe165..87e06f9 100644
--- a/string.go
+++ b/string.go
@@ -159,7 +159,13 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 	}
 	str := _str.String()
 
-	for i := 0; i < start && len(str) > 0; i++ {
+	if start < 0 {
+		start = 0
+	}
+	for i := 0; i < start; i++ {
+		if len(str) <= 0 {
+			return Null, nil
+		}
 		_, siz := utf8.DecodeRuneInString(str)
 		str = str[siz:]
 	}
diff --git a/world.go b/world.go
index 7cebea4..ed11205 100644
--- a/world.go
+++ b/world.go
@@ -88,6 +88,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
@@ -634,6 +635,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From 6e595db6abcda2e4ae30980612621a427874e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 24/51] fix: the command skips only a #! or @ line, and accepts
 an empty script

---
 cmd/gmnlisp/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index e74eb87..992c6f0 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -179,11 +179,11 @@ func mains(args []string) error {
 		defer fd.Close()
 
 		br := bufio.NewReader(fd)
-		magicByte, err := br.Peek(1)
-		if err != nil {
+		magic, err := br.Peek(2)
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%s: %w", args[0], err)
 		}
-		if magicByte[0] == '#' || magicByte[0] == '@' {
+		if string(magic) == "#!" || (len(magic) > 0 && magic[0] == '@') {
 			br.ReadString('\n')
 		}
 		script, err := io.ReadAll(br)
-- 
2.43.0


From 1f5d882da121393af7397c5c79a0de8220242f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 25/51] fix: continuing a condition that cannot be continued is
 an error for the outer handlers

---
 cond.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cond.go b/cond.go
index 840578f..406926b 100644
--- a/cond.go
+++ b/cond.go
@@ -73,7 +73,7 @@ func (w *World) callHandlers(ctx context.Context, cond Node, cont bool, err erro
 			if cont {
 				return ce.Value, nil
 			}
-			e = ControlError{err: ce}
+			e = ControlError{err: errors.New(ce.Error())}
 		}
 		return nil, w.signal(ctx, e)
 	}
-- 
2.43.0


From a245d2182048dc08ef5bed8ee926c42217871810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 26/51] fix: surplus arguments are evaluated before the error
 like those of a tail call

---
 lambda.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lambda.go b/lambda.go
index a4f46f2..2f81a81 100644
--- a/lambda.go
+++ b/lambda.go
@@ -266,7 +266,7 @@ func (L *_Lambda) call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 
 	if IsSome(n) && L.rest == nulSymbol {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		return raiseTooManyArguments(ctx, w, n)
 	}
 	if L.rest != nulSymbol {
 		var values Node = nil
@@ -521,11 +521,23 @@ func raiseProgramError(ctx context.Context, w *World, e error) (Node, error) {
 	return callHandler[Node](ctx, w, false, condition)
 }
 
+// raiseTooManyArguments evaluates the surplus arguments as any call does before raising the error.
+func raiseTooManyArguments(ctx context.Context, w *World, surplus Node) (Node, error) {
+	for IsSome(surplus) {
+		var err error
+		_, surplus, err = w.ShiftAndEvalCar(ctx, surplus)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return raiseProgramError(ctx, w, ErrTooManyArguments)
+}
+
 type Function0 func(context.Context, *World) (Node, error)
 
 func (f Function0) Call(ctx context.Context, w *World, list Node) (Node, error) {
 	if IsSome(list) {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		return raiseTooManyArguments(ctx, w, list)
 	}
 	return f(ctx, w)
 }
@@ -538,7 +550,7 @@ func (f Function1) Call(ctx context.Context, w *World, list Node) (Node, error)
 		return nil, err
 	}
 	if IsSome(list) {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		return raiseTooManyArguments(ctx, w, list)
 	}
 	return f(ctx, w, v)
 }
@@ -555,7 +567,7 @@ func (f Function2) Call(ctx context.Context, w *World, list Node) (Node, error)
 		return nil, err
 	}
 	if IsSome(list) {
-		return raiseProgramError(ctx, w, ErrTooManyArguments)
+		return raiseTooManyArguments(ctx, w, list)
 	}
 	return f(ctx, w, first, second)
 }
-- 
2.43.0


From 95631b2c41a834b455b2d1ca6e3ad58ab3bdfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 27/51] fix: the library is loaded completely even if the first
 context is already done

---
 world.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index ed11205..2c9c290 100644
--- a/world.go
+++ b/world.go
@@ -573,7 +573,12 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
+		// The library must be complete even if the caller's context is already done.
+		for _, c := range compiled {
+			if _, err := w.Eval(context.Background(), c); err != nil {
+				panic(err.Error())
+			}
+		}
 	})
 	var result Node = Null
 	var err error
-- 
2.43.0


From 689d4105b03b02274ab4f08acfc0e42a3f0758b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 28/51] fix: a library which cannot be loaded is reported as an
 error

---
 world.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/world.go b/world.go
index 2c9c290..4ee49f1 100644
--- a/world.go
+++ b/world.go
@@ -98,15 +98,17 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	handler  *_Handler
-	global   Scope
-	defun    FuncScope
-	dynamic  Variables
-	stdout   *_WriterNode
-	errout   *_WriterNode
-	stdin    _ReaderNode
-	startup  sync.Once
-	catchTag []*catchPoint
+	handler *_Handler
+	global  Scope
+	defun   FuncScope
+	dynamic Variables
+	stdout  *_WriterNode
+	errout  *_WriterNode
+	stdin   _ReaderNode
+	startup sync.Once
+	// startupErr is why the library could not be loaded
+	startupErr error
+	catchTag   []*catchPoint
 }
 
 type World struct {
@@ -575,11 +577,14 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 		}
 		// The library must be complete even if the caller's context is already done.
 		for _, c := range compiled {
-			if _, err := w.Eval(context.Background(), c); err != nil {
-				panic(err.Error())
+			if _, w.startupErr = w.Eval(context.Background(), c); w.startupErr != nil {
+				break
 			}
 		}
 	})
+	if w.startupErr != nil {
+		return nil, w.startupErr
+	}
 	var result Node = Null
 	var err error
 
-- 
2.43.0


From 4e53a4cf0ac5f6744d9db3e46dc6c75ace1c46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 29/51] fix: #' inside |...| does not end the symbol

---
 pkg/parser/tokenize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index fff7499..73a4273 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -124,7 +124,7 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		buffer.WriteRune(lastRune)
 
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+		if !quote && !bar4symbol && lastLastRune == '#' && lastRune == '\'' {
 			return buffer.String(), err
 		}
 		lastLastRune = lastRune
-- 
2.43.0


From 8d7d715dec01b8c31b39018610f46fa1258f5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 30/51] fix: a quotation mark after a block comment begins a
 new token

---
 pkg/parser/tokenize.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 73a4273..8ff37ce 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -99,6 +99,10 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 					return "", ErrTooShortTokens
 				}
 				if done {
+					if buffer.Len() == 0 {
+						// what follows the comment is the beginning of a token
+						return "", nil
+					}
 					continue
 				}
 			}
-- 
2.43.0


From 3148804a64ae9524fd8d3fd90ad3ed4974f62c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 31/51] fix: a dot in an array and a quotation mark without
 operand are errors

---
 pkg/parser/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index a4ecf6e..0299285 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -80,6 +80,8 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	if err != nil {
 		if err == io.EOF {
 			err = ErrTooShortTokens
+		} else if err == errDot {
+			err = errors.New("array syntax error: \".\"")
 		}
 		return p.Null(), err
 	}
@@ -232,6 +234,8 @@ func (p *_Parser[N]) readOperand(rs io.RuneScanner) (N, error) {
 	node, err := p.ReadNode(rs)
 	if err == io.EOF {
 		err = ErrTooShortTokens
+	} else if err == errParenClose {
+		err = errors.New("unexpected close parenthesis after a quotation mark")
 	}
 	return node, err
 }
-- 
2.43.0


From a43d73f1a18b7a7b86db15184fae359cf179ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 32/51] fix: rem and mod report the operands as they were given

---
 operator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/operator.go b/operator.go
index 2d484c6..e9d5881 100644
--- a/operator.go
+++ b/operator.go
@@ -265,9 +265,15 @@ func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 			}
 			return Integer(left % right), nil
 		}
-		first = Float(left)
 	}
-	if left, ok := first.(Float); ok {
+	left, ok := first.(Float)
+	if !ok {
+		var i Integer
+		if i, ok = first.(Integer); ok {
+			left = Float(i)
+		}
+	}
+	if ok {
 		right, ok := second.(Float)
 		if !ok {
 			_right, ok := second.(Integer)
-- 
2.43.0


From 946a29bf3949fc7acb936921b2245ce183d90f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:45 +0000
Subject: [PATCH 33/51] fix: instances with different unbound slots are not
 equal

---
 class.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/class.go b/class.go
index a4a81fb..12eebe6 100644
--- a/class.go
+++ b/class.go
@@ -377,7 +377,8 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 		return false
 	}
 	for key, val := range r.Slot {
-		if !val.Equals(other.Slot[key], m) {
+		otherVal, ok := other.Slot[key]
+		if !ok || !val.Equals(otherVal, m) {
 			return false
 		}
 	}
-- 
2.43.0


From 5ad250140ff840e02b6fb7476d06ea10875f9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:09 +0000
Subject: [PATCH 34/51] fix: convert reports numbers that have no exact integer
 or character

---
 convert.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/convert.go b/convert.go
index 4a7e557..a904162 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strconv"
+	"unicode/utf8"
 )
 
 var (
@@ -85,6 +86,12 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Float:
 		switch class {
 		case integerClass.name: // it should be error
+			if compareIntegerFloat(Integer(val), val) != 0 {
+				return callHandler[Node](ctx, w, true, &DomainError{
+					Object:        val,
+					ExpectedClass: integerClass,
+				})
+			}
 			return Integer(val), nil
 		case floatClass.name:
 			return val, nil
@@ -94,6 +101,12 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
+			if val < 0 || val > utf8.MaxRune || !utf8.ValidRune(rune(val)) {
+				return callHandler[Node](ctx, w, true, &DomainError{
+					Object:        val,
+					ExpectedClass: characterClass,
+				})
+			}
 			return Rune(val), nil
 		case integerClass.name:
 			return val, nil
-- 
2.43.0


From bbefe35e506aa4b3c1fb2da812bba9b2049ad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 35/51] fix: a stream that fails in the middle of a line or a
 datum is reported, not taken for its end

---
 io.go                  |  9 ++++++---
 pkg/parser/tokenize.go | 21 ++++++++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/io.go b/io.go
index 33f9f70..ca1a570 100644
--- a/io.go
+++ b/io.go
@@ -87,8 +87,8 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	} else {
 		s, err = readString(stream.reader, '\n')
 	}
-	if len(s) > 0 {
-		return String(chomp(s)), nil
+	if len(s) > 0 && err == io.EOF {
+		err = nil
 	}
 	if err == io.EOF {
 		if stream.eofFlag {
@@ -98,7 +98,10 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 		}
 		return stream.eofValue, nil
 	}
-	return String(chomp(s)), err
+	if err != nil {
+		return nil, err
+	}
+	return String(chomp(s)), nil
 }
 
 func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 8ff37ce..7c917f4 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -9,9 +9,12 @@ import (
 
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
-	if err != nil {
+	if err == io.EOF {
 		return false, nil
 	}
+	if err != nil {
+		return false, err
+	}
 	if c != '|' {
 		if e := r.UnreadRune(); e != nil {
 			panic(e.Error())
@@ -65,6 +68,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if err != io.EOF {
+				return "", err
+			}
 			if quote || bar4symbol {
 				return "", ErrTooShortTokens
 			}
@@ -73,9 +79,12 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
-			if err != nil {
+			if err == io.EOF {
 				return "", ErrTooShortTokens
 			}
+			if err != nil {
+				return "", err
+			}
 			if !quote && buffer.String() == "#" {
 				buffer.WriteRune(lastRune)
 				buffer.WriteRune(nextRune)
@@ -95,9 +104,12 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 		if !quote && !bar4symbol {
 			if lastRune == '#' {
 				done, err := skipComment(r)
-				if err != nil {
+				if err == io.EOF {
 					return "", ErrTooShortTokens
 				}
+				if err != nil {
+					return "", err
+				}
 				if done {
 					if buffer.Len() == 0 {
 						// what follows the comment is the beginning of a token
@@ -148,6 +160,9 @@ func readToken(r io.RuneScanner) (string, error) {
 			for err == nil && lastRune != '\n' {
 				lastRune, _, err = r.ReadRune()
 			}
+			if err != nil {
+				return "", err
+			}
 			continue
 		}
 		if strings.ContainsRune("',`()", lastRune) {
-- 
2.43.0


From afdd7d114761a3daa962d0ebdb4816719f428393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 36/51] fix: a failing close of with-open-output-file is
 reported also when the form is left by an escape

---
 io.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/io.go b/io.go
index ca1a570..236882b 100644
--- a/io.go
+++ b/io.go
@@ -293,8 +293,16 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (result Nod
 		return nil, err
 	}
 	defer func() {
-		if closeErr := stream.Close(); err == nil {
-			err = closeErr
+		closeErr := stream.Close()
+		if closeErr == nil {
+			return
+		}
+		// same as the cleanup-form of unwind-protect, the loss must not be hidden by an escape
+		var e1 *_ErrEarlyReturns // block & return-from
+		var e2 *_ErrThrown       // catch & throw
+		var e3 *_ErrTagBody      // tagbody & go
+		if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+			result, err = nil, closeErr
 		}
 	}()
 
-- 
2.43.0


From fe742be10ea021ac68edbb2c39c2a8f3c1685a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 37/51] fix: an error under a finished context is reported as
 the context's error, not as the program's

---
 cond.go  | 15 ++++++++++-----
 progn.go |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cond.go b/cond.go
index 406926b..38320d8 100644
--- a/cond.go
+++ b/cond.go
@@ -39,15 +39,14 @@ func (s *_Signaled) Unwrap() error {
 }
 
 // isControlFlow returns true when err is not a condition but a transfer of
-// control: non-local exits, quit, abort or the cancellation by the host.
-func isControlFlow(ctx context.Context, err error) bool {
+// control: non-local exits, quit or abort.
+func isControlFlow(err error) bool {
 	var e1 *_ErrEarlyReturns      // block & return-from
 	var e2 *_ErrThrown            // catch & throw
 	var e3 *_ErrTagBody           // tagbody & go
 	var e4 *_ErrContinueCondition // continue-condition
 	var e5 *_ErrTailRecOpt
-	return ctx.Err() != nil ||
-		errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) ||
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) ||
 		errors.As(err, &e4) || errors.As(err, &e5) ||
 		errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort)
 }
@@ -87,7 +86,13 @@ func (w *World) signal(ctx context.Context, err error) error {
 		return err
 	}
 	var signaled *_Signaled
-	if w.handler == nil || errors.As(err, &signaled) || isControlFlow(ctx, err) {
+	if isControlFlow(err) {
+		return &_Signaled{error: err}
+	}
+	if ctxErr := ctx.Err(); ctxErr != nil { // the host canceled it: neither handled nor ignored
+		return &_Signaled{error: ctxErr}
+	}
+	if w.handler == nil || errors.As(err, &signaled) {
 		return &_Signaled{error: err}
 	}
 	var cond errorAndNode
diff --git a/progn.go b/progn.go
index 88c5904..355b5d2 100644
--- a/progn.go
+++ b/progn.go
@@ -440,9 +440,12 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
-		if isControlFlow(ctx, err) {
+		if isControlFlow(err) {
 			return nil, err
 		}
+		if ctxErr := ctx.Err(); ctxErr != nil {
+			return nil, ctxErr
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From 8c65cf24a4381d8728c20ad78211a4b514c32581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 38/51] fix: the startup library does not see the bindings of
 the World which is used first

---
 lambda.go |  6 +-----
 world.go  | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/lambda.go b/lambda.go
index 2f81a81..12bc7bb 100644
--- a/lambda.go
+++ b/lambda.go
@@ -626,11 +626,7 @@ type LispString struct {
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
 		// The code must not see the local definitions of the first caller.
-		root := w
-		for root.parent != nil {
-			root = root.parent
-		}
-		c, err := root.Interpret(ctx, L.S)
+		c, err := w.root().Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
 		}
diff --git a/world.go b/world.go
index 4ee49f1..dd666ee 100644
--- a/world.go
+++ b/world.go
@@ -575,9 +575,11 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 		if err != nil {
 			panic(err.Error())
 		}
-		// The library must be complete even if the caller's context is already done.
+		// The library must be complete even if the caller's context is already done,
+		// and it must not see the local definitions of the first caller.
+		root := w.root()
 		for _, c := range compiled {
-			if _, w.startupErr = w.Eval(context.Background(), c); w.startupErr != nil {
+			if _, w.startupErr = root.Eval(context.Background(), c); w.startupErr != nil {
 				break
 			}
 		}
@@ -613,6 +615,14 @@ func (w *World) InterpretBytes(ctx context.Context, code []byte) (Node, error) {
 	return w.InterpretNodes(ctx, compiled)
 }
 
+// root returns the World which has no local definitions
+func (w *World) root() *World {
+	for w.parent != nil {
+		w = w.parent
+	}
+	return w
+}
+
 func (w *World) Let(scope Scope) *World {
 	return &World{
 		parent: w,
-- 
2.43.0


From a6baeab96a6a8377515d93deb1c941a52de1b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 39/51] fix: errors.Is and errors.As do not find the host's
 error in its condition object

---
 progn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/progn.go b/progn.go
index 355b5d2..2a73e97 100644
--- a/progn.go
+++ b/progn.go
@@ -335,6 +335,11 @@ func (e ErrorNode) Error() string {
 	return e.Value.Error()
 }
 
+// Unwrap returns the error which the condition stands for.
+func (e ErrorNode) Unwrap() error {
+	return e.Value
+}
+
 func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 	if _, ok := e.(interface{ ClassOf() Class }); ok {
 		return nil, e
-- 
2.43.0


From 60b909c34d52afc8f546f3672181f9eacd5e67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 40/51] fix: continue-condition for a condition which is not
 being handled escapes every handler

---
 cond.go  | 19 +++++++++++++++++--
 world.go |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cond.go b/cond.go
index 38320d8..ee6bab9 100644
--- a/cond.go
+++ b/cond.go
@@ -28,6 +28,12 @@ type _Handler struct {
 	outer    *_Handler
 }
 
+// _Signaling is one of the conditions whose handlers are running
+type _Signaling struct {
+	cond  Node
+	outer *_Signaling
+}
+
 // _Signaled marks an error all of the active handlers have already declined
 // (or which was raised by a handler itself) so that they are not called again.
 type _Signaled struct {
@@ -60,7 +66,9 @@ func (w *World) callHandlers(ctx context.Context, cond Node, cont bool, err erro
 	if current == nil {
 		return nil, err
 	}
-	defer func() { w.handler = current }()
+	signaling := w.signaling
+	defer func() { w.handler, w.signaling = current, signaling }()
+	w.signaling = &_Signaling{cond: cond, outer: signaling}
 	for h := current; h != nil; h = h.outer {
 		w.handler = h.outer
 		_, e := h.function.Call(ctx, w, UnevalList(cond))
@@ -168,5 +176,12 @@ func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error
 	if IsSome(node) {
 		return nil, ErrTooManyArguments
 	}
-	return nil, &_ErrContinueCondition{Cond: cond, Value: value}
+	e := &_ErrContinueCondition{Cond: cond, Value: value}
+	for s := w.signaling; s != nil; s = s.outer {
+		if sameNode(s.cond, cond) {
+			return nil, e
+		}
+	}
+	// nobody waits for the value
+	return nil, ControlError{err: errors.New(e.Error())}
 }
diff --git a/world.go b/world.go
index dd666ee..ae8c20f 100644
--- a/world.go
+++ b/world.go
@@ -99,6 +99,9 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	handler *_Handler
+	// signaling is the innermost condition whose handlers are running
+	signaling *_Signaling
+
 	global  Scope
 	defun   FuncScope
 	dynamic Variables
-- 
2.43.0


From af92d39af9d666806d81bf449300fb507f994db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 41/51] fix: ignore-errors does not keep the errors it ignores
 from the outer handlers

---
 progn.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/progn.go b/progn.go
index 2a73e97..f4ba3a0 100644
--- a/progn.go
+++ b/progn.go
@@ -443,7 +443,21 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
+	exit := &exitPoint{}
+	ignore := func(_ context.Context, _ *World, cond Node) (Node, error) {
+		if errorClass.InstanceP(cond) {
+			return nil, &_ErrEarlyReturns{Value: Null, exit: exit}
+		}
+		return Null, nil
+	}
+	outer := w.handler
+	w.handler = &_Handler{function: Function1(ignore), outer: outer}
 	val, err := Progn(ctx, w, n)
+	w.handler = outer
+	var ignored *_ErrEarlyReturns
+	if errors.As(err, &ignored) && ignored.exit == exit {
+		return Null, nil
+	}
 	if err != nil {
 		if isControlFlow(err) {
 			return nil, err
-- 
2.43.0


From 361deba27bf0c0625b2a66d5300f368d89eb74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 42/51] fix: interpreters in different goroutines corrupt the
 table of symbols

---
 atom.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/atom.go b/atom.go
index 4477249..c67da14 100644
--- a/atom.go
+++ b/atom.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -56,31 +57,46 @@ func (nt _NullType) Id() int {
 
 var Null Node = _NullType{}
 
+// idMap is shared by all the worlds, which may run in different goroutines.
 type idMap[T ~int] struct {
+	mutex   sync.RWMutex
 	id2name []string
 	name2id map[string]T
 }
 
 func (idm *idMap[T]) NameToId(name string) T {
-	if idm.name2id == nil {
-		idm.name2id = make(map[string]T)
+	idm.mutex.RLock()
+	id, ok := idm.name2id[name]
+	idm.mutex.RUnlock()
+	if ok {
+		return id
 	}
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := idm.newId(name)
+	if idm.name2id == nil {
+		idm.name2id = make(map[string]T)
+	}
+	id = T(len(idm.id2name))
+	idm.id2name = append(idm.id2name, name)
 	idm.name2id[name] = id
 	return id
 }
 
 // newId makes an id which is not found by its name.
-func (idm *idMap[T]) newId(name string) T {
+func (idm *idMap[T]) newId(makeName func(count int) string) T {
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
 	id := T(len(idm.id2name))
-	idm.id2name = append(idm.id2name, name)
+	idm.id2name = append(idm.id2name, makeName(len(idm.id2name)))
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	return len(idm.id2name)
 }
 
@@ -96,6 +112,8 @@ func (s _Symbol) Id() int {
 }
 
 func (idm *idMap[T]) IdToName(id T) string {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	if id < 0 || int(id) >= len(idm.id2name) {
 		return "(undefined)"
 	}
@@ -109,7 +127,9 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return symbolManager.newId(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newId(func(count int) string {
+		return fmt.Sprintf("-gensym-%d-", count)
+	})
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From f15a970813d73a05227b8fef00c84ec155cf2902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 43/51] fix: classes defined in different goroutines may get
 the same serial number

---
 class.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/class.go b/class.go
index 12eebe6..fe9da8e 100644
--- a/class.go
+++ b/class.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync/atomic"
 )
 
 type _SlotSpec struct {
@@ -257,7 +258,7 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
-var classCounter = 0
+var classCounter atomic.Int64
 
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	// (defclass class-name (sc-name*) (slot-spec*) class-opt*)
@@ -271,9 +272,8 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	classCounter++
 	class := &_StandardClass{
-		serial: classCounter,
+		serial: int(classCounter.Add(1)),
 		Symbol: className,
 		Slot:   make(map[Symbol]*_SlotSpec),
 	}
-- 
2.43.0


From de4bdf6f56e44039b9c5ad27ca1ee3b082679cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 44/51] fix: tracing a function in one interpreter traces it in
 all the others

---
 lambda.go | 14 +++++---------
 world.go  |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/lambda.go b/lambda.go
index 12bc7bb..1066036 100644
--- a/lambda.go
+++ b/lambda.go
@@ -203,8 +203,6 @@ func (t _Lambda) String() string {
 	return buffer.String()
 }
 
-var trace = map[Symbol]int{}
-
 type _ErrTailRecOpt struct {
 	lambda *_Lambda
 	params Node
@@ -232,12 +230,12 @@ func (L *_Lambda) call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := trace[L.name]
+	traceCount, traceDo := w.trace[L.name]
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		trace[L.name]++
+		w.trace[L.name]++
 		defer func() {
-			trace[L.name]--
+			w.trace[L.name]--
 		}()
 	}
 	for _, name := range L.param {
@@ -485,9 +483,7 @@ func (f SpecialF) Call(ctx context.Context, w *World, n Node) (Node, error) {
 
 func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 	// from CommonLisp
-	if len(trace) > 0 {
-		trace = map[Symbol]int{}
-	}
+	w.trace = map[Symbol]int{}
 	for IsSome(list) {
 		var symbolNode Node
 		var err error
@@ -500,7 +496,7 @@ func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		trace[symbol] = 0
+		w.trace[symbol] = 0
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index ae8c20f..4502adf 100644
--- a/world.go
+++ b/world.go
@@ -112,6 +112,7 @@ type shared struct {
 	// startupErr is why the library could not be loaded
 	startupErr error
 	catchTag   []*catchPoint
+	trace      map[Symbol]int
 }
 
 type World struct {
-- 
2.43.0


From 77324aab388baf6da9cdad4a1cee529e294df549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 45/51] fix: interpreters in different goroutines corrupt the
 table of global variables

---
 world.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 4502adf..0cc49b3 100644
--- a/world.go
+++ b/world.go
@@ -50,6 +50,34 @@ func (m Variables) Range(f func(Symbol, Node) bool) {
 	}
 }
 
+// _GlobalVariables are shared by all the worlds, which may run in different goroutines.
+type _GlobalVariables struct {
+	mutex sync.RWMutex
+	vars  Variables
+}
+
+func (g *_GlobalVariables) Get(key Symbol) (Node, bool) {
+	g.mutex.RLock()
+	defer g.mutex.RUnlock()
+	return g.vars.Get(key)
+}
+
+func (g *_GlobalVariables) Set(key Symbol, value Node) {
+	g.mutex.Lock()
+	defer g.mutex.Unlock()
+	g.vars.Set(key, value)
+}
+
+func (g *_GlobalVariables) Range(f func(Symbol, Node) bool) {
+	g.mutex.RLock()
+	snapshot := make(Variables, len(g.vars))
+	for key, val := range g.vars {
+		snapshot[key] = val
+	}
+	g.mutex.RUnlock()
+	snapshot.Range(f)
+}
+
 type Functions map[Symbol]Callable
 
 func (m Functions) Get(key Symbol) (Callable, bool) {
@@ -264,6 +292,8 @@ var autoLoadVars = Variables{
 	numberClass.name:                      numberClass,
 }
 
+var globalVars = &_GlobalVariables{vars: autoLoadVars}
+
 var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
@@ -495,7 +525,7 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 }
 
 func New() *World {
-	rwvars := &autoLoadVars
+	rwvars := globalVars
 	rwfuncs := _RootWorld{
 		symReportCondition: &_Generic{Symbol: symReportCondition, argc: 2},
 		symInitializeObject: &_Generic{
-- 
2.43.0


From 4aa84ba397f1f73deff97247ba82434f87c0138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 46/51] fix: World.Range stops when its function returns false,
 in the outer scopes too

---
 world.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index 0cc49b3..656726c 100644
--- a/world.go
+++ b/world.go
@@ -688,13 +688,14 @@ func (w *World) Assert(equation string, expect Node) string {
 
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
-	for ; w != nil; w = w.parent {
+	for stop := false; w != nil && !stop; w = w.parent {
 		if w.vars == nil {
 			continue
 		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
+					stop = true
 					return false
 				}
 				marked[key] = struct{}{}
-- 
2.43.0


From 5ee2ac0e164f7a92cf41f25570472bcc8df7e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 47/51] fix: tell a number that is too large from text that is
 no number

tryParseAsNumber dropped the *strconv.NumError that parse-number and read
look for, so a float out of range was never reported as
<floating-point-overflow> nor, by read, as <parse-error>. The operands of
the condition are a list, as for other arithmetic errors.
---
 cmds.go            | 2 +-
 pkg/parser/main.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmds.go b/cmds.go
index 6ad7e5d..d0662d1 100644
--- a/cmds.go
+++ b/cmds.go
@@ -211,7 +211,7 @@ func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
 
 				return callHandler[Node](ctx, w, true, &ArithmeticError{
 					Operation: FunctionRef{value: Function1(funParseNumber)},
-					Operands:  s,
+					Operands:  List(s),
 					Class:     class,
 				})
 			}
diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 0299285..971f688 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -189,13 +189,13 @@ func (p *_Parser[N]) tryParseAsInt(token string) (N, bool, error) {
 func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	if val, ok, err := p.tryParseAsFloat(token); ok {
 		if err != nil {
-			return p.Null(), true, fmt.Errorf("%w: (%s)", ErrCanNotParseNumber, err.Error())
+			return p.Null(), true, fmt.Errorf("%w: (%w)", ErrCanNotParseNumber, err)
 		}
 		return val, true, nil
 	}
 	if val, ok, err := p.tryParseAsInt(token); ok {
 		if err != nil {
-			return p.Null(), true, fmt.Errorf("%w (%s)", ErrCanNotParseNumber, err.Error())
+			return p.Null(), true, fmt.Errorf("%w (%w)", ErrCanNotParseNumber, err)
 		}
 		return val, true, nil
 	}
-- 
2.43.0


From 01bb64a6e9283ed7fea26240600ce3c2b65faa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 48/51] fix: trace reports a return only for calls that
 returned

---
 lambda.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambda.go b/lambda.go
index 1066036..59eddd7 100644
--- a/lambda.go
+++ b/lambda.go
@@ -289,16 +289,16 @@ func (L *_Lambda) call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 
 	result, err := prognWithTailRecOpt(ctx, L.lexical.Let(lexical), L.code, L.name)
+	if err != nil {
+		// return nil, fmt.Errorf("%s: %w", L.name, err)
+		return nil, err
+	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
 			L.name,
 			result)
 	}
-	if err != nil {
-		// return nil, fmt.Errorf("%s: %w", L.name, err)
-		return nil, err
-	}
 	return result, nil
 }
 
-- 
2.43.0


From 60819e70cfda5779775cefb6b8edafeb0ec5e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 49/51] fix: expand-defun shows the :rest parameter

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index 59eddd7..20cceb3 100644
--- a/lambda.go
+++ b/lambda.go
@@ -664,6 +664,9 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
 	var param Node
+	if f.rest != nulSymbol {
+		param = List(colonRest, f.rest)
+	}
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
-- 
2.43.0


From dc0539a1ef7c18d7de68c3f4cd32b8e1ed406183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 50/51] fix: trace called inside a traced function does not
 trace that function again

---
 lambda.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index 20cceb3..d2794ec 100644
--- a/lambda.go
+++ b/lambda.go
@@ -230,12 +230,13 @@ func (L *_Lambda) call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := w.trace[L.name]
+	traced := w.trace // the body may call trace, which replaces it
+	traceCount, traceDo := traced[L.name]
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		w.trace[L.name]++
+		traced[L.name]++
 		defer func() {
-			w.trace[L.name]--
+			traced[L.name]--
 		}()
 	}
 	for _, name := range L.param {
-- 
2.43.0


From 8d4b3a1c66281d4f45fde2457d01bb63f1bf139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 51/51] fix: mapcar and the like run forever when no list is
 given

---
 sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sequence.go b/sequence.go
index c35884a..46dd66e 100644
--- a/sequence.go
+++ b/sequence.go
@@ -136,6 +136,9 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
@@ -213,6 +216,9 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
-- 
2.43.0

