From 0c064511ff9d049bb914b217fc7b9f8a4f46f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 01/63] fix: keep addition lossless in the Go operating mode

The tiny-addend shortcut replaced far-away addends with a sticky digit
sized for the context's precision, which is only sound when the result
is rounded afterwards. Go mode never rounds sums.
---
 big_ctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..523ee88 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -123,7 +123,9 @@ func (c Context) add(z, x *Big, xform form, y *Big, yform form) form {
 //
 // tryTinyAdd reports whether the "tiny" addition was performed.
 func (c Context) tryTinyAdd(z *Big, X *Big, Xsign form, Y *Big, Ysign form) (form, bool) {
-	if X.isZero() {
+	// The Go operating mode is lossless, so the result must not
+	// be approximated.
+	if X.isZero() || c.OperatingMode != GDA {
 		return 0, false
 	}
 
-- 
2.43.0


From 5152c16f376b9a44ea03d413c694e0fd9a808ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 02/63] fix: round once and check the range after rounding

Results were rounded to etiny (or to the context's precision) first and
rounded again afterwards, overflow was only detected before rounding
and, for rounding modes other than the nearest ones, left a value that
is larger than the largest number. Quo ignored the exponent range
altogether, never reached the ideal exponent of exact quotients, and
dropped a digit when the quotient was inflated by a carry.
---
 big_ctx.go | 151 ++++++++++++++++++++++++-----------------------------
 util.go    | 119 +++++++++++++++++++++++++++--------------
 2 files changed, 148 insertions(+), 122 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 523ee88..bc65ce7 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2250,6 +2250,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		m     = c.RoundingMode
 		yp    = y.Precision() // stored since we might decrement it.
 		zp    = c.precision() // stored because of overhead.
+		tiny  = c.etiny()     // the quotient's smallest exponent.
 	)
 	if zp == UnlimitedPrecision {
 		m = unnecessary
@@ -2262,44 +2263,30 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		}
 
 		shift := zp + yp - x.Precision()
-		z.exp = (x.exp - y.exp) - shift
-		expadj := ideal - z.exp
+		adj := ideal - shift + zp - 1
+		shift = min(shift, ideal-tiny)
+		z.exp = ideal - shift
 		if shift > 0 {
 			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
-				if z.quo(m, sx, x.form, y.compact, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
+				return c.finishQuo(z, z.quo(m, sx, x.form, y.compact, y.form), adj, ideal)
 			}
 			xb := z.unscaled.SetUint64(x.compact)
 			xb = arith.MulBigPow10(xb, xb, uint64(shift))
 			yb := new(big.Int).SetUint64(y.compact)
 			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
+			return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, rb), adj, ideal)
 		}
 		if shift < 0 {
 			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
-				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
+				return c.finishQuo(z, z.quo(m, x.compact, x.form, sy, y.form), adj, ideal)
 			}
 			yb := z.unscaled.SetUint64(y.compact)
 			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
 			xb := new(big.Int).SetUint64(x.compact)
 			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
-		}
-		if z.quo(m, x.compact, x.form, y.compact, y.form) && expadj > 0 {
-			c.simpleReduce(z)
+			return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, rb), adj, ideal)
 		}
-		return z
+		return c.finishQuo(z, z.quo(m, x.compact, x.form, y.compact, y.form), adj, ideal)
 	}
 
 	xb, yb := &x.unscaled, &y.unscaled
@@ -2314,7 +2301,9 @@ func (c Context) Quo(z, x, y *Big) *Big {
 	}
 
 	shift := zp + yp - x.Precision()
-	z.exp = (x.exp - y.exp) - shift
+	adj := ideal - shift + zp - 1
+	shift = min(shift, ideal-tiny)
+	z.exp = ideal - shift
 
 	var tmp *big.Int
 	if shift > 0 {
@@ -2327,11 +2316,34 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		tmp = new(big.Int)
 	}
 
-	expadj := ideal - z.exp
-	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
-		c.simpleReduce(z)
+	return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)), adj, ideal)
+}
+
+// finishQuo finishes z, the result of a division where adj is
+// the adjusted exponent of the quotient prior to rounding and
+// ideal is the preferred exponent.
+//
+// Quo already rounds z to the Context's precision or, if z is
+// subnormal, to etiny.
+func (c Context) finishQuo(z *Big, exact bool, adj, ideal int) *Big {
+	if z.isSpecial() {
+		return z
 	}
-	return z
+	if exact {
+		if z.exp > ideal {
+			z.Context.Conditions |= Rounded
+		}
+		c.reduceTo(z, ideal)
+	} else {
+		if adj < c.emin() {
+			z.Context.Conditions |= Subnormal | Underflow
+		}
+		if z.isZero() {
+			z.Context.Conditions |= Clamped
+			return z
+		}
+	}
+	return c.fixTo(z, c.precision())
 }
 
 func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool {
@@ -2363,22 +2375,8 @@ func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool
 		z.Context.Conditions |= Rounded
 		z.compact++
 
-		// Test to see if we accidentally increased precision because of rounding.
-		// For example, given n = 17 and RoundingMode = ToNearestEven, rounding
-		//
-		//   0.9999999999999999994284
-		//
-		// results in
-		//
-		//   0.99999999999999999 (precision = 17)
-		//
-		// which is rounded up to
-		//
-		//   1.00000000000000000 (precision = 18)
-		if arith.Length(z.compact) != z.precision {
-			z.compact /= 10
-			z.exp++
-		}
+		// This might've increased the precision: for example, 99 + 1.
+		z.precision = arith.Length(z.compact)
 	}
 	return false
 }
@@ -2420,12 +2418,8 @@ func (z *Big) quoBig(
 
 	if m.needsInc(q.Bit(0) != 0, rc, xneg == yneg) {
 		z.Context.Conditions |= Rounded
-		z.precision = arith.BigLength(q)
+		// This might've increased the precision: for example, 99 + 1.
 		arith.Add(q, q, 1)
-		if arith.BigLength(q) != z.precision {
-			q.Quo(q, cst.TenInt)
-			z.exp++
-		}
 	}
 	z.norm()
 	return false
@@ -2662,13 +2656,19 @@ func (c Context) simpleReduce(z *Big) *Big {
 		return z
 	}
 
+	return c.reduceTo(z, arith.MaxInt)
+}
+
+// reduceTo removes trailing zeros from z, which must be finite
+// and non-zero, until its exponent is max.
+func (c Context) reduceTo(z *Big, max int) *Big {
 	if !z.isCompact() {
 		if z.unscaled.Bit(0) != 0 {
 			return z
 		}
 
 		var r big.Int
-		for z.precision >= 20 {
+		for z.precision >= 20 && z.exp <= max-6 {
 			z.unscaled.QuoRem(&z.unscaled, cst.OneMillionInt, &r)
 			if r.Sign() != 0 {
 				// TODO(eric): which is less expensive? Copying
@@ -2687,7 +2687,7 @@ func (c Context) simpleReduce(z *Big) *Big {
 			}
 		}
 
-		for z.precision >= 20 {
+		for z.precision >= 20 && z.exp < max {
 			z.unscaled.QuoRem(&z.unscaled, cst.TenInt, &r)
 			if r.Sign() != 0 {
 				z.unscaled.Mul(&z.unscaled, cst.TenInt)
@@ -2707,11 +2707,11 @@ func (c Context) simpleReduce(z *Big) *Big {
 		z.compact = z.unscaled.Uint64()
 	}
 
-	for ; z.compact >= 10000 && z.compact%10000 == 0; z.precision -= 4 {
+	for ; z.compact >= 10000 && z.compact%10000 == 0 && z.exp <= max-4; z.precision -= 4 {
 		z.compact /= 10000
 		z.exp += 4
 	}
-	for ; z.compact%10 == 0; z.precision-- {
+	for ; z.compact%10 == 0 && z.exp < max; z.precision-- {
 		z.compact /= 10
 		z.exp++
 	}
@@ -2786,35 +2786,14 @@ func (c Context) Round(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	return c.round(c.fix(z))
+	return c.fixTo(z, c.precision())
 }
 
 func (c Context) finish(z *Big) *Big {
-	c.fix(z)
 	if c.OperatingMode != GDA {
-		return z
-	}
-	return c.round(z)
-}
-
-// round rounds z to the Context's precision, if necessary.
-func (c Context) round(z *Big) *Big {
-	n := c.precision()
-	if n == UnlimitedPrecision || z.isSpecial() {
-		return z
-	}
-
-	p := z.Precision()
-	if p <= n {
-		// Does not need to be rounded.
-		return z
+		return c.fix(z)
 	}
-
-	shift := p - n
-	c.shiftr(z, uint64(shift))
-	z.exp += shift
-	z.Context.Conditions |= Rounded
-	return z
+	return c.fixTo(z, c.precision())
 }
 
 // RoundToInt rounds z down to an integral value.
@@ -2842,18 +2821,26 @@ func (c Context) shiftl(z *Big, n uint64) {
 	z.precision = arith.BigLength(&z.unscaled)
 }
 
+// shiftr discards the n least significant digits of z, rounding
+// the remaining digits, and reports whether the result is exact.
+// It does not adjust z's exponent.
 func (c Context) shiftr(z *Big, n uint64) bool {
-	if zp := uint64(z.Precision()); n >= zp {
-		z.compact = 0
-		z.precision = 1
-		return n == zp
+	if z.isZero() {
+		return true
 	}
 
-	if z.isZero() {
+	m := c.RoundingMode
+	if n > uint64(z.Precision()) {
+		// |z| is less than half of the last remaining digit.
+		z.compact = 0
+		z.precision = 1
+		z.Context.Conditions |= Inexact | Rounded
+		if m.needsInc(false, -1, !z.Signbit()) {
+			z.compact = 1
+		}
 		return false
 	}
 
-	m := c.RoundingMode
 	if z.isCompact() {
 		if y, ok := arith.Pow10(n); ok {
 			return z.quo(m, z.compact, z.form, y, 0)
diff --git a/util.go b/util.go
index 0b78071..e9a80a8 100644
--- a/util.go
+++ b/util.go
@@ -26,61 +26,100 @@ func (z *Big) norm() *Big {
 
 // fix check for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
-	adj := z.adjusted()
+	return c.fixTo(z, UnlimitedPrecision)
+}
 
-	if adj > c.emax() {
-		prec := c.precision()
+// fixTo checks for overflow, underflow, and clamping and rounds
+// z to prec digits, or fewer if z is subnormal. z is rounded at
+// most once.
+func (c Context) fixTo(z *Big, prec int) *Big {
+	if z.isSpecial() {
+		return z
+	}
 
-		if z.isZero() {
+	if z.isZero() {
+		if tiny := c.etiny(); z.exp < tiny {
+			z.exp = tiny
+			z.Context.Conditions |= Clamped
+		} else if z.exp > c.emax() {
 			z.exp = c.emax()
 			z.Context.Conditions |= Clamped
-			return z
 		}
-
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
-		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
-			}
-		}
-		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
 	}
 
-	if adj < c.emin() {
-		tiny := c.etiny()
-
-		if z.isZero() {
-			if z.exp < tiny {
-				z.setZero(z.form, tiny)
-				z.Context.Conditions |= Clamped
-			}
-			return z
-		}
+	adj := z.adjusted()
+	if adj > c.emax() {
+		return c.overflow(z)
+	}
 
+	shift := 0 // number of digits to discard.
+	if prec != UnlimitedPrecision {
+		shift = z.Precision() - prec
+	}
+	subnormal := adj < c.emin()
+	if subnormal {
 		z.Context.Conditions |= Subnormal
-		if z.exp < tiny {
-			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
-			}
-			z.exp = tiny
-			z.Context.Conditions |= Underflow
-			if z.isZero() {
-				z.Context.Conditions |= Clamped
-			}
+		if n := c.etiny() - z.exp; n > shift {
+			shift = n
 		}
 	}
+	if shift <= 0 {
+		return z
+	}
+
+	exp := z.exp + shift
+	exact := c.shiftr(z, uint64(shift))
+	z.exp = exp
+	z.Context.Conditions |= Rounded
+
+	if z.isZero() {
+		z.Context.Conditions |= Clamped
+	} else if z.Precision() > prec {
+		// Rounding carried into a new digit.
+		z.dropDigit()
+	}
+	if subnormal && !exact {
+		z.Context.Conditions |= Underflow
+	}
+	if z.adjusted() > c.emax() {
+		return c.overflow(z)
+	}
 	return z
 }
 
+// overflow sets z, whose adjusted exponent is too large, to
+// infinity or the largest finite number with z's sign, depending
+// on the RoundingMode.
+func (c Context) overflow(z *Big) *Big {
+	z.Context.Conditions |= Overflow | Inexact | Rounded
+
+	prec := c.precision()
+	switch m := c.RoundingMode; {
+	case prec == UnlimitedPrecision:
+		// There isn't a largest finite number.
+	case m == ToZero,
+		m == ToPositiveInf && z.Signbit(),
+		m == ToNegativeInf && !z.Signbit():
+		maxfor(&z.unscaled, prec, +1)
+		z.exp = c.etop()
+		return z.norm()
+	}
+	return z.SetInf(z.Signbit())
+}
+
+// dropDigit removes the least significant digit of z.
+func (z *Big) dropDigit() {
+	if z.isCompact() {
+		z.compact /= 10
+		z.precision = arith.Length(z.compact)
+	} else {
+		z.unscaled.Quo(&z.unscaled, cst.TenInt)
+		z.norm()
+	}
+	z.exp++
+}
+
 // alias returns z if z != x, otherwise a newly-allocated big.Int.
 func alias(z, x *big.Int) *big.Int {
 	if z != x {
-- 
2.43.0


From 9d8de8836bfbf6edb42a69ebe8ca71234a7a3ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 03/63] fix: compare the remainder with the divisor, not with
 the quotient

When the receiver's storage held the divisor, quoBig overwrote it with
the quotient before deciding which way to round.
---
 big_ctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index bc65ce7..a0ceda8 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2390,6 +2390,9 @@ func (z *Big) quoBig(
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
+	if y == &z.unscaled {
+		y = new(big.Int).Set(y) // used after z is set.
+	}
 	q, r := z.unscaled.QuoRem(x, y, r)
 	if r.Sign() == 0 {
 		z.norm()
-- 
2.43.0


From 0615d5c03cda8bf68d4c3a068b16e5de854a34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 04/63] fix: keep every digit and the sign of zero in Ceil

Ceil negated its argument twice with Neg, which rounds to the context's
precision and turns -0 into 0. Round towards positive infinity instead,
as Floor does towards negative infinity.
---
 big_ctx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index a0ceda8..95818be 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -866,8 +866,11 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	if z.CheckNaNs(x, nil) {
+		return z
+	}
+	c.RoundingMode = ToPositiveInf
+	return c.RoundToInt(z.Copy(x))
 }
 
 // E sets z to the mathematical constant e and returns z.
-- 
2.43.0


From 22e0a42a4cd3a58d4453ac2bd126a510319567fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 05/63] fix: check the result of Quantize against the context

Rounding may carry into one digit more than the precision, which has to
yield NaN, and subnormal results were not reported. RoundToInt ignored
signaling NaNs and invalid contexts.
---
 big_ctx.go | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 95818be..b30c2d2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2167,37 +2167,24 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		return z.setNaN(InvalidOperation, qnan, quantprec)
 	}
 
-	z.exp = n
-	if shift == 0 {
-		return z
-	}
-
+	cond := z.Context.Conditions
 	if shift < 0 {
 		z.Context.Conditions |= Rounded
-	}
-
-	m := c.RoundingMode
-	neg := z.form & signbit
-	if z.isCompact() {
-		if shift > 0 {
-			if zc, ok := arith.MulPow10(z.compact, uint64(shift)); ok {
-				return z.setTriple(zc, neg, n)
-			}
-			// shift < 0
-		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
-			z.quo(m, z.compact, neg, yc, 0)
-			return z
+		c.shiftr(z, uint64(-shift))
+		if z.Precision() > c.precision() {
+			// Rounding carried into a new digit.
+			z.Context.Conditions = cond
+			return z.setNaN(InvalidOperation, qnan, quantprec)
 		}
-		z.unscaled.SetUint64(z.compact)
-		z.compact = cst.Inflated
-	}
-
-	if shift > 0 {
-		arith.MulBigPow10(&z.unscaled, &z.unscaled, uint64(shift))
-		z.precision = arith.BigLength(&z.unscaled)
 	} else {
-		var r big.Int
-		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
+		c.shiftl(z, uint64(shift))
+	}
+	z.exp = n
+	if adj := z.adjusted(); adj > c.emax() {
+		z.Context.Conditions = cond
+		return z.setNaN(InvalidOperation, qnan, quantminmax)
+	} else if adj < c.emin() && !z.isZero() {
+		z.Context.Conditions |= Subnormal
 	}
 	return z
 }
@@ -2804,7 +2791,7 @@ func (c Context) finish(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
-	if z.isSpecial() || z.exp >= 0 {
+	if z.invalidContext(c) || z.checkNaNs(z, z, 0) || z.isSpecial() || z.exp >= 0 {
 		return z
 	}
 	c.Precision = z.Precision()
-- 
2.43.0


From a6009b03f2af837bd6c67a78476340f1bc727b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 06/63] fix: keep the exponent of a zero remainder in range

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index b30c2d2..06f2166 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2734,7 +2734,7 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		}
 		if x.isZero() {
 			// 0 / y
-			return z.setZero(x.form&signbit, min(x.exp, y.exp))
+			return c.fix(z.setZero(x.form&signbit, min(x.exp, y.exp)))
 		}
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
-- 
2.43.0


From b10af08a09838035122a4c66adf2cfdb4a06fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 07/63] fix: round square roots once, half even

Sqrt rounded its approximation to precision+5 digits half even and then
again using the context's rounding mode, so both the value and the
Inexact and Rounded conditions could be wrong; it never terminated for
an unlimited precision and left zeros outside of the exponent range.
---
 big_ctx.go | 117 ++++++++++++++++++++---------------------------------
 const.go   |   6 +--
 2 files changed, 44 insertions(+), 79 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 06f2166..cec9162 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2845,93 +2845,62 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 	return z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
 }
 
-// Sqrt sets z to the square root of x and returns z.
+// Sqrt sets z to the square root of x, rounded to the nearest
+// even value, and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if debug {
+		x.validate()
+	}
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 
-	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
-	if xs := x.Sign(); xs <= 0 {
-		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
-		}
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
-	}
+	// The result is rounded half even, regardless of the
+	// Context's RoundingMode.
+	// http://speleotrove.com/decimal/daops.html#refsqrt
+	c.RoundingMode = ToNearestEven
 
-	// Already checked for negative numbers.
-	if x.IsInf(+1) {
+	ideal := (x.exp - (x.exp & 1)) / 2
+	if x.IsFinite() && x.isZero() {
+		return c.fix(z.setZero(x.form&signbit, ideal))
+	}
+	if x.Signbit() {
+		return z.setNaN(InvalidOperation, qnan, 0)
+	}
+	if x.IsInf(0) {
 		return z.SetInf(false)
 	}
 
-	var (
-		prec = c.precision()
-		ctx  = Context{Precision: prec}
-		rnd  = z.Context.Conditions&Rounded != 0
-		ixt  = z.Context.Conditions&Inexact != 0
-	)
-
-	// Source for the following algorithm:
-	//
-	//  T. E. Hull and A. Abrham. 1985. Properly rounded variable
-	//  precision square root. ACM Trans. Math. Softw. 11,
-	//  3 (September 1985), 229-237.
-	//  DOI: https://doi.org/10.1145/214408.214413
-
-	xprec := x.Precision()
-
-	// The algorithm requires a normalized "f in [0.1, 1)"
-	// Of the two ways to normalize f, adjusting its scale is
-	// the quickest. However, it then requires us to
-	// increment approx's scale by e/2 instead of simply
-	// setting it to e/2.
-	f := new(Big).Copy(x)
-	f.exp = -xprec
-	e := x.exp + xprec
-
-	var tmp Big // scratch space
-
-	if e&1 == 0 {
-		ctx.FMA(z, approx2.get(), f, approx1.get()) // approx := .259 + .819f
-	} else {
-		f.exp--                                     // f := f/10
-		e++                                         // e := e + 1
-		ctx.FMA(z, approx4.get(), f, approx3.get()) // approx := .0819 + 2.59f
+	// Compute the integer square root of x * 10^(2*-exp), which
+	// has at least one more digit than the precision.
+	exp := ideal
+	if c.precision() != UnlimitedPrecision {
+		adj := x.adjusted()
+		exp = min(ideal, (adj-(adj&1))/2-c.precision())
 	}
-
-	maxp := prec + 5 // extra prec to skip weird +/- 0.5 adjustments
-	ctx.Precision = 3
-	pt5 := ptFive.get()
-	for {
-		// p := min(2*p - 2, maxp)
-		ctx.Precision = min(2*ctx.Precision-2, maxp)
-
-		// approx := .5*(approx + f/approx)
-		ctx.Mul(z, pt5, ctx.Add(&tmp, z, ctx.Quo(&tmp, f, z)))
-		if ctx.Precision == maxp {
-			break
-		}
+	n := &x.unscaled
+	if x.isCompact() {
+		n = new(big.Int).SetUint64(x.compact)
 	}
+	n = arith.MulBigPow10(new(big.Int), n, uint64(x.exp-2*exp))
 
-	// The paper also specifies an additional code block for
-	// adjusting approx.  This code never went into the branches
-	// that modified approx, and rounding to half even does the
-	// same thing. The GDA spec requires us to use rounding mode
-	// half even (speleotrove.com/decimal/daops.html#refsqrt)
-	// anyway.
-
-	z.exp += e / 2
-	ctx.Reduce(z)
-	if z.Precision() <= prec {
-		if !rnd {
-			z.Context.Conditions &= ^Rounded
-		}
-		if !ixt {
-			z.Context.Conditions &= ^Inexact
+	q := z.unscaled.Sqrt(n)
+	exact := new(big.Int).Mul(q, q).Cmp(n) == 0
+	if !exact {
+		if c.precision() == UnlimitedPrecision {
+			return z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
 		}
+		// Add a sticky digit so that it's rounded properly.
+		arith.Add(q, q.Mul(q, cst.TenInt), 1)
+		exp--
 	}
-	return c.finish(z)
+	z.form = 0
+	z.exp = exp
+	z.norm()
+	if exact {
+		c.reduceTo(z, ideal)
+	}
+	return c.fixTo(z, c.precision())
 }
 
 // sqrt3 sets z to sqrt(3) and returns z.
diff --git a/const.go b/const.go
index 5c39b55..1737af2 100644
--- a/const.go
+++ b/const.go
@@ -35,11 +35,7 @@ var (
 	_Pi2   = newLazyDecimal("1.57079632679489661923132169163975144209858469968755291048747229615390820314310449931401741267105853399107404325664115332354692230477529111586267970406424055872514205135096926055277982231147447746519098221440548783296672306423782411689339158263560095457282428346173017430522716332410669680363012457064")
 	_Sqrt3 = newLazyDecimal("1.73205080756887729352744634150587236694280525381038062805580697945193301690880003708114618675724857567562614141540670302996994509499895247881165551209437364852809323190230558206797482010108467492326501531234326690332288665067225466892183797122704713166036786158801904998653737985938946765034750657605")
 
-	approx1 = newLazyDecimal("0.259")
-	approx2 = newLazyDecimal("0.819")
-	approx3 = newLazyDecimal("0.0819")
-	approx4 = newLazyDecimal("2.59")
-	ptFive  = newLazyDecimal("0.5")
+	ptFive = newLazyDecimal("0.5")
 
 	_10005             = newLazyDecimal("10005")
 	_426880            = newLazyDecimal("426880")
-- 
2.43.0


From 4a90af03ebcc6adfc085995a5406df927396d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 08/63] fix: compute Atan's series and constants with the extra
 precision

The series was summed at the caller's precision and then multiplied by
up to 2^n to undo the argument reduction.
---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index cec9162..aaf91a3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -446,7 +446,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
@@ -464,7 +464,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	// set 2: 1 < value               // then result = pi/2 - result
 	switch segment {
 	case 1:
-		piOver6 := c.pi(tmp) // clobber _2p
+		piOver6 := ctx.pi(tmp) // clobber _2p
 		ctx.Quo(piOver6, piOver6, six.get())
 		ctx.Add(z, piOver6, z)
 	case 2:
-- 
2.43.0


From d336e9b7137987cff1b11b3f6d64cfb66d7c5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 09/63] fix: make FMA independent of earlier conditions

FMA returned the bare product if InvalidOperation had been raised by an
earlier operation, and dropped its own conditions when z == u.
---
 big_ctx.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index aaf91a3..b4386c1 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1188,13 +1188,19 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	// z.FMA(x, y, z) without clobbering z partway through.
 	z0 := z
 	if z == u {
-		z0 = WithContext(c)
+		z0 = WithContext(z.Context)
 	}
+	// Conditions are sticky, so clear InvalidOperation to test
+	// whether it's the multiplication that's invalid.
+	cond := z0.Context.Conditions
+	z0.Context.Conditions &^= InvalidOperation
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	invalid := z0.Context.Conditions&InvalidOperation != 0
+	z0.Context.Conditions |= cond
+	if !invalid {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
+	z.Context.Conditions |= z0.Context.Conditions
 	return z.setShared(z0)
 }
 
-- 
2.43.0


From e85222b127aac8b58ca5d1be2a53fcb501e84667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 10/63] fix: make QuoRem return the remainder

The remainder's exponent was never set (5.5 rem 2 was 15), 0 / 0 was
infinite instead of NaN, x / Inf lost x, and quotients longer than the
precision weren't rejected.
---
 big_ctx.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b4386c1..339f85b 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2496,6 +2496,7 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
@@ -2504,11 +2505,24 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			rexp, rsign := min(x.exp, y.exp), x.form&signbit
+			z.setZero(sign, 0)
+			r.setZero(rsign, rexp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		rexp := min(x.exp, y.exp)
+		c.quorem(z, r, x, y)
+		if z.isSpecial() {
+			return z, r
+		}
+		z.exp = 0
+		r.exp = rexp
+		if z.Precision() > c.precision() {
+			z.setNaN(DivisionImpossible, qnan, quointprec)
+			r.setNaN(DivisionImpossible, qnan, quointprec)
+			return z, r
+		}
+		return z, c.finish(r)
 	}
 
 	// NaN / NaN
@@ -2528,10 +2542,8 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
 	}
 	// x / ±Inf
-	z.Context.Conditions |= Clamped
-	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
-	return z, r
+	c.Set(r, x)
+	return z.setZero(sign, 0), r
 }
 
 func (c Context) quorem(z0, z1, x, y *Big) (*Big, *Big) {
-- 
2.43.0


From e0761c1a9fe86c9af3e8e1804e1019523f63a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 11/63] fix: use the given context in Abs and Sub

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 339f85b..2fe5332 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
@@ -3035,7 +3035,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return c.Neg(z, y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From bece5797203bef11fa067c5cbdfebac85671e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 12/63] fix: compare every digit in cmpInt and cmpAbsInt

They truncated x, so Acos(1.5) and Asin(1.5) were not NaN, and misread
inflated values and zeros with an exponent.
---
 big.go | 52 ++++++----------------------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..e0d6122 100644
--- a/big.go
+++ b/big.go
@@ -394,56 +394,16 @@ func (x *Big) CmpAbs(y *Big) int {
 	return cmp(x, y, true)
 }
 
+// cmpInt compares x and y.
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	var y0 Big
+	return cmp(x, y0.SetMantScale(y, 0), false)
 }
 
+// cmpAbsInt compares |x| and |y|.
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
-	}
-	return arith.Cmp(t, u)
+	var y0 Big
+	return cmp(x, y0.SetMantScale(y, 0), true)
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
-- 
2.43.0


From 830cbd728eadd402ceac65483d4907013ae7aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 13/63] fix: signal NaN results of Acos, Asin, Atan2, Cos, Log,
 Pow, Sin and Tan

Use setNaN so that the Go operating mode panics with ErrNaN, and check
both arguments of Atan2 for NaN.
---
 big_ctx.go | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 2fe5332..92d683f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -331,8 +331,7 @@ func (c Context) Acos(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -377,8 +376,7 @@ func (c Context) Asin(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -623,7 +621,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan2) {
 		return z
 	}
 
@@ -709,13 +707,12 @@ func (c Context) Cos(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, sin) {
+	if z.checkNaNs(x, x, cos) {
 		return z
 	}
 
 	if x.IsInf(0) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx := c.dup()
@@ -723,8 +720,7 @@ func (c Context) Cos(z, x *Big) *Big {
 
 	negXSq, halved, ok := ctx.prepCosine(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx.Precision += halved
@@ -1237,7 +1233,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, log10) {
+	if z.checkNaNs(x, x, log) {
 		return z
 	}
 	if logSpecials(z, x) {
@@ -1285,8 +1281,7 @@ func logSpecials(z, x *Big) bool {
 			z.SetInf(true)
 		} else {
 			// log -x is undefined.
-			z.Context.Conditions |= InvalidOperation
-			z.SetNaN(false)
+			z.setNaN(InvalidOperation, qnan, 0)
 		}
 		return true
 	}
@@ -1993,8 +1988,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s == 0 {
 			if y.Sign() == 0 {
 				// 0 ** 0 is undefined
-				z.Context.Conditions |= InvalidOperation
-				return z.SetNaN(false)
+				return z.setNaN(InvalidOperation, qnan, 0)
 			}
 			if y.Signbit() {
 				// 0 ** -y = +Inf
@@ -2006,8 +2000,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
 			// -x ** ±Inf is undefined
-			z.Context.Conditions |= InvalidOperation
-			return z.SetNaN(false)
+			return z.setNaN(InvalidOperation, qnan, 0)
 		}
 	}
 
@@ -2982,8 +2975,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// sin(inf) = NaN
 		// sin(NaN) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3061,8 +3053,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
 		// tan(inf) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	ctx := c.dup()
@@ -3070,8 +3061,7 @@ func (c Context) Tan(z, x *Big) *Big {
 
 	x0, ok := ctx.prepTan(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-- 
2.43.0


From 0890f1e03cb245b84ff193fc9f9880520900bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 14/63] fix: compute the trigonometric functions with enough
 intermediate precision

---
 big_ctx.go | 239 +++++++++++++++++++++++------------------------------
 const.go   |   1 -
 2 files changed, 104 insertions(+), 136 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 92d683f..dd75eff 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -306,6 +306,12 @@ func (c Context) addBig(z *Big, X *big.Int, Xsign form, Y *big.Int, Ysign form,
 	return sign
 }
 
+// working returns a Context for intermediate computations that has extra more
+// digits of precision than c.
+func (c Context) working(extra int) Context {
+	return Context{Precision: c.precision() + extra}
+}
+
 // Acos returns the arccosine, in radians, of x.
 //
 // Range:
@@ -341,14 +347,18 @@ func (c Context) Acos(z, x *Big) *Big {
 		return z.SetUint64(0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.working(defaultExtraPrecision)
 
-	// Acos(x) = pi/2 - arcsin(x)
+	// Acos(x) = 2 * atan(sqrt((1 - x) / (1 + x)))
+
+	tmp := ctx.Add(getDec(ctx), one.get(), x) //           1 + x
+	ctx.Sub(z, one.get(), x)                  //           1 - x
+	ctx.Quo(z, z, tmp)                        //          (1 - x) / (1 + x)
+	putDec(tmp)
+	ctx.Sqrt(z, z)           //     sqrt((1 - x) / (1 + x))
+	ctx.Atan(z, z)           //     atan(sqrt((1 - x) / (1 + x)))
+	ctx.Mul(z, z, two.get()) // 2 * atan(sqrt((1 - x) / (1 + x)))
 
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Sub(z, pi2, ctx.Asin(z, x))
-	putDec(pi2)
 	return c.finish(z)
 }
 
@@ -387,8 +397,7 @@ func (c Context) Asin(z, x *Big) *Big {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.working(defaultExtraPrecision)
 
 	// Asin(x) = 2 * atan(x / (1 + sqrt(1 - x*x)))
 
@@ -396,8 +405,8 @@ func (c Context) Asin(z, x *Big) *Big {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
 	}
-	c.Mul(z, x, x)           //                            x*x
-	ctx.Sub(z, one.get(), z) //                        1 - x*x
+	z.CopyNeg(x)
+	ctx.FMA(z, z, x, one.get()) //                     1 - x*x
 	ctx.Sqrt(z, z)           //                   sqrt(1 - x*x)
 	ctx.Add(z, one.get(), z) //               1 + sqrt(1 - x*x)
 	ctx.Quo(z, x, z)         //          x / (1 + sqrt(1 - x*x))
@@ -433,8 +442,7 @@ func (c Context) Atan(z, x *Big) *Big {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.working(defaultExtraPrecision)
 
 	// when x <-1 we use -atan(-x) instead
 	if cmpInt(x, -1) < 0 {
@@ -625,8 +633,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := c.working(defaultExtraPrecision)
 
 	switch {
 	// Special values.
@@ -636,8 +643,9 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
+		xs := x.Sign() // in case z == x.
 		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
+		if xs < 0 {
 			pi := ctx.pi(getDec(ctx))
 			if z.Sign() <= 0 {
 				ctx.Add(z, z, pi)
@@ -715,12 +723,34 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if z == x {
+		x = getDec(c).Copy(x)
+		defer putDec(x)
+	}
+
+	// The error of cos is absolute, so the closer it is to zero the
+	// more precision it needs.
+	ctx := c.working(defaultExtraPrecision)
+	for lost := 0; ; {
+		ctx.Precision += lost
+		if !ctx.cos(z, x) {
+			return z.setNaN(InvalidOperation, qnan, 0)
+		}
+		prec := ctx.Precision - c.precision() - defaultExtraPrecision
+		if lost = -(z.adjusted() + 1) - prec; lost <= 0 {
+			break
+		}
+	}
+	return c.finish(z)
+}
 
+// cos sets z to the cosine of x with an absolute error of about
+// 10^-c.Precision and reports whether it could be computed.
+func (c Context) cos(z, x *Big) bool {
+	ctx := c
 	negXSq, halved, ok := ctx.prepCosine(z, x)
 	if !ok {
-		return z.setNaN(InvalidOperation, qnan, 0)
+		return false
 	}
 
 	ctx.Precision += halved
@@ -737,8 +767,7 @@ func (c Context) Cos(z, x *Big) *Big {
 		ctx.Mul(z, z, two.get())
 		ctx.Sub(z, z, one.get())
 	}
-
-	return c.finish(z)
+	return true
 }
 
 func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
@@ -751,32 +780,23 @@ func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
 	var twoPi Big
 
 	// For better results, we need to make sure the value we're
-	// working with a value is closer to zero.
-	c.Mul(&twoPi, c.pi(&twoPi), two.get()) // 2 * Pi
+	// working with a value is closer to zero. The digits in front
+	// of x's radix cancel, so compute that many more.
+	pctx := c
+	pctx.Precision += max(x.adjusted()+1, 0)
+	if pctx.Precision > arith.MaxInt-defaultExtraPrecision || pctx.Precision < c.Precision {
+		return nil, 0, false
+	}
+	pctx.Mul(&twoPi, pctx.pi(&twoPi), two.get()) // 2 * Pi
 	if x.CmpAbs(&twoPi) >= 0 {
 		// For cos to work correctly the input must be in (-2Pi,
 		// 2Pi).
-		c.Quo(&tmp, x, &twoPi)
+		pctx.Quo(&tmp, x, &twoPi)
 		v, ok := tmp.Int64()
 		if !ok {
 			return nil, 0, false
 		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be wildly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, 0, false
-		}
-		pctx := Context{Precision: int(prec)}
-
-		if uv <= math.MaxInt64/2 {
-			tmp.SetMantScale(v, 0)
-		}
-
-		pctx.Mul(&tmp, &twoPi, &tmp)
+		pctx.Mul(&tmp, &twoPi, tmp.SetMantScale(v, 0))
 
 		// so toRemove = 2*Pi*v so x - toRemove < 2*Pi
 		c.Sub(z, x, &tmp)
@@ -2984,12 +3004,40 @@ func (c Context) Sin(z, x *Big) *Big {
 	}
 
 	// Sin(x) = Cos(pi/2 - x)
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Cos(z, ctx.Sub(z, pi2, x))
-	putDec(pi2)
-
+	//
+	// The digits x and pi/2 do not share are lost, as are the ones
+	// in front of the result's first digit.
+	if z == x {
+		x = getDec(c).Copy(x)
+		defer putDec(x)
+	}
+	ctx := c.working(defaultExtraPrecision)
+	if adj := x.adjusted(); adj >= 0 {
+		ctx.Precision += adj + 1
+	} else if -2*adj > ctx.Precision {
+		// Sin(x) = x - x**3/6 + ..., all but the first term is too
+		// small to matter except for the direction of rounding.
+		tiny := getDec(ctx).SetMantScale(1, 0)
+		tiny.exp = 3*adj - x.Precision()
+		tiny.SetSignbit(x.Signbit())
+		c.OperatingMode = GDA
+		c.Sub(z, x, tiny)
+		putDec(tiny)
+		return z
+	}
+	pi2 := getDec(ctx)
+	defer putDec(pi2)
+	for prec := ctx.Precision; ; {
+		ctx.Sub(z, ctx.pi2(pi2), x)
+		if !ctx.cos(z, z) {
+			return z.setNaN(InvalidOperation, qnan, 0)
+		}
+		lost := -(z.adjusted() + 1) - (ctx.Precision - prec)
+		if lost <= 0 {
+			break
+		}
+		ctx.Precision += lost
+	}
 	return c.finish(z)
 }
 
@@ -3056,97 +3104,18 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-
-	x0, ok := ctx.prepTan(z, x)
-	if !ok {
-		return z.setNaN(InvalidOperation, qnan, 0)
-	}
-
-	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-
-	// tangent has an asymptote at pi/2 and we'll need more
-	// precision as we get closer the reason we need it is as we
-	// approach pi/2 is due to the squaring portion, it will
-	// cause the small value of Cosine to be come extremely
-	// small. we COULD fix it by simply doubling the precision,
-	// however, when the precision gets larger it will be
-	// a significant impact to performance, instead we'll only
-	// add the extra precision when we need it by using the
-	// difference to see how much extra precision we need we'll
-	// speed things up by only using a quick compare to see if we
-	// need to do a deeper inspection.
-	tctx := ctx.dup()
-	tmp := getDec(tctx)
-	defer putDec(tmp)
-
-	if x.CmpAbs(onePtFour.get()) >= 0 {
-		if x.Signbit() {
-			ctx.Add(tmp, x, ctx.pi2(tmp))
-		} else {
-			ctx.Sub(tmp, x, ctx.pi2(tmp))
-		}
-		tctx.Precision += tmp.Scale() - tmp.Precision()
-	}
-
-	tctx.Cos(tmp, x0)
-	ctx.Mul(tmp, tmp, tmp)
-	ctx.Quo(tmp, one.get(), tmp)
-	ctx.Sub(tmp, tmp, one.get())
-	tctx.Sqrt(tmp, tmp)
-	if x0.Signbit() {
-		tmp.CopyNeg(tmp)
-	}
-	ctx.Precision -= defaultExtraPrecision
-	return ctx.Set(z, tmp)
-}
-
-func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
+	if x.isZero() {
+		// tan(0) = 0
+		return z.setZero(0, 0)
 	}
 
-	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
-		// For tan to work correctly the input must be in (-2pi,
-		// 2pi)
-		if x.Signbit() {
-			c.Add(z, x, pi2)
-		} else {
-			c.Sub(z, x, pi2)
-		}
-
-		var tmp Big
-		c.QuoInt(z, z, c.pi(&tmp))
-		if x.Signbit() {
-			c.Sub(z, z, one.get())
-		} else {
-			c.Add(z, z, one.get())
-		}
-
-		v, ok := z.Int64()
-		if !ok {
-			return nil, false
-		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be widly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, false
-		}
-		pctx := Context{Precision: int(prec)}
-
-		pctx.Mul(z, pctx.pi(&tmp), z)
-
-		c.Precision = c.precision() + 1
-		// so toRemove = m*Pi so |x-toRemove| < Pi/2
-		c.Sub(z, x, z)
-	} else {
-		z.Copy(x)
+	// tan(x) = sin(x) / cos(x)
+	ctx := c.working(defaultExtraPrecision)
+	cosx := ctx.Cos(getDec(ctx), x)
+	defer putDec(cosx)
+	ctx.Sin(z, x)
+	if z.IsNaN(0) || cosx.IsNaN(0) {
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
-	return z, true
+	return c.Quo(z, z, cosx)
 }
diff --git a/const.go b/const.go
index 1737af2..7be6321 100644
--- a/const.go
+++ b/const.go
@@ -46,7 +46,6 @@ var (
 	negFour   = newLazyDecimal("-4")
 	negOne    = newLazyDecimal("-1")
 	one       = newLazyDecimal("1")
-	onePtFour = newLazyDecimal("1.4")
 	two       = newLazyDecimal("2")
 	three     = newLazyDecimal("3")
 	four      = newLazyDecimal("4")
-- 
2.43.0


From 1294dab98e31c24001eec783b0b32035ca500a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 15/63] fix: apply the default precision in Exp

---
 big_ctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big_ctx.go b/big_ctx.go
index dd75eff..68c03d5 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -944,6 +944,7 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	c = c.dup()
 	z = c.exp(z, x)
 	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
 		s := c.Precision - z.Precision()
-- 
2.43.0


From be74039e539d9661b66279d6d375e803d3abc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 16/63] fix: use the given context in Hypot

---
 big_ctx.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 68c03d5..16ccd89 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1223,12 +1223,11 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
-	if z.CheckNaNs(p, q) {
+	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision++
+	ctx := c.working(defaultExtraPrecision)
 
 	p0 := getDec(ctx)
 	ctx.Mul(p0, p, p)
-- 
2.43.0


From 9cb72197a682c8e1c4bc2f7689143215d27267c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 17/63] fix: round E once

---
 big_ctx.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 16ccd89..906bd3d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -902,8 +902,7 @@ func (c Context) E(z *Big) *Big {
 		prev = new(Big)
 	)
 
-	ctx := c
-	ctx.Precision += 5
+	ctx := c.working(5)
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
 		// Use term as our intermediate storage for our
 		// factorial. SetUint64 should be marginally faster than
@@ -915,7 +914,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	return c.finish(sum)
 }
 
 // Exp sets z to e**x and returns z.
-- 
2.43.0


From f5ae833d06788d1b80646174c441cd12f4fdba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 18/63] fix: reject malformed strings and exponents out of
 range in SetString

---
 scan.go | 108 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 47 deletions(-)

diff --git a/scan.go b/scan.go
index 69f9a25..981a38b 100644
--- a/scan.go
+++ b/scan.go
@@ -42,14 +42,11 @@ func (z *Big) scan(r io.ByteScanner) error {
 
 	z.form, err = z.scanForm(r)
 	if err != nil {
-		switch err {
-		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
-		default:
-			return err
+		if err == ConversionSyntax {
+			return z.syntaxError()
 		}
-		return nil
+		z.compact = 0
+		return err
 	}
 
 	if z.isSpecial() {
@@ -61,33 +58,36 @@ func (z *Big) scan(r io.ByteScanner) error {
 
 	// Mantissa (as a unsigned integer)
 	if err := z.scanMant(r); err != nil {
-		switch err {
-		case io.EOF:
-			z.form = qnan
-			return io.ErrUnexpectedEOF
-		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
-		default:
-			return err
+		if err == ConversionSyntax {
+			return z.syntaxError()
 		}
-		return nil
+		return err
 	}
 
 	// Exponent
-	if err := z.scanExponent(r); err != nil && err != io.EOF {
+	if err := z.scanExponent(r); err != nil {
 		switch err {
 		case Underflow:
+			if z.isZero() {
+				z.exp = MinScale
+				z.Context.Conditions |= Clamped
+				break
+			}
 			z.xflow(MinScale, false, neg)
+			return nil
 		case Overflow:
+			if z.isZero() {
+				z.exp = MaxScale
+				z.Context.Conditions |= Clamped
+				break
+			}
 			z.xflow(MinScale, true, neg)
+			return nil
 		case ConversionSyntax:
-			z.form = qnan
-			z.Context.Conditions |= ConversionSyntax
+			return z.syntaxError()
 		default:
 			return err
 		}
-		return nil
 	}
 
 	// Adjust for negative values.
@@ -97,6 +97,15 @@ func (z *Big) scan(r io.ByteScanner) error {
 	return nil
 }
 
+// syntaxError sets z to the result of converting an invalid
+// string.
+func (z *Big) syntaxError() error {
+	z.form = qnan
+	z.compact = 0 // payload
+	z.Context.Conditions |= ConversionSyntax
+	return nil
+}
+
 func scanSign(r io.ByteScanner) (bool, error) {
 	ch, err := r.ReadByte()
 	if err != nil {
@@ -205,6 +214,12 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
+	if _, err := r.ReadByte(); err != io.EOF {
+		if err != nil {
+			return 0, err
+		}
+		return 0, ConversionSyntax
+	}
 	return inf, nil
 }
 
@@ -268,6 +283,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -300,6 +319,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -312,13 +334,12 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		r.UnreadByte()
 	}
 
-	max := uint64(arith.MaxInt)
-	if neg {
-		max++ // -math.MinInt
-	}
+	// Any larger exponent is out of range, no matter how many digits follow
+	// the radix.
+	const max = arith.MaxInt / 2
 
-	var exp uint64
-	for {
+	var exp, digits int
+	for ; ; digits++ {
 		ch, err := r.ReadByte()
 		if err != nil {
 			if err == io.EOF {
@@ -329,30 +350,23 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if ch < '0' || ch > '9' {
 			return ConversionSyntax
 		}
-		d := ch - '0'
-		if d >= 10 {
-			return ConversionSyntax
-		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
-		}
-		exp *= 10
-
-		v := exp + uint64(d)
-		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
+		if d := int(ch - '0'); exp <= (max-d)/10 {
+			exp = exp*10 + d
+		} else {
+			exp = max
 		}
-		exp = v
+	}
+	if digits == 0 {
+		return ConversionSyntax
 	}
 
 	if neg {
-		z.exp -= int(exp)
-	} else {
-		z.exp += int(exp)
+		exp = -exp
+	}
+	if z.exp += exp; z.exp > MaxScale {
+		return Overflow
+	} else if z.exp < MinScale-MaxPrecision {
+		return Underflow
 	}
 	return nil
 }
-- 
2.43.0


From 143d3dc84be27e09c856a1cea5ea15098c241ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 19/63] fix: make Regexp match signed infinities and Infinity

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index e0d6122..bcef672 100644
--- a/big.go
+++ b/big.go
@@ -1597,7 +1597,7 @@ func (z *Big) SetScale(scale int) *Big {
 
 // Regexp matches any valid string representing a decimal that
 // can be passed to SetString.
-var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(inf(infinity)?))|([+-]?([sq]?nan\d*))`)
+var Regexp = regexp.MustCompile(`(?i)[+-]?((\d+\.\d*|\.?\d+)(e[+-]?\d+)?|inf(inity)?|[sq]?nan\d*)`)
 
 // SetString sets z to the value of s and returns z.
 //
-- 
2.43.0


From 67b6b54153e3afa6776ecc8b16f838708c175076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 20/63] fix: round, sign and pad formatted decimals correctly

---
 big.go    |  43 ++++++++++-------------
 format.go | 103 +++++++++++++++++++++++++++---------------------------
 2 files changed, 71 insertions(+), 75 deletions(-)

diff --git a/big.go b/big.go
index bcef672..a8e7288 100644
--- a/big.go
+++ b/big.go
@@ -783,11 +783,11 @@ func (x *Big) Format(s fmt.State, c rune) {
 	var (
 		hash    = s.Flag('#')
 		dash    = s.Flag('-')
-		lpZero  = s.Flag('0')
-		lpSpace = width != noWidth && !dash && !lpZero
+		lpZero  = s.Flag('0') && !dash && x.IsFinite() && c != 'q'
+		lpSpace = hasWidth && !dash && !lpZero
 		plus    = s.Flag('+')
 		space   = s.Flag(' ')
-		f       = formatter{prec: prec, width: width}
+		f       = formatter{prec: prec, exact: !hasPrec}
 		e       = sciE[x.Context.OperatingMode]
 	)
 
@@ -832,21 +832,8 @@ func (x *Big) Format(s fmt.State, c rune) {
 	case 'e', 'E':
 		f.format(x, sci, byte(c))
 	case 'f', 'F':
-		if !hasPrec {
-			prec = 0
-		} else {
-			// %f's precision means "number of digits after the radix"
-			if x.exp > 0 {
-				f.prec += (x.exp + x.Precision())
-			} else {
-				if adj := x.exp + x.Precision(); adj > -f.prec {
-					f.prec += adj
-				} else {
-					f.prec = -f.prec
-				}
-			}
-		}
-
+		// %f's precision means "number of digits after the radix"
+		f.fixed = hasPrec
 		f.format(x, plain, noE)
 	case 'g', 'G':
 		// %g's precision means "number of significant digits"
@@ -891,21 +878,29 @@ func (x *Big) Format(s fmt.State, c rune) {
 		return
 	}
 
+	var str string
+	if tmpbuf {
+		str = f.w.(*strings.Builder).String()
+	}
+
 	// Need padding out to width.
 	if f.n < int64(width) {
 		switch pad := int64(width) - f.n; {
-		case dash:
-			io.CopyN(s, spaceReader{}, pad)
 		case lpZero:
+			// The sign comes first.
+			if c := str[0]; c == '-' || c == '+' || c == ' ' {
+				io.WriteString(s, str[:1])
+				str = str[1:]
+			}
 			io.CopyN(s, zeroReader{}, pad)
-		case lpSpace:
+		default:
 			io.CopyN(s, spaceReader{}, pad)
 		}
 	}
 
 	if tmpbuf {
 		// fmt's internal state type implements stringWriter I think.
-		io.WriteString(s, f.w.(*strings.Builder).String())
+		io.WriteString(s, str)
 	}
 }
 
@@ -1107,7 +1102,7 @@ func (x *Big) MarshalText() ([]byte, error) {
 	}
 	var (
 		b = new(bytes.Buffer)
-		f = formatter{w: b, prec: x.Precision(), width: noWidth}
+		f = formatter{w: b, prec: x.Precision(), exact: true}
 		e = sciE[x.Context.OperatingMode]
 	)
 	b.Grow(x.Precision())
@@ -1703,7 +1698,7 @@ func (x *Big) String() string {
 	}
 	var (
 		b = new(strings.Builder)
-		f = formatter{w: b, prec: x.Precision(), width: noWidth}
+		f = formatter{w: b, prec: x.Precision(), exact: true}
 		e = sciE[x.Context.OperatingMode]
 	)
 	b.Grow(x.Precision())
diff --git a/format.go b/format.go
index 8a34100..7470e83 100644
--- a/format.go
+++ b/format.go
@@ -32,37 +32,26 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 		return b[:prec]
 	}
 
+	// Compare the digits we'll chop off with one half.
+	r := +1
+	if b[prec] < '5' {
+		r = -1
+	} else if b[prec] == '5' && allZeros(b[prec+1:]) {
+		r = 0
+	}
+	odd := prec > 0 && b[prec-1]%2 != 0
+	if !mode.needsInc(odd, r, pos) {
+		return b[:prec]
+	}
+	if prec == 0 {
+		return append(b[:0], '1')
+	}
+
 	b = b[:prec+1]
 	i := prec - 1
 
 	// Blindly increment b[i] and handle possible carries later.
-	switch mode {
-	case AwayFromZero:
-		b[i]++
-	case ToZero:
-		// OK
-	case ToPositiveInf:
-		if pos {
-			b[i]++
-		}
-	case ToNegativeInf:
-		if !pos {
-			b[i]++
-		}
-	case ToNearestEven:
-		if b[i+1] > '5' || b[i+1] == '5' && b[i]%2 != 0 {
-			b[i]++
-		}
-	case ToNearestAway:
-		if b[i+1] >= '5' {
-			b[i]++
-		}
-	case ToNearestTowardZero:
-		if b[i+1] > '5' {
-			b[i]++
-		}
-	}
-
+	b[i]++
 	if b[i] != '9'+1 {
 		return b[:prec]
 	}
@@ -130,8 +119,9 @@ type formatter struct {
 		WriteString(string) (int, error)
 	}
 	sign  byte  // leading '+' or ' ' flag
-	prec  int   // total precision
-	width int   // min width
+	prec  int   // total precision, or digits after the radix if fixed
+	fixed bool  // prec is the number of digits after the radix
+	exact bool  // prec was not specified
 	n     int64 // cumulative number of bytes written to w
 }
 
@@ -180,18 +170,16 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		return
 	}
 
-	if x.isZero() && o == Go {
+	if x.isZero() && o == Go && f.exact {
 		// Go mode prints zeros different than GDA.
-		if f.width == noWidth {
-			f.WriteByte('0')
-		} else {
-			f.WriteString("0.")
-			io.CopyN(f, zeroReader{}, int64(f.width))
+		if f.sign != 0 {
+			f.WriteByte(f.sign)
 		}
+		f.WriteByte('0')
 		return
 	}
 
-	neg := x.Signbit()
+	neg := x.Signbit() && !(x.isZero() && o == Go)
 	if neg {
 		f.WriteByte('-')
 	} else if f.sign != 0 {
@@ -202,19 +190,30 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		b   []byte
 		exp int
 	)
-	if f.prec > 0 {
+	prec := f.prec
+	if f.fixed {
+		prec += x.exp + x.Precision()
+	}
+	if prec > 0 || f.fixed {
 		if x.isCompact() {
 			b = formatCompact(x.compact)
 		} else {
 			b = formatUnscaled(&x.unscaled)
 		}
-		orig := len(b)
-		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
-		exp = int(x.exp) + orig - len(b)
-	} else if f.prec < 0 {
-		f.prec = -f.prec
-		exp = -f.prec
-	} else {
+		exp = x.exp + len(b) - prec
+		if prec < 0 {
+			// Less than one tenth of the last digit.
+			b = append([]byte{'0'}, b...)
+			prec = 0
+		}
+		b = roundString(b, x.Context.RoundingMode, !neg, prec)
+		if len(b) > prec && !f.fixed {
+			// The carry made an extra digit.
+			b = b[:prec]
+			exp++
+		}
+	}
+	if len(b) == 0 {
 		b = []byte{'0'}
 	}
 
@@ -230,12 +229,19 @@ func (f *formatter) format(x *Big, format format, e byte) {
 			// converted to a character form without using exponential notation."
 			//
 			// - http://speleotrove.com/decimal/daconvs.html#reftostr
+			if x.isZero() {
+				b = b[:1]
+			}
 			f.formatPlain(b, exp)
 			return
 		}
 
 		// No decimal places, write b and fill with zeros.
 		if format == plain && exp > 0 {
+			if x.isZero() {
+				f.WriteByte('0')
+				return
+			}
 			f.Write(b)
 			io.CopyN(f, zeroReader{}, int64(exp))
 			return
@@ -255,7 +261,7 @@ func (f *formatter) formatSci(b []byte, adj int, e byte) {
 
 	// If negative, the call to strconv.Itoa will add the minus sign for us.
 	f.WriteByte(e)
-	if adj > 0 {
+	if adj >= 0 {
 		f.WriteByte('+')
 	}
 	f.WriteString(strconv.Itoa(adj))
@@ -283,12 +289,7 @@ func (f *formatter) formatPlain(b []byte, exp int) {
 	default:
 		f.WriteString(zeroRadix)
 		io.CopyN(f, zeroReader{}, -int64(radix))
-
-		end := len(b)
-		if f.prec < end {
-			end = f.prec
-		}
-		f.Write(b[:end])
+		f.Write(b)
 	}
 }
 
-- 
2.43.0


From c76442ad50eaaa5f01ec9e1d9bfd4b8ff8516886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 21/63] fix: order equal values in CmpTotal by sign and
 exponent

---
 big.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index a8e7288..c3f26b9 100644
--- a/big.go
+++ b/big.go
@@ -551,7 +551,17 @@ func (x *Big) CmpTotal(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.Cmp(y)
+	if r := x.Cmp(y); r != 0 {
+		return r
+	}
+	if x.Signbit() != y.Signbit() {
+		// ±0
+		if x.Signbit() {
+			return -1
+		}
+		return +1
+	}
+	return x.cmpExp(y)
 }
 
 // CmpTotalAbs is like CmpTotal but instead compares the absolute
@@ -572,7 +582,23 @@ func (x *Big) CmpTotalAbs(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.CmpAbs(y)
+	if r := x.CmpAbs(y); r != 0 {
+		return r
+	}
+	return x.cmpExp(y)
+}
+
+// cmpExp orders the representations of x and y, which have the
+// same value, by their exponents.
+func (x *Big) cmpExp(y *Big) int {
+	switch {
+	case x.isSpecial(), x.exp == y.exp:
+		return 0
+	case x.exp < y.exp:
+		return -1
+	default:
+		return +1
+	}
 }
 
 func (x *Big) ordTotal(abs bool) (r int) {
-- 
2.43.0


From 9d451af43d0b1effe25d67a39869d43bed9e2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 22/63] fix: zeros are neither normal nor subnormal

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index c3f26b9..821113a 100644
--- a/big.go
+++ b/big.go
@@ -1037,12 +1037,12 @@ func (x *Big) IsFinite() bool {
 
 // IsNormal reports whether x is normal.
 func (x *Big) IsNormal() bool {
-	return x.IsFinite() && x.adjusted() >= x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() >= x.Context.emin()
 }
 
 // IsSubnormal reports whether x is subnormal.
 func (x *Big) IsSubnormal() bool {
-	return x.IsFinite() && x.adjusted() < x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() < x.Context.emin()
 }
 
 // IsInf reports whether x is an infinity according to sign.
-- 
2.43.0


From 8ea2ab9f461caec4f6f14f5cb9da7b0180dc003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 23/63] fix: compare only the class of special values in
 SameQuantum

---
 big.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 821113a..8295c45 100644
--- a/big.go
+++ b/big.go
@@ -1365,8 +1365,12 @@ func (z *Big) RoundToInt() *Big {
 }
 
 // SameQuantum reports whether x and y have the same exponent
-// (scale).
+// (scale). Infinities only have the same exponent as infinities
+// and NaN values only the same as NaN values.
 func (x *Big) SameQuantum(y *Big) bool {
+	if x.isSpecial() || y.isSpecial() {
+		return x.IsInf(0) && y.IsInf(0) || x.IsNaN(0) && y.IsNaN(0)
+	}
 	return x.Scale() == y.Scale()
 }
 
-- 
2.43.0


From e628c5f3db6f4d5155080bc91a617869029cbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 24/63] fix: round Float64 once and keep the sign of infinities

---
 big.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/big.go b/big.go
index 8295c45..63ea193 100644
--- a/big.go
+++ b/big.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math"
 	"math/big"
+	"math/bits"
 	"regexp"
 	"runtime"
 	"strconv"
@@ -698,7 +699,11 @@ func (x *Big) Float64() (f float64, ok bool) {
 	if !x.IsFinite() {
 		switch x.form {
 		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+			sign := 1
+			if x.Signbit() {
+				sign = -1
+			}
+			return math.Inf(sign), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
@@ -708,6 +713,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	const (
 		maxMantissa = 1<<53 + 1 // largest exact mantissa
+		maxPow10    = 22        // largest exact power of ten
 	)
 
 	parse := false
@@ -719,20 +725,22 @@ func (x *Big) Float64() (f float64, ok bool) {
 		ok = true
 	case x.exp == 0:
 		f = float64(xc)
-		ok = xc < maxMantissa || (xc&(xc-1)) == 0
-	case x.exp > 0:
-		f = float64(x.compact) * math.Pow10(x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
-	case x.exp < 0:
-		f = float64(x.compact) / math.Pow10(-x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = bits.Len64(xc)-bits.TrailingZeros64(xc) <= 53
+	case xc < maxMantissa && x.exp > 0 && x.exp <= maxPow10:
+		// Both operands are exact, so the result is only rounded
+		// once.
+		f = float64(xc) * math.Pow10(x.exp)
+		ok = true
+	case xc < maxMantissa && x.exp < 0 && x.exp >= -maxPow10:
+		f = float64(xc) / math.Pow10(-x.exp)
+		ok = true
 	default:
 		parse = true
 	}
 
 	if parse {
 		f, _ = strconv.ParseFloat(x.String(), 64)
-		ok = !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = f != 0 && !math.IsInf(f, 0) && !math.IsNaN(f)
 	}
 
 	if x.form&signbit != 0 {
-- 
2.43.0


From 05b2799d37e90165845b2d5fac4899b57bc153aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 25/63] fix: keep the sign of infinities and zeros in Float

---
 big.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 63ea193..1d2727f 100644
--- a/big.go
+++ b/big.go
@@ -765,11 +765,14 @@ func (x *Big) Float(z *big.Float) *big.Float {
 	case finite, finite | signbit:
 		if x.isZero() {
 			z.SetUint64(0)
+			if x.Signbit() {
+				z.Neg(z)
+			}
 		} else {
 			z.SetRat(x.Rat(nil))
 		}
 	case pinf, ninf:
-		z.SetInf(x.form == pinf)
+		z.SetInf(x.form == ninf)
 	default: // snan, qnan, ssnan, sqnan:
 		z.SetUint64(0)
 	}
-- 
2.43.0


From eaf45a60868b43f2c553326ef8e8e73f5eb043c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 26/63] fix: truncate numbers below one to zero in Int, Int64
 and Uint64

---
 big.go  | 10 ++++++++++
 util.go |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 1d2727f..3b24d4b 100644
--- a/big.go
+++ b/big.go
@@ -974,6 +974,10 @@ func (x *Big) Int(z *big.Int) *big.Int {
 	if x.exp == 0 {
 		return z
 	}
+	if x.exp <= -x.Precision() {
+		// |x| < 1
+		return z.SetUint64(0)
+	}
 	return bigScalex(z, z, x.exp)
 }
 
@@ -993,6 +997,9 @@ func (x *Big) Int64() (int64, bool) {
 	// x might be too large to fit into an int64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Int64(), xb.IsInt64()
 	}
@@ -1030,6 +1037,9 @@ func (x *Big) Uint64() (uint64, bool) {
 	// x might be too large to fit into an uint64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Uint64(), xb.IsUint64()
 	}
diff --git a/util.go b/util.go
index e9a80a8..eee8cf2 100644
--- a/util.go
+++ b/util.go
@@ -220,7 +220,8 @@ func scalex(x uint64, scale int) (sx uint64, ok bool) {
 	}
 	p, ok := arith.Pow10(uint64(-scale))
 	if !ok {
-		return 0, false
+		// 10^-scale > x
+		return 0, true
 	}
 	return x / p, true
 }
-- 
2.43.0


From 24a12677ee1e4c00b60a06894f29f1bf48fcb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 27/63] fix: replace the receiver's exponent, form and
 coefficient in SetFloat

---
 big.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index 3b24d4b..124f23e 100644
--- a/big.go
+++ b/big.go
@@ -1477,12 +1477,11 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		var sign form
 		if neg {
-			z.form |= signbit
+			sign = signbit
 		}
-		z.compact = 0
-		z.precision = 1
-		return z
+		return z.setZero(sign, 0)
 	}
 
 	z.exp = 0
@@ -1495,19 +1494,12 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
-		z.compact = mant
-		z.precision = arith.Length(mant)
-	} else {
-		z.compact = c.Inflated
-		x0.Int(&z.unscaled)
-		z.precision = arith.BigLength(&z.unscaled)
-	}
+	x0.Int(&z.unscaled)
 	z.form = finite
 	if neg {
 		z.form |= signbit
 	}
-	return z
+	return z.norm()
 }
 
 // SetFloat64 sets z to exactly x.
-- 
2.43.0


From 3bbf803173be546cf4508e3b8dfc26c20e825233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 28/63] fix: compute NextPlus and NextMinus in place and
 without conditions

---
 big_ctx.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 906bd3d..176986b 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1806,6 +1806,9 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	if z.checkNaNs(x, x, nextminus) {
 		return z
 	}
@@ -1820,10 +1823,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
-	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
-	return z
+	return c.next(z, x, -1)
 }
 
 // NextPlus sets z to the largest representable number that's
@@ -1836,7 +1836,10 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) {
+		return z
+	}
+	if z.checkNaNs(x, x, nextplus) {
 		return z
 	}
 
@@ -1850,9 +1853,23 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	}
 
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
-	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	return c.next(z, x, +1)
+}
+
+// next sets z to the representable number adjacent to x in the
+// direction of dir, which c must round towards, and returns z.
+func (c Context) next(z, x *Big, dir int64) *Big {
+	// Only the value changes. Adjacent numbers are also only
+	// defined for a given precision.
+	cond := z.Context.Conditions
+	c.OperatingMode = GDA
+
+	v := new(Big).Copy(x)
+	if c.Round(v).Cmp(x) == 0 {
+		c.Add(v, v, new(Big).SetMantScale(dir, -c.etiny()+1))
+	}
+	z.Copy(v)
+	z.Context.Conditions = cond
 	return z
 }
 
-- 
2.43.0


From 6017e984d653e11fbe6a4573ef518261bb03b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 29/63] fix: keep the divisor intact in Quo when z is x

---
 big_ctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 176986b..9221d85 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2341,6 +2341,9 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		tmp = new(big.Int)
 	}
 
+	if tmp == yb {
+		tmp = new(big.Int) // yb is used after the remainder is set.
+	}
 	return c.finishQuo(z, z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)), adj, ideal)
 }
 
-- 
2.43.0


From a918fd37da9f7f98116f0cf7de0325901b819e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 30/63] fix: keep the exponent of Rem when z is an operand

---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 9221d85..1c37c7a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2789,8 +2789,9 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
+		exp := min(x.exp, y.exp) // in case z aliases x or y
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
+		z.exp = exp
 		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
-- 
2.43.0


From 466274f595eb1853dd956c75bed17bd990d1c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 31/63] fix: round elementary functions in the Go mode

---
 big_ctx.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1c37c7a..2e9f875 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -334,6 +334,7 @@ func (c Context) Acos(z, x *Big) *Big {
 	if z.checkNaNs(x, x, acos) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
@@ -383,6 +384,7 @@ func (c Context) Asin(z, x *Big) *Big {
 	if z.checkNaNs(x, x, asin) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
@@ -435,6 +437,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	if z.checkNaNs(x, x, atan) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if x.IsInf(0) {
 		c.pi2(z)
@@ -632,6 +635,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.checkNaNs(y, x, atan2) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	ctx := c.working(defaultExtraPrecision)
 
@@ -718,6 +722,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	if z.checkNaNs(x, x, cos) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if x.IsInf(0) {
 		return z.setNaN(InvalidOperation, qnan, 0)
@@ -891,6 +896,10 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
+	c.OperatingMode = GDA // the result is rounded
 	if c.Precision <= constPrec {
 		return c.Set(z, _E.get())
 	}
@@ -928,6 +937,7 @@ func (c Context) Exp(z, x *Big) *Big {
 	if z.checkNaNs(x, x, exp) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if x.IsInf(0) {
 		if x.IsInf(+1) {
@@ -1225,6 +1235,7 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	ctx := c.working(defaultExtraPrecision)
 
@@ -1255,6 +1266,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if z.checkNaNs(x, x, log) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 	if logSpecials(z, x) {
 		return z
 	}
@@ -1272,6 +1284,7 @@ func (c Context) Log10(z, x *Big) *Big {
 	if z.checkNaNs(x, x, log10) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if logSpecials(z, x) {
 		return z
@@ -1891,6 +1904,10 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
+	c.OperatingMode = GDA // the result is rounded
 	return c.pi(z)
 }
 
@@ -3011,6 +3028,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if z.checkNaNs(x, x, sin) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if !x.IsFinite() {
 		// sin(inf) = NaN
@@ -3040,7 +3058,6 @@ func (c Context) Sin(z, x *Big) *Big {
 		tiny := getDec(ctx).SetMantScale(1, 0)
 		tiny.exp = 3*adj - x.Precision()
 		tiny.SetSignbit(x.Signbit())
-		c.OperatingMode = GDA
 		c.Sub(z, x, tiny)
 		putDec(tiny)
 		return z
@@ -3117,6 +3134,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if z.checkNaNs(x, x, sin) {
 		return z
 	}
+	c.OperatingMode = GDA // the result is rounded
 
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
-- 
2.43.0


From 29b4af0cf3fdb2d4ae60f40231793118cf3fd27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 32/63] fix: keep the sign of Asin and Atan when z is x

---
 big_ctx.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 2e9f875..9cd2433 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -392,11 +392,8 @@ func (c Context) Asin(z, x *Big) *Big {
 	}
 
 	if cmp1 == 0 {
-		c.pi2(z)
-		if x.Signbit() {
-			z.SetSignbit(true)
-		}
-		return z
+		sign := x.Signbit() // in case z == x
+		return c.pi2(z).SetSignbit(sign)
 	}
 
 	ctx := c.working(defaultExtraPrecision)
@@ -440,9 +437,8 @@ func (c Context) Atan(z, x *Big) *Big {
 	c.OperatingMode = GDA // the result is rounded
 
 	if x.IsInf(0) {
-		c.pi2(z)
-		z.form |= x.form & signbit
-		return z
+		sign := x.Signbit() // in case z == x
+		return c.pi2(z).SetSignbit(sign)
 	}
 
 	ctx := c.working(defaultExtraPrecision)
-- 
2.43.0


From a3321dc50a4780f49fc970570492af8d92bd54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 33/63] fix: keep the sign of QuoRem's infinite remainder when
 z is x

---
 big_ctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 9cd2433..7f19383 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2546,7 +2546,8 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			xsign := x.Signbit() // in case z == x
+			return z.SetInf(sign != 0), r.SetInf(xsign)
 		}
 		if x.isZero() {
 			// 0 / y
@@ -2584,7 +2585,8 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		xsign := x.Signbit() // in case z == x
+		return z.SetInf(sign != 0), r.SetInf(xsign)
 	}
 	// x / ±Inf
 	c.Set(r, x)
-- 
2.43.0


From f57f3eaac8b1dc0ae7d3412c5aaf333888df3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 34/63] fix: handle special cases, signs and aliases in Pow

---
 big_ctx.go | 221 +++++++++++++++++++++++++++++------------------------
 1 file changed, 121 insertions(+), 100 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7f19383..3653f9e 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2028,157 +2028,178 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 // TODO(eric): (c Context) Pow(z, x, y, m *Big) *Big
 
 // Pow sets z to x**y and returns z.
+//
+// Special cases:
+//     Pow(x, y)      = NaN if x or y is NaN
+//     Pow(±0, ±0)    = NaN
+//     Pow(x, ±0)     = 1 for x != 0
+//     Pow(±0, y)     = ±Inf for y an odd integer < 0
+//     Pow(±0, y)     = +Inf for other y < 0
+//     Pow(±0, y)     = ±0 for y an odd integer > 0
+//     Pow(±0, y)     = +0 for other y > 0
+//     Pow(x, y)      = NaN for x < 0 and y not an integer
+//     Pow(±Inf, y)   = ±Inf for y an odd integer > 0
+//     Pow(±Inf, y)   = +Inf for other y > 0
+//     Pow(±Inf, y)   = ±0 for y an odd integer < 0
+//     Pow(±Inf, y)   = +0 for other y < 0
+//     Pow(1, ±Inf)   = 1
+//     Pow(x, +Inf)   = +Inf for x > 1
+//     Pow(x, -Inf)   = +0 for x > 1
+//     Pow(x, +Inf)   = +0 for 0 <= x < 1
+//     Pow(x, -Inf)   = +Inf for 0 <= x < 1
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if debug {
+		x.validate()
+		y.validate()
+	}
+	if z.invalidContext(c) {
 		return z
 	}
+	if z.checkNaNs(x, y, 0) {
+		return z
+	}
+	c.OperatingMode = GDA // the result is rounded
 
-	if s := x.Sign(); s <= 0 {
-		if s == 0 {
-			if y.Sign() == 0 {
-				// 0 ** 0 is undefined
-				return z.setNaN(InvalidOperation, qnan, 0)
-			}
-			if y.Signbit() {
-				// 0 ** -y = +Inf
-				return z.SetInf(true)
-			}
-			// 0 ** y = 0
-			return z.SetUint64(0)
-		}
-		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
-			// -x ** y.vvv is undefined
-			// -x ** ±Inf is undefined
+	xs, ys := x.Sign(), y.Sign()
+	if ys == 0 {
+		if xs == 0 {
+			// 0 ** 0 is undefined
 			return z.setNaN(InvalidOperation, qnan, 0)
 		}
+		// x ** 0 = 1
+		return z.SetUint64(1)
+	}
+	if xs < 0 && !y.IsInt() {
+		// -x ** y.vvv is undefined
+		// -x ** ±Inf is undefined
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
-	if x.IsInf(0) {
-		switch y.Sign() {
-		case +1:
-			// ±Inf ** y = +Inf
+	// The sign of the result.
+	var sign form
+	if x.Signbit() && isOdd(y) {
+		sign = signbit
+	}
+
+	if xs == 0 || x.IsInf(0) {
+		if (xs == 0) == (ys < 0) {
+			// ±0 ** -y = ±Inf
+			// ±Inf ** y = ±Inf
+			return z.SetInf(sign != 0)
+		}
+		// ±0 ** y = ±0
+		// ±Inf ** -y = ±0
+		return c.fix(z.setZero(sign, 0))
+	}
+
+	if cmpAbsInt(x, 1) == 0 {
+		// ±1 ** y = ±1
+		return c.finish(z.setTriple(1, sign, 0))
+	}
+
+	grows := (cmpAbsInt(x, 1) > 0) == (ys > 0)
+	if y.IsInf(0) {
+		if grows {
 			return z.SetInf(false)
-		case -1:
-			// ±Inf ** -y = 0
-			return z.SetUint64(0)
-		case 0:
-			// ±Inf ** 0 = 1
-			return z.SetUint64(1)
 		}
+		return z.setZero(0, 0)
 	}
 
-	if y.Sign() == 0 {
-		// x ** 0 = 1
-		return z.SetUint64(1)
+	// |log10(x)| is at least 10**-d, so larger exponents are always
+	// out of range.
+	d := 1
+	if adj := x.adjusted(); adj == 0 || adj == -1 {
+		d += max(0, -x.exp)
 	}
+	if y.adjusted() <= d+19 {
+		if y.Cmp(ptFive.get()) == 0 {
+			// x ** 0.5 = sqrt(x)
+			return c.Sqrt(z, x)
+		}
 
-	if y.Cmp(ptFive.get()) == 0 {
-		// x ** 0.5 = sqrt(x)
-		return c.Sqrt(z, x)
+		if y.IsInt() {
+			c.powInt(z, x, y)
+		} else {
+			c.powDec(z, x, y)
+		}
+		if z.IsFinite() && z.Sign() != 0 {
+			return c.finish(z.SetSignbit(sign != 0))
+		}
 	}
 
-	if y.IsInt() {
-		c.powInt(z, x, y)
-	} else {
-		c.powDec(z, x, y)
+	// Out of the range of the working precision.
+	if grows {
+		return c.fix(z.setTriple(1, sign, 2*MaxScale))
 	}
-	return c.finish(z)
+	return c.fix(z.setTriple(1, sign, 2*MinScale))
+}
+
+// isOdd reports whether x is an odd integer.
+func isOdd(x *Big) bool {
+	return x.IsInt() && x.exp <= 0 && x.Int(nil).Bit(0) == 1
 }
 
-// powInt sets z = x**y for the integer y.
+// powInt sets z = |x|**y for the non-zero integer y.
 func (c Context) powInt(z, x, y *Big) *Big {
-	ctx := Context{
-		Precision: c.precision() + y.Precision() - y.Scale() + 2,
-	}
+	// Each digit of y costs a digit of precision.
+	ctx := c.working(y.Precision() - y.Scale() + 2)
 
-	if yy, ok := y.Uint64(); ok {
-		return ctx.powUint64(z, x, yy)
+	neg := y.Signbit()
+	if neg {
+		ctx.Precision++
 	}
+	y0 := y.Int(nil) // in case z == y
+	y0.Abs(y0)
 
-	x0 := getDec(ctx)
-	if y.Signbit() {
-		ctx.Precision++
-		ctx.Quo(x0, one.get(), x)
-	} else {
-		x0.Copy(x)
+	x0 := getDec(ctx).CopyAbs(x)
+	defer putDec(x0)
+	if neg {
+		ctx.Quo(x0, one.get(), x0)
 	}
-	z.SetUint64(1)
-	sign := x.Signbit()
 
-	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
-	y0.Abs(y0)
-	for y0.Sign() != 0 {
+	z.SetUint64(1)
+	for {
 		if y0.Bit(0) != 0 {
 			ctx.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
-				break
+			if !z.IsFinite() || z.Sign() == 0 {
+				return z
 			}
 		}
-		y0.Rsh(y0, 1)
-		ctx.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if y0.Rsh(y0, 1); y0.Sign() == 0 {
+			return z
 		}
+		ctx.Mul(x0, x0, x0)
 	}
-	putDec(x0)
-	return z.SetSignbit(sign)
 }
 
 // powUint64 sets z = x**y.
 func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	x0 := getDec(c).Copy(x)
+	defer putDec(x0)
 
 	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
-	for y != 0 {
+	for {
 		if y&1 != 0 {
 			c.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
-				break
+			if !z.IsFinite() || z.Sign() == 0 {
+				return z
 			}
 		}
-		y >>= 1
-		c.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if y >>= 1; y == 0 {
+			return z
 		}
+		c.Mul(x0, x0, x0)
 	}
-	putDec(x0)
-
-	z.SetSignbit(sign)
-	return z
 }
 
-// powDec sets z = x**y for a decimal y.
+// powDec sets z = x**y for the positive x and the decimal y.
 func (c Context) powDec(z, x, y *Big) *Big {
 	if z == y {
 		y = getDec(c).Copy(y)
 		defer putDec(y)
 	}
-	neg := x.Signbit()
-	if neg {
-		x = getDec(c).CopyAbs(x)
-		defer putDec(x)
-	}
-
-	work := c
-	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
-	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
-	if neg && z.IsFinite() {
-		z.CopyNeg(z)
-	}
-	return z
+	work := c.working(max(0, x.Precision()-c.precision()) + 4 + 19)
+	return work.Exp(z, work.Mul(z, y, work.Log(z, x)))
 }
 
 // Quantize sets z to the number equal in value and sign to z with the scale, n.
-- 
2.43.0


From 3649bb89d40e16bfaaf205a4a4837113bf781a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 35/63] fix: use the given context for NaN operands of Ceil and
 Floor

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3653f9e..21d66b1 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -883,7 +883,7 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 	c.RoundingMode = ToPositiveInf
@@ -1194,7 +1194,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
-- 
2.43.0


From 5762cdb584d6c3b03cf4af3bc0fabb27a48760f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 36/63] fix: reject invalid contexts in Set, SetRat and
 SetString

---
 big_ctx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 21d66b1..4838c41 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3002,12 +3002,18 @@ func (c Context) sqrt3(z *Big) *Big {
 //
 // The result might be rounded, even if z == x.
 func (c Context) Set(z, x *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.finish(z.Copy(x))
 }
 
 // SetRat sets z to to the possibly rounded value of x and
 // returns z.
 func (c Context) SetRat(z *Big, x *big.Rat) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if x.IsInt() {
 		return c.finish(z.SetBigMantScale(x.Num(), 0))
 	}
@@ -3022,6 +3028,9 @@ func (c Context) SetRat(z *Big, x *big.Rat) *Big {
 //
 // See Big.SetString for valid formats.
 func (c Context) SetString(z *Big, s string) (*Big, bool) {
+	if z.invalidContext(c) {
+		return nil, false
+	}
 	if _, ok := z.SetString(s); !ok {
 		return nil, false
 	}
-- 
2.43.0


From d7ee8c96b0d01a8e8784dbc11319cc09263b4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 37/63] fix: do not round in Round for n <= 0

---
 big.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big.go b/big.go
index 124f23e..bc2c487 100644
--- a/big.go
+++ b/big.go
@@ -1375,6 +1375,9 @@ func (z *Big) Rem(x, y *Big) *Big {
 // occur if n <= 0. The result of Round will always be in the
 // interval [⌊10**p⌋, z] where p = the precision of z.
 func (z *Big) Round(n int) *Big {
+	if n <= 0 {
+		return z
+	}
 	ctx := z.Context
 	ctx.Precision = n
 	return ctx.Round(z)
-- 
2.43.0


From 0e748d87c5c7cbc9a9c3ad7bc6066730fc4a4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 38/63] fix: do not scale the divisor in integer divisions of
 smaller dividends

---
 big_ctx.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 4838c41..3bdf704 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2628,6 +2628,18 @@ func (c Context) quorem(z0, z1, x, y *Big) (*Big, *Big) {
 		return z0, z1
 	}
 
+	if x.exp <= y.exp && x.adjusted() < y.adjusted() {
+		// |x| < |y|
+		sign := (x.form ^ y.form) & signbit
+		if z1 != nil {
+			z1.Copy(x)
+		}
+		if z0 != nil {
+			z0.setZero(sign, 0)
+		}
+		return z0, z1
+	}
+
 	z := z0
 	if z == nil {
 		z = z1
-- 
2.43.0


From b07590d6a0f4fd04a691b321e1da74834a0f45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 39/63] fix: bound the scale of quotients far below the
 exponent range

---
 big_ctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3bdf704..37a64e3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2325,6 +2325,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		adj := ideal - shift + zp - 1
 		shift = min(shift, ideal-tiny)
 		z.exp = ideal - shift
+		shift = max(shift, -x.Precision()-2) // zero, with any remainder
 		if shift > 0 {
 			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
 				return c.finishQuo(z, z.quo(m, sx, x.form, y.compact, y.form), adj, ideal)
@@ -2363,6 +2364,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 	adj := ideal - shift + zp - 1
 	shift = min(shift, ideal-tiny)
 	z.exp = ideal - shift
+	shift = max(shift, -x.Precision()-2) // zero, with any remainder
 
 	var tmp *big.Int
 	if shift > 0 {
-- 
2.43.0


From 9aa66836c4afc38223e4dcb9f920403784851cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 40/63] fix: compose negative numbers exactly, refuse to
 decompose tiny exponents

---
 decomposer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..1f284a7 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -89,8 +89,7 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc := &big.Int{}
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
-	if negative {
-		z.Neg(z)
-	}
+	// Unlike Neg, SetSignbit does not round.
+	z.SetSignbit(negative)
 	return nil
 }
-- 
2.43.0


From ee5fa866ed2ae0e7cf7d00b8932a53d46b775937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 41/63] fix: round a copy in the postgres Value, to the maximum
 number of fractional digits

---
 sql/postgres/decimal.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..b6e133d 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -62,17 +62,31 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		// Rounding down the integral part automatically chops off the fractional
 		// part.
-		return v.Round(MaxIntegralDigits).String(), nil
+		return d.copy().Round(MaxIntegralDigits).String(), nil
 	}
 	if sl > MaxFractionalDigits {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		v = d.copy().Quantize(MaxFractionalDigits)
+		if v.Precision()-v.Scale() > MaxIntegralDigits {
+			// Rounding carried into the integral part.
+			v.Round(MaxIntegralDigits)
+		}
 	}
 	return v.String(), nil
 }
 
+// copy returns a copy of d.V that, other than d.V itself, may be rounded, and
+// whose only limits are those of DECIMAL.
+func (d *Decimal) copy() *decimal.Big {
+	ctx := decimal.Context{
+		Precision:    decimal.UnlimitedPrecision,
+		RoundingMode: d.V.Context.RoundingMode,
+	}
+	return decimal.WithContext(ctx).Copy(d.V)
+}
+
 // Scan implements sql.Scanner.
 func (d *Decimal) Scan(val interface{}) error {
 	if d.V == nil {
-- 
2.43.0


From a9d572cd88c36560db6080b144a94635858b87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 42/63] fix: stop scanning at the end of the number in Scan

---
 big.go  | 14 +++++++++++++-
 scan.go | 21 ---------------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/big.go b/big.go
index bc2c487..29de1cb 100644
--- a/big.go
+++ b/big.go
@@ -1414,8 +1414,20 @@ func (x *Big) Scale() int {
 }
 
 // Scan implements fmt.Scanner.
+//
+// It skips leading spaces and stops at the first character that
+// cannot be part of a number.
 func (z *Big) Scan(state fmt.ScanState, verb rune) error {
-	return z.scan(byteReader{state})
+	tok, err := state.Token(true, func(r rune) bool {
+		return r >= '0' && r <= '9' ||
+			r >= 'a' && r <= 'z' ||
+			r >= 'A' && r <= 'Z' ||
+			r == '+' || r == '-' || r == '.'
+	})
+	if err != nil {
+		return err
+	}
+	return z.scan(bytes.NewReader(tok))
 }
 
 // Set sets z to x and returns z.
diff --git a/scan.go b/scan.go
index 981a38b..d290ea8 100644
--- a/scan.go
+++ b/scan.go
@@ -1,7 +1,6 @@
 package decimal
 
 import (
-	"fmt"
 	"io"
 	"math"
 
@@ -370,23 +369,3 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 	return nil
 }
-
-// byteReader implementation borrowed from math/big/intconv.go
-
-// byteReader is a local wrapper around fmt.ScanState; it implements the
-// io.ByteReader interface.
-type byteReader struct {
-	fmt.ScanState
-}
-
-func (r byteReader) ReadByte() (byte, error) {
-	ch, size, err := r.ReadRune()
-	if size != 1 && err == nil {
-		err = fmt.Errorf("invalid rune %#U", ch)
-	}
-	return byte(ch), err
-}
-
-func (r byteReader) UnreadByte() error {
-	return r.UnreadRune()
-}
-- 
2.43.0


From 4491616d0362f362b78c1b49c709b916e456fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 43/63] fix: detect powers of ten among 20 digit numbers in
 Log10

---
 internal/arith/pow.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/arith/pow.go b/internal/arith/pow.go
index 0c175d6..542b2ab 100644
--- a/internal/arith/pow.go
+++ b/internal/arith/pow.go
@@ -67,7 +67,8 @@ func PowOfTenBig(x *big.Int) bool {
 			return false
 		}
 	}
-	return PowOfTen(q.Uint64())
+	// 20 digits do not necessarily fit in a uint64.
+	return q.IsUint64() && PowOfTen(q.Uint64())
 }
 
 // PowOfTen reports whether x is a power of 10.
-- 
2.43.0


From 7d4405ae3f92056ac057fb54b99698b47363ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 44/63] fix: logarithms that are too small overflow to +Inf

---
 big_ctx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 37a64e3..5b7cf70 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1338,14 +1338,15 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 	}
 
 	t := int64(x.adjusted())
-	if t < 0 {
+	neg := t < 0
+	if neg {
 		t = -t - 1
 	}
 	t *= 2
 
 	if arith.Length(arith.Abs(t))-1 > c.emax() {
 		z.Context.Conditions |= Overflow | Inexact | Rounded
-		return z.SetInf(t < 0)
+		return z.SetInf(neg)
 	}
 
 	// Argument reduction:
-- 
2.43.0


From 9cb39324781586a1e872803ecf605a4eba6bb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 45/63] fix: logarithms that underflow are +Inf

---
 big_ctx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 5b7cf70..94af52d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1461,7 +1461,12 @@ func (c Context) logSmall(z, x *Big) int64 {
 			if cmp < 0 {
 				m = -1
 			}
-			z.SetMantScale(m, c.etiny()-1)
+			putDec(v)
+			putDec(tmp)
+			// Too small: let it underflow.
+			z.SetMantScale(m, 0)
+			z.exp = c.etiny() - 1
+			return 0
 		}
 		tmp.exp--
 		if tmp.adjusted() < 0 {
-- 
2.43.0


From 4e3853ef24e1d944a575ede7594222c4a56bdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 46/63] fix: sine, cosine and tangent of huge numbers never
 return

---
 big_ctx.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 94af52d..bc067be 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -771,12 +771,20 @@ func (c Context) cos(z, x *Big) bool {
 	return true
 }
 
+// maxTrigExp is the largest adjusted exponent for which x / 2*pi can
+// be an int64, see prepCosine.
+const maxTrigExp = 19
+
 func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
 	if z == x {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
 	}
 
+	if x.adjusted() > maxTrigExp {
+		return nil, 0, false
+	}
+
 	var tmp Big
 	var twoPi Big
 
@@ -3098,7 +3106,9 @@ func (c Context) Sin(z, x *Big) *Big {
 		defer putDec(x)
 	}
 	ctx := c.working(defaultExtraPrecision)
-	if adj := x.adjusted(); adj >= 0 {
+	if adj := x.adjusted(); adj > maxTrigExp {
+		return z.setNaN(InvalidOperation, qnan, 0)
+	} else if adj >= 0 {
 		ctx.Precision += adj + 1
 	} else if -2*adj > ctx.Precision {
 		// Sin(x) = x - x**3/6 + ..., all but the first term is too
-- 
2.43.0


From 45d4a6f2a12626d19d34d0609119d28dd310c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 47/63] fix: irrational functions with unlimited precision hang
 or, like Pow, are wrong

---
 big_ctx.go | 27 +++++++++++++++++++++++++++
 util.go    | 12 ++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index bc067be..35d0333 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -436,6 +436,10 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 	c.OperatingMode = GDA // the result is rounded
 
+	if z.endless(c) {
+		return z
+	}
+
 	if x.IsInf(0) {
 		sign := x.Signbit() // in case z == x
 		return c.pi2(z).SetSignbit(sign)
@@ -724,6 +728,10 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
+	if z.endless(c) {
+		return z
+	}
+
 	if z == x {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
@@ -1345,6 +1353,10 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 		}
 	}
 
+	if z.endless(c) {
+		return z
+	}
+
 	t := int64(x.adjusted())
 	neg := t < 0
 	if neg {
@@ -1906,6 +1918,9 @@ func (c Context) pi2(z *Big) *Big {
 
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
+	if z.endless(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _Pi.get())
 	}
@@ -2131,6 +2146,10 @@ func (c Context) Pow(z, x, y *Big) *Big {
 			return c.Sqrt(z, x)
 		}
 
+		if z.endless(c) {
+			return z
+		}
+
 		if y.IsInt() {
 			c.powInt(z, x, y)
 		} else {
@@ -3097,6 +3116,10 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	if z.endless(c) {
+		return z
+	}
+
 	// Sin(x) = Cos(pi/2 - x)
 	//
 	// The digits x and pi/2 do not share are lost, as are the ones
@@ -3205,6 +3228,10 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	if z.endless(c) {
+		return z
+	}
+
 	// tan(x) = sin(x) / cos(x)
 	ctx := c.working(defaultExtraPrecision)
 	cosx := ctx.Cos(getDec(ctx), x)
diff --git a/util.go b/util.go
index eee8cf2..cc62570 100644
--- a/util.go
+++ b/util.go
@@ -156,6 +156,18 @@ func (z *Big) invalidContext(c Context) bool {
 	return true
 }
 
+// endless reports whether c would require every digit of an irrational
+// number.
+//
+// If so, it modifies z appropriately.
+func (z *Big) endless(c Context) bool {
+	if c.precision() < UnlimitedPrecision {
+		return false
+	}
+	z.setNaN(InvalidContext, qnan, invctxpgtu)
+	return true
+}
+
 // copybits can be useful when we want to allocate a big.Int without calling
 // new or big.Int.Set. For example:
 //
-- 
2.43.0


From c812e80d8afca3fb341fd972f85df669aeb509b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 48/63] fix: Hypot of huge or tiny numbers overflows or
 underflows

---
 big_ctx.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 35d0333..f0db958 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1251,18 +1251,25 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 
 	ctx := c.working(defaultExtraPrecision)
 
-	p0 := getDec(ctx)
-	ctx.Mul(p0, p, p)
+	p0 := getDec(ctx).Copy(p)
+	q0 := getDec(ctx).Copy(q)
 
-	if p == q {
-		ctx.Sqrt(z, ctx.Add(z, p0, p0))
-	} else {
-		q0 := getDec(ctx)
-		ctx.Mul(q0, q, q)
-		ctx.Sqrt(z, ctx.Add(z, p0, q0))
-		putDec(q0)
+	// The squares could be out of range, unlike the result.
+	var s int
+	if p.IsFinite() && q.IsFinite() {
+		if s = p.adjusted(); p.isZero() || !q.isZero() && q.adjusted() > s {
+			s = q.adjusted()
+		}
+		p0.exp -= s
+		q0.exp -= s
 	}
+
+	ctx.Mul(p0, p0, p0)
+	ctx.Mul(q0, q0, q0)
+	ctx.Sqrt(z, ctx.Add(z, p0, q0))
+	z.exp += s
 	putDec(p0)
+	putDec(q0)
 
 	return c.finish(z)
 }
-- 
2.43.0


From a8fd8cc69845166f995726dcb69be1e8041a55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 49/63] fix: elementary functions miss Inexact, Underflow and
 Overflow or report conditions of their intermediate results

---
 big_ctx.go | 61 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index f0db958..b1db0d1 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -335,6 +335,7 @@ func (c Context) Acos(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
@@ -360,7 +361,7 @@ func (c Context) Acos(z, x *Big) *Big {
 	ctx.Atan(z, z)           //     atan(sqrt((1 - x) / (1 + x)))
 	ctx.Mul(z, z, two.get()) // 2 * atan(sqrt((1 - x) / (1 + x)))
 
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 // Asin returns the arcsine, in radians, of x.
@@ -385,6 +386,7 @@ func (c Context) Asin(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
@@ -412,7 +414,7 @@ func (c Context) Asin(z, x *Big) *Big {
 	ctx.Atan(z, z)           //     atan(x / (1 + sqrt(1 - x*x)))
 	ctx.Mul(z, z, two.get()) // 2 * atan(x / (1 + sqrt(1 - x*x)))
 
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 // Atan returns the arctangent, in radians, of x.
@@ -435,6 +437,7 @@ func (c Context) Atan(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	if z.endless(c) {
 		return z
@@ -479,7 +482,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	case 2:
 		ctx.Sub(z, ctx.pi2(tmp), z) // clobber _2p
 	}
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 var sqrt3_3 = New(577350, 6) // sqrt(3) / 3
@@ -723,6 +726,7 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	if x.IsInf(0) {
 		return z.setNaN(InvalidOperation, qnan, 0)
@@ -750,7 +754,7 @@ func (c Context) Cos(z, x *Big) *Big {
 			break
 		}
 	}
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 // cos sets z to the cosine of x with an absolute error of about
@@ -912,8 +916,9 @@ func (c Context) E(z *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 	if c.Precision <= constPrec {
-		return c.Set(z, _E.get())
+		return c.approx(z.Copy(_E.get()), cond)
 	}
 
 	var (
@@ -935,7 +940,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return c.finish(sum)
+	return c.approx(sum, cond)
 }
 
 // Exp sets z to e**x and returns z.
@@ -966,13 +971,18 @@ func (c Context) Exp(z, x *Big) *Big {
 	}
 
 	c = c.dup()
+	cond := z.Context.Conditions
 	z = c.exp(z, x)
+	if z.IsInf(0) {
+		z.Context.Conditions |= Overflow | Inexact | Rounded
+		return z
+	}
 	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
 		s := c.Precision - z.Precision()
 		c.shiftl(z, uint64(s))
 		z.exp -= s
 	}
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 func (c Context) exp(z, x *Big) *Big {
@@ -1268,6 +1278,7 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	ctx.Mul(q0, q0, q0)
 	ctx.Sqrt(z, ctx.Add(z, p0, q0))
 	z.exp += s
+	z.Context.Conditions |= (p0.Context.Conditions | q0.Context.Conditions) & (Inexact | Rounded)
 	putDec(p0)
 	putDec(q0)
 
@@ -1289,7 +1300,8 @@ func (c Context) Log(z, x *Big) *Big {
 	if logSpecials(z, x) {
 		return z
 	}
-	return c.finish(c.log(z, x, false))
+	cond := z.Context.Conditions
+	return c.approx(c.log(z, x, false), cond)
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
@@ -1320,7 +1332,8 @@ func (c Context) Log10(z, x *Big) *Big {
 		z.SetMantScale(int64(x.adjusted()), 0)
 		return c.finish(z)
 	}
-	return c.finish(c.log(z, x, true))
+	cond := z.Context.Conditions
+	return c.approx(c.log(z, x, true), cond)
 }
 
 // logSpecials checks for special values (Inf, NaN, 0) for
@@ -1429,8 +1442,6 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 		}
 		putDec(t)
 	}
-
-	z.Context.Conditions |= Inexact | Rounded
 	return z
 }
 
@@ -1918,7 +1929,7 @@ func (c Context) next(z, x *Big, dir int64) *Big {
 // pi2 sets z to the mathematical constant pi / 2 and returns z.
 func (c Context) pi2(z *Big) *Big {
 	if c.Precision <= constPrec {
-		return c.Set(z, _Pi2.get())
+		return c.approx(z.Copy(_Pi2.get()), z.Context.Conditions)
 	}
 	return c.Quo(z, c.pi(z), two.get())
 }
@@ -1928,10 +1939,11 @@ func (c Context) pi(z *Big) *Big {
 	if z.endless(c) {
 		return z
 	}
+	cond := z.Context.Conditions
 	if c.Precision <= constPrec {
-		return c.Set(z, _Pi.get())
+		return c.approx(z.Copy(_Pi.get()), cond)
 	}
-	return c.piChudnovskyBrothers(z)
+	return c.approx(c.piChudnovskyBrothers(z), cond)
 }
 
 // Pi sets z to the mathematical constant pi and returns z.
@@ -2095,6 +2107,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	xs, ys := x.Sign(), y.Sign()
 	if ys == 0 {
@@ -2168,6 +2181,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	}
 
 	// Out of the range of the working precision.
+	z.Context.Conditions = cond
 	if grows {
 		return c.fix(z.setTriple(1, sign, 2*MaxScale))
 	}
@@ -2930,6 +2944,19 @@ func (c Context) finish(z *Big) *Big {
 	return c.fixTo(z, c.precision())
 }
 
+// approx rounds z, an approximation of an irrational number. The
+// conditions of the computation itself are replaced with cond.
+func (c Context) approx(z *Big, cond Condition) *Big {
+	if !z.IsFinite() || z.isZero() {
+		return c.finish(z)
+	}
+	z.Context.Conditions = cond | Inexact | Rounded
+	if z.adjusted() < c.emin() {
+		z.Context.Conditions |= Subnormal | Underflow
+	}
+	return c.finish(z)
+}
+
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
 	if z.invalidContext(c) || z.checkNaNs(z, z, 0) || z.isSpecial() || z.exp >= 0 {
@@ -3111,6 +3138,7 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	if !x.IsFinite() {
 		// sin(inf) = NaN
@@ -3163,7 +3191,7 @@ func (c Context) Sin(z, x *Big) *Big {
 		}
 		ctx.Precision += lost
 	}
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 // Sub sets z to x - y and returns z.
@@ -3223,6 +3251,7 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
@@ -3247,5 +3276,5 @@ func (c Context) Tan(z, x *Big) *Big {
 	if z.IsNaN(0) || cosx.IsNaN(0) {
 		return z.setNaN(InvalidOperation, qnan, 0)
 	}
-	return c.Quo(z, z, cosx)
+	return c.approx(ctx.Quo(z, z, cosx), cond)
 }
-- 
2.43.0


From 3b4b643f5395209ee3bc53a55537b2076d3a4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 50/63] fix: Atan2 of a quotient that underflows has the wrong
 sign

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b1db0d1..30379da 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -650,11 +650,11 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
-		xs := x.Sign() // in case z == x.
+		xs, ys := x.Sign(), y.Sign() // in case z == x or z == y.
 		ctx.Atan(z, ctx.Quo(z, y, x))
 		if xs < 0 {
 			pi := ctx.pi(getDec(ctx))
-			if z.Sign() <= 0 {
+			if ys > 0 {
 				ctx.Add(z, z, pi)
 			} else {
 				ctx.Sub(z, z, pi)
-- 
2.43.0


From b3eaa4795785aa6da062d74e147ce82b0d721b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 51/63] fix: Log10 overflows early

---
 big_ctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 30379da..3a8b980 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1382,7 +1382,9 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 	if neg {
 		t = -t - 1
 	}
-	t *= 2
+	if !ten {
+		t *= 2 // < t*log(10)
+	}
 
 	if arith.Length(arith.Abs(t))-1 > c.emax() {
 		z.Context.Conditions |= Overflow | Inexact | Rounded
-- 
2.43.0


From e44525c2663a2937cc9b43ec01342c55baa2d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 52/63] fix: Pow with unlimited precision and a huge exponent

---
 big_ctx.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3a8b980..1c243fa 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2156,6 +2156,15 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	if y.Cmp(ptFive.get()) == 0 {
+		// x ** 0.5 = sqrt(x)
+		return c.Sqrt(z, x)
+	}
+
+	if z.endless(c) {
+		return z
+	}
+
 	// |log10(x)| is at least 10**-d, so larger exponents are always
 	// out of range.
 	d := 1
@@ -2163,15 +2172,6 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		d += max(0, -x.exp)
 	}
 	if y.adjusted() <= d+19 {
-		if y.Cmp(ptFive.get()) == 0 {
-			// x ** 0.5 = sqrt(x)
-			return c.Sqrt(z, x)
-		}
-
-		if z.endless(c) {
-			return z
-		}
-
 		if y.IsInt() {
 			c.powInt(z, x, y)
 		} else {
-- 
2.43.0


From ef4284deef72fd50a8906f72316361cfdf2f6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 53/63] fix: Atan2, Exp and Hypot underflow or overflow without
 the condition

---
 big_ctx.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1c243fa..55c8b85 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -639,6 +639,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
 
 	ctx := c.working(defaultExtraPrecision)
 
@@ -662,7 +663,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 			putDec(pi)
 		}
 	}
-	return c.finish(z)
+	return c.approx(z, cond)
 }
 
 // atan2Specials handles atan2 special cases.
@@ -972,11 +973,14 @@ func (c Context) Exp(z, x *Big) *Big {
 
 	c = c.dup()
 	cond := z.Context.Conditions
-	z = c.exp(z, x)
+	z = c.working(0).exp(z, x)
 	if z.IsInf(0) {
 		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
 	}
+	if z.isZero() {
+		z.Context.Conditions |= Subnormal | Underflow | Inexact | Rounded
+	}
 	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
 		s := c.Precision - z.Precision()
 		c.shiftl(z, uint64(s))
@@ -1258,6 +1262,8 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 		return z
 	}
 	c.OperatingMode = GDA // the result is rounded
+	cond := z.Context.Conditions
+	z.Context.Conditions = 0
 
 	ctx := c.working(defaultExtraPrecision)
 
@@ -1278,10 +1284,14 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 	ctx.Mul(q0, q0, q0)
 	ctx.Sqrt(z, ctx.Add(z, p0, q0))
 	z.exp += s
-	z.Context.Conditions |= (p0.Context.Conditions | q0.Context.Conditions) & (Inexact | Rounded)
+	got := z.Context.Conditions | p0.Context.Conditions | q0.Context.Conditions
 	putDec(p0)
 	putDec(q0)
 
+	if got&Inexact != 0 {
+		return c.approx(z, cond)
+	}
+	z.Context.Conditions |= cond
 	return c.finish(z)
 }
 
-- 
2.43.0


From 692a5c59d64513225db5c89e3b69a003632205c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 54/63] fix: powers with inexact intermediate results miss
 Inexact

---
 big_ctx.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 55c8b85..6138a84 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2182,13 +2182,19 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		d += max(0, -x.exp)
 	}
 	if y.adjusted() <= d+19 {
+		z.Context.Conditions = 0
 		if y.IsInt() {
 			c.powInt(z, x, y)
 		} else {
 			c.powDec(z, x, y)
 		}
 		if z.IsFinite() && z.Sign() != 0 {
-			return c.finish(z.SetSignbit(sign != 0))
+			z.SetSignbit(sign != 0)
+			if z.Context.Conditions&Inexact != 0 {
+				return c.approx(z, cond)
+			}
+			z.Context.Conditions |= cond
+			return c.finish(z)
 		}
 	}
 
@@ -2218,7 +2224,10 @@ func (c Context) powInt(z, x, y *Big) *Big {
 	y0.Abs(y0)
 
 	x0 := getDec(ctx).CopyAbs(x)
-	defer putDec(x0)
+	defer func() {
+		z.Context.Conditions |= x0.Context.Conditions & (Inexact | Rounded)
+		putDec(x0)
+	}()
 	if neg {
 		ctx.Quo(x0, one.get(), x0)
 	}
-- 
2.43.0


From 6fba6ba8c17492f0dac7405fe6e9f43a09ba5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 55/63] fix: BinarySplit of three and four terms when b(n) is
 not 1

---
 binary_spliting.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5e5856f..1f7400b 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -330,10 +330,6 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// T_2 = A3 * B1 * B2 * P1 * P2 * P3; T_2 is finished.
 		ctx.Mul(t2, t2, s.B /* B12 */)
 
-		// T_1 = A2 * B1 * __ P1 * P2 * __
-		//                 B3           Q3
-		ctx.Mul(t1, t1, B2)
-
 		B3 := B(n3)
 		// T_0 = A1 * B2 * B3 * P1 * __ * __
 		//                           Q2   Q3
@@ -399,15 +395,21 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 
 		b1 := new(Big).Copy(B(n1))
 		ctx.Mul(t3, t3, b1)            // T_3 needs: B23.
-		ctx.Mul(t2, t2, b1)            // T_2 needs: B2.
-		ctx.Mul(t1, t1, b1)            // T_1 is finished.
+		ctx.Mul(t2, t2, b1)            // T_2 needs: B24.
+		ctx.Mul(t1, t1, b1)            // T_1 needs: B34.
 		s.B.Copy(B(n2))                // B = B2.
-		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 is finished.
-		ctx.Mul(s.B, s.B, B(n3))       // B = B23.
+		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 needs: B4.
+		b3 := new(Big).Copy(B(n3))
+		ctx.Mul(t1, t1, b3)            // T_1 needs: B4.
+		ctx.Mul(s.B, s.B, b3)          // B = B23.
 		ctx.Mul(t3, t3, s.B /* B23 */) // T_3 is finished.
-		ctx.Mul(s.T, s.T, s.B)         // T_0 is finished.
+		ctx.Mul(s.T, s.T, s.B)         // T_0 needs: B4.
 		ctx.Mul(s.B, s.B, b1)          // B = B123.
-		ctx.Mul(s.B, s.B, B(n4))       // B = B1234.
+		b4 := new(Big).Copy(B(n4))
+		ctx.Mul(s.T, s.T, b4)          // T_0 is finished.
+		ctx.Mul(t1, t1, b4)            // T_1 is finished.
+		ctx.Mul(t2, t2, b4)            // T_2 is finished.
+		ctx.Mul(s.B, s.B, b4)          // B = B1234.
 
 		ctx.Add(s.T, s.T, t1) // T = T_0 + T_1
 		ctx.Add(s.T, s.T, t2) // T = T_0 + T_1 + T_2
-- 
2.43.0


From 98ccb193d8ee646018d43496186d947057d8bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 56/63] fix: midpoint overflow in BinarySplit near the top of
 the index range

---
 binary_spliting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 1f7400b..ab7a22c 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -418,7 +418,7 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// here we have something bigger so we'll do a binary split
 		// first find the mid point between the points and create the two side
 		// then do the calculations and return the value
-		m := uint64((start + end) / 2)
+		m := start + (end-start)/2
 
 		// We can reuse s as one of the states.
 		s.calculate(ctx, start, m, A, P, B, Q)
-- 
2.43.0


From 15f5524911126dc6ebe28ad794801b73daadbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 57/63] fix: Wallis and Lentz without guard digits diverge or
 never end

---
 continued_frac.go | 61 ++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..19c6bb0 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -70,9 +70,16 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		return z
 	}
 
+	ctx := c
+	if g, ok := g.(Contexter); ok {
+		ctx = g.Context()
+	}
+
+	work := ctx
 	ws, ok := g.(Walliser)
 	if !ok {
-		ws = walliser{prec: c.precision() + 5}
+		work.Precision = ctx.precision() + 5
+		ws = walliser{prec: work.Precision}
 	}
 	a, a_1, b, b_1, p, eps := ws.Wallis()
 
@@ -82,29 +89,33 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a.Copy(t.B)
 	b.SetUint64(1)
 
-	ctx := z.Context
-	if c, ok := g.(Contexter); ok {
-		ctx = c.Context()
-	}
-
+	only := true
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
+		only = false
 
 		z.Copy(a)
-		ctx.FMA(a, a, t.B, ctx.Mul(a_1, a_1, t.A))
+		work.FMA(a, a, t.B, work.Mul(a_1, a_1, t.A))
 		a_1.Copy(z)
 
 		z.Copy(b)
-		ctx.FMA(b, b, t.B, ctx.Mul(b_1, b_1, t.A))
+		work.FMA(b, b, t.B, work.Mul(b_1, b_1, t.A))
 		b_1.Copy(z)
 
-		ctx.Quo(z, a, b)
-		if ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
+		work.Quo(z, a, b)
+		if !ok && z.Sign() != 0 {
+			// The last of the extra digits need not settle.
+			eps.exp = z.adjusted() - ctx.precision() - 2
+		}
+		if work.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
 		}
 		p.Copy(z)
 	}
-	return z
+	if only {
+		z.Copy(a)
+	}
+	return ctx.Round(z)
 }
 
 // Lentzer, if implemented, allows Generators to provide their own backing
@@ -131,7 +142,7 @@ func (l lentzer) Lentz() (f, Δ, C, D, eps *Big) {
 	Δ = WithPrecision(l.prec)
 	C = WithPrecision(l.prec)
 	D = WithPrecision(l.prec)
-	eps = New(1, l.prec)
+	eps = New(1, l.prec-2) // the last digits need not settle
 	return f, Δ, C, D, eps
 }
 
@@ -192,11 +203,18 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		return z
 	}
 
+	ctx := c
+	if g, ok := g.(Contexter); ok {
+		ctx = g.Context()
+	}
+
 	// See if our Generator provides us with backing storage.
+	work := ctx
 	lz, ok := g.(Lentzer)
 	if !ok {
 		// TODO(eric): what is a sensible default precision?
-		lz = lentzer{prec: c.precision() + 5}
+		work.Precision = ctx.precision() + 5
+		lz = lentzer{prec: work.Precision}
 	}
 	f, Δ, C, D, eps := lz.Lentz()
 
@@ -216,17 +234,12 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	C.Copy(f)
 	D.SetUint64(0)
 
-	ctx := z.Context
-	if c, ok := g.(Contexter); ok {
-		ctx = c.Context()
-	}
-
 	for g.Next() && f.IsFinite() {
 		t = g.Term()
 
 		// Set D_j = b_j + a_j*D{_j-1}
 		// Reuse D for the multiplication.
-		ctx.FMA(D, t.A, D, t.B) // D.Add(t.B, D.Mul(t.A, D))
+		work.FMA(D, t.A, D, t.B) // D.Add(t.B, D.Mul(t.A, D))
 
 		// If D_j = 0, set D_j = tiny
 		if D.Sign() == 0 {
@@ -235,7 +248,7 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 
 		// Set C_j = b_j + a_j/C{_j-1}
 		// Reuse C for the division.
-		ctx.Add(C, t.B, ctx.Quo(C, t.A, C))
+		work.Add(C, t.B, work.Quo(C, t.A, C))
 
 		// If C_j = 0, set C_j = tiny
 		if C.Sign() == 0 {
@@ -243,16 +256,16 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		}
 
 		// Set D_j = 1/D_j
-		ctx.Quo(D, one.get(), D)
+		work.Quo(D, one.get(), D)
 
 		// Set Δ_j = C_j*D_j
-		ctx.Mul(Δ, C, D)
+		work.Mul(Δ, C, D)
 
 		// Set f_j = f{_j-1}*Δ_j
-		ctx.Mul(f, f, Δ)
+		work.Mul(f, f, Δ)
 
 		// If |Δ_j - 1| < eps then exit
-		if ctx.Sub(Δ, Δ, one.get()).CmpAbs(eps) < 0 {
+		if work.Sub(Δ, Δ, one.get()).CmpAbs(eps) < 0 {
 			break
 		}
 	}
-- 
2.43.0


From fecb6f056e002642532a64226d60915661550df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 58/63] fix: cancellation in Log and Log10 of numbers just
 below one

---
 big_ctx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6138a84..d98fd0d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1653,7 +1653,11 @@ func (c Context) logLarge(z, x *Big) int64 {
 	// 0.0001
 	case x.Scale() >= x.Precision():
 		p = -int64(-x.exp - x.Precision() + 1)
-		c.Precision = int(float64(c.precision()) * 1.5)
+		if p == -1 {
+			// 0.1 <= x < 1 isn't rescaled: log(y) and log(10)
+			// would cancel each other if x is close to 1.
+			p = 0
+		}
 	// 12.345
 	default:
 		p = int64(-x.Scale() + x.Precision() - 1)
@@ -1661,7 +1665,7 @@ func (c Context) logLarge(z, x *Big) int64 {
 
 	// Rescale to 1 <= x < 10
 	y := new(Big).Copy(x)
-	y.exp = -(x.Precision() - 1)
+	y.exp -= int(p)
 
 	// Continued fraction algorithm is for log(1+x)
 	c.Sub(y, y, one.get())
-- 
2.43.0


From f7e1c945e6ecbe29e4ab758e01ae28b5e169f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 59/63] fix: integer quotients beyond the context's range did
 not overflow

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d98fd0d..abe4452 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2602,7 +2602,7 @@ func (c Context) QuoInt(z, x, y *Big) *Big {
 		if z.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
 		}
-		return z
+		return c.fix(z)
 	}
 
 	// NaN / NaN
@@ -2670,7 +2670,7 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			r.setNaN(DivisionImpossible, qnan, quointprec)
 			return z, r
 		}
-		return z, c.finish(r)
+		return c.fix(z), c.finish(r)
 	}
 
 	// NaN / NaN
-- 
2.43.0


From f48f8ad79249963a7564e73d4b304e800f42611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 60/63] fix: BinarySplitDynamic compares the last terms
 relative to the sum

The threshold was absolute and used a zero Precision as is, so that sums
far below one, or computed with the default precision, stopped early.
---
 binary_spliting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index ab7a22c..42cafcf 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -116,6 +116,8 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 	//     Q = Q_l*Q_r
 	//     T = B_l*P_l*T_r + B_r*Q_r*T_l
 
+	ctx.Precision = ctx.precision()
+
 	currentLastTerm := uint64(16)
 	current := newState()
 	current.calculate(ctx, 0, currentLastTerm, A, P, B, Q)
@@ -182,7 +184,8 @@ func BinarySplitDynamic(ctx Context, A, P, B, Q SplitFunc) *Big {
 			ctx.Sub(diff, markValue1, markValue2)
 
 			// here's the one case where we need to do a check for
-			// something 1E-ctx if equal to or less than
+			// something 1E-ctx (relative) if equal to or less than
+			eps.exp = markValue2.adjusted() - ctx.Precision
 			if diff.CmpAbs(eps) < 0 {
 				return markValue2
 			}
-- 
2.43.0


From 142d0a9f57d6e266500f09ba76b99683b02c1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 61/63] fix: Lentz starts small fractions without b0 from a
 small enough value

The stand-in for a zero b0 was 10E-60 even if a1/b1 was smaller, so that
the result was off by orders of magnitude.
---
 continued_frac.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index 19c6bb0..18d3d13 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -226,7 +226,8 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 
 	t := g.Term()
 
-	if t.B.Sign() != 0 {
+	b0 := t.B.Sign() != 0
+	if b0 {
 		f.Copy(t.B)
 	} else {
 		f.Copy(tiny)
@@ -234,9 +235,19 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	C.Copy(f)
 	D.SetUint64(0)
 
-	for g.Next() && f.IsFinite() {
+	// below makes z, a copy of tiny, as tiny next to 10**adj.
+	below := func(z *Big, adj int) {
+		z.exp += min(adj, 0)
+	}
+
+	for first := true; g.Next() && f.IsFinite(); first = false {
 		t = g.Term()
 
+		if first && !b0 && t.A.Sign() != 0 && t.B.Sign() != 0 {
+			below(f, t.A.adjusted()-t.B.adjusted())
+			C.Copy(f)
+		}
+
 		// Set D_j = b_j + a_j*D{_j-1}
 		// Reuse D for the multiplication.
 		work.FMA(D, t.A, D, t.B) // D.Add(t.B, D.Mul(t.A, D))
@@ -244,6 +255,9 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		// If D_j = 0, set D_j = tiny
 		if D.Sign() == 0 {
 			D.Copy(tiny)
+			if t.B.Sign() != 0 {
+				below(D, t.B.adjusted())
+			}
 		}
 
 		// Set C_j = b_j + a_j/C{_j-1}
@@ -253,6 +267,9 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		// If C_j = 0, set C_j = tiny
 		if C.Sign() == 0 {
 			C.Copy(tiny)
+			if t.B.Sign() != 0 {
+				below(C, t.B.adjusted())
+			}
 		}
 
 		// Set D_j = 1/D_j
-- 
2.43.0


From db1e3c33549242905801021580efdf0da185dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 62/63] fix: round text beyond a decimal's range like any other
 in Context.SetString

---
 big_ctx.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index abe4452..b7427b2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -3137,7 +3137,21 @@ func (c Context) SetString(z *Big, s string) (*Big, bool) {
 	if z.invalidContext(c) {
 		return nil, false
 	}
-	if _, ok := z.SetString(s); !ok {
+	cond := z.Context.Conditions
+	z.Context.Conditions = 0
+	_, ok := z.SetString(s)
+	// s may be outside of what any decimal can hold, in which case what it
+	// becomes is up to c.
+	switch flow := z.Context.Conditions; {
+	case flow&Overflow != 0:
+		z.setTriple(1, z.form&signbit, MaxScale+1)
+	case flow&Underflow != 0:
+		z.setTriple(1, z.form&signbit, MinScale-MaxPrecision-2)
+	case flow&Clamped != 0 && z.exp < 0:
+		z.exp = MinScale - MaxPrecision
+	}
+	z.Context.Conditions |= cond
+	if !ok {
 		return nil, false
 	}
 	return c.finish(z), true
-- 
2.43.0


From a9283c794ee6666a2a50f66b5b5f72a80a182e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:43 +0000
Subject: [PATCH 63/63] fix: evaluate continued fractions with vanishing
 convergents or denominators in Context.Wallis

---
 continued_frac.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index 18d3d13..7f00380 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -88,10 +88,17 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a_1.SetUint64(1)
 	a.Copy(t.B)
 	b.SetUint64(1)
+	b_1.SetUint64(0)
+	p.SetUint64(0)
 
 	only := true
+	prev := false // p is the previous convergent
+	cond := z.Context.Conditions
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
+		if !only && !prev {
+			z.Context.Conditions = cond
+		}
 		only = false
 
 		z.Copy(a)
@@ -102,15 +109,22 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		work.FMA(b, b, t.B, work.Mul(b_1, b_1, t.A))
 		b_1.Copy(z)
 
+		cond = z.Context.Conditions
 		work.Quo(z, a, b)
+		if b.Sign() == 0 && b_1.Sign() != 0 {
+			// The following convergents need not be infinite.
+			prev = false
+			continue
+		}
 		if !ok && z.Sign() != 0 {
 			// The last of the extra digits need not settle.
 			eps.exp = z.adjusted() - ctx.precision() - 2
 		}
-		if work.Sub(p, z, p).CmpAbs(eps) <= 0 {
+		if prev && work.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
 		}
 		p.Copy(z)
+		prev = true
 	}
 	if only {
 		z.Copy(a)
-- 
2.43.0

