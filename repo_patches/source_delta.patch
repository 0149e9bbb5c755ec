From 45d3abe2365e75e75e3beb785b57d9e78005d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 01/46] fix: define normal(const Var&), declared in the public
 header but missing from the library

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..e37d599 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -112,6 +112,11 @@ tsym::Var tsym::expand(const Var& arg)
     return Var(arg.get()->expand());
 }
 
+tsym::Var tsym::normal(const Var& arg)
+{
+    return Var(arg.get()->normal());
+}
+
 tsym::Var tsym::simplify(const Var& arg)
 /* Currently, only normalization and expansion is tested for the simplest representation. */
 {
-- 
2.43.0


From a382c22ccbe424e006fb909011f18ecc133da516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:24 +0000
Subject: [PATCH 02/46] fix: prime factors count as equally frequent only if
 adjacent groups differ

A base with prime powers like 2^2*3^4 was taken to contain every prime twice, hence 1/324
evaluated to 1/36 and 324^(1/5) to 6^(2/5).
---
 src/primefac.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..59105d8 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,7 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime == *(prime - 1) || *prime != *(prime + (guess - 1)))
                     return 0;
 
             return guess;
-- 
2.43.0


From 36a656562fd63812a2a38eb512a836662939de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:21 +0000
Subject: [PATCH 03/46] fix: keep all factors when merging numeric powers
 yields a new prefactor

Merging e.g. 6 and 1/sqrt(21) to 2*sqrt(3/7) dropped every factor of the product, so its
value silently became 1.
---
 src/productsimpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..709284b 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -265,9 +265,8 @@ namespace tsym {
             else if (areEqual(res, q1p1))
                 return join(std::move(q1), merge(p, qRest));
 
-            TSYM_ERROR("ProductSimpl: Error merging %S and %S to %S", p1, q1, res);
-
-            return {};
+            /* Two numeric powers can be contracted to a prefactor and another numeric power. */
+            return join(std::move(res), merge(pRest, qRest));
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From 69b0f6de532352eaa134574ec62ff8a5636d9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:31 +0000
Subject: [PATCH 04/46] fix: compare rationals exactly and convert big ones to
 double without overflow

Integers beyond the range of a double terminated the process (boost throws while rounding) or
turned a fraction of two of them into NaN, and the order of rationals that are close to each
other or huge was decided by their rounded double values.
---
 src/number.cpp | 29 ++++++++++++++++++++++++++---
 src/number.h   |  5 +++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index c939abc..87f3f42 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -1,5 +1,6 @@
 
 #include "number.h"
+#include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cassert>
 #include <cmath>
@@ -222,7 +223,7 @@ namespace tsym {
              * lead to an exact integer solution of the power. Thus, it is save to cast the double power
              * result to an integer after only adding 0.1 (which is somewhat arbitrary, could be any value
              * less than 0.5). */
-            const double exact = std::pow(static_cast<double>(n), 1.0 / static_cast<double>(denomExponent));
+            const double exact = std::pow(Number(n).toDouble(), 1.0 / Number(denomExponent).toDouble());
 
             if (exact > std::numeric_limits<int>::max())
                 /* Result wouldn't fit into an int. */
@@ -252,7 +253,7 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
     if (denomExponent == 1)
         return;
     else if (numTest == 0 || denomTest == 0)
-        result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
+        result = {std::pow(result.toDouble(), 1.0 / Number(denomExponent).toDouble())};
     else
         result = {numTest, denomTest};
 }
@@ -291,11 +292,30 @@ tsym::Int tsym::Number::denominator() const
 double tsym::Number::toDouble() const
 {
     if (isRational())
-        return boost::rational_cast<double>(getRational());
+        return toDouble(getRational());
     else
         return getDouble();
 }
 
+double tsym::Number::toDouble(const Rational& fraction)
+/* Integers that exceed the range of a double can't be converted directly, but their ratio might well be
+ * representable. Both are thus reduced to their most significant bits first. */
+{
+    static constexpr int nBits = std::numeric_limits<double>::max_exponent / 2;
+    const Int num = abs(fraction.numerator());
+    const Int& denom = fraction.denominator();
+
+    if (num == 0)
+        return 0.0;
+
+    const int numShift = std::max(0, static_cast<int>(msb(num)) - nBits);
+    const int denomShift = std::max(0, static_cast<int>(msb(denom)) - nBits);
+    const double ratio = static_cast<double>(Int(num >> numShift)) / static_cast<double>(Int(denom >> denomShift));
+    const double result = std::ldexp(ratio, numShift - denomShift);
+
+    return fraction.numerator() < 0 ? -result : result;
+}
+
 namespace tsym {
     namespace {
         bool areEqual(double lhs, double rhs)
@@ -324,6 +344,9 @@ bool tsym::operator==(const Number& lhs, const Number& rhs)
 
 bool tsym::operator<(const Number& lhs, const Number& rhs)
 {
+    if (lhs.isRational() && rhs.isRational())
+        return lhs.numerator() * rhs.denominator() < rhs.numerator() * lhs.denominator();
+
     return lhs.toDouble() < rhs.toDouble();
 }
 
diff --git a/src/number.h b/src/number.h
index b6113b3..dfff850 100644
--- a/src/number.h
+++ b/src/number.h
@@ -51,15 +51,16 @@ namespace tsym {
 
             Rep operator()(const Rational& lhs, double rhs)
             {
-                return Operation{}(boost::rational_cast<double>(lhs), rhs);
+                return Operation{}(toDouble(lhs), rhs);
             }
 
             Rep operator()(double lhs, const Rational& rhs)
             {
-                return Operation{}(lhs, boost::rational_cast<double>(rhs));
+                return Operation{}(lhs, toDouble(rhs));
             }
         };
 
+        static double toDouble(const Rational& fraction);
         void setDebugString();
         void tryDoubleToFraction();
         double getDouble() const;
-- 
2.43.0


From b6c5c78cb734227ee25d68339815ccc024815818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:49 +0000
Subject: [PATCH 05/46] fix: quotient of equal tangents is one instead of an
 access to an empty list

---
 src/productsimpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 709284b..5eacd57 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,6 +165,11 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                /* The factors cancel each other, e.g. tan(a)/tan(a). */
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
-- 
2.43.0


From 1d53b80adee251cceb39c3981df43b142a2e8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 06/46] fix: don't drop factors when contracting tangents with
 fractional exponents

tan(a)*tan(a)^(2/3) evaluated to tan(a).
---
 src/productsimpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 5eacd57..e242aed 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -169,6 +169,9 @@ namespace tsym {
             if (res.empty())
                 /* The factors cancel each other, e.g. tan(a)/tan(a). */
                 return {Numeric::one()};
+            else if (res.size() > 2)
+                /* No contraction possible, e.g. tan(a)*tan(a)^(2/3), where the second tangent isn't split up. */
+                return {f1, f2};
 
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
-- 
2.43.0


From 6c1e69a6d4c1754354a3601ae5e0313556fb92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 07/46] fix: logarithm of an even power of a negative base
 isn't undefined

log((-1 - p)^2) with p > 0 was Undefined, as the exponent was moved in front of log(-1 - p).
---
 src/logarithm.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 8812c4b..24f28fc 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -5,6 +5,7 @@
 #include "constant.h"
 #include "fraction.h"
 #include "logging.h"
+#include "numberfct.h"
 #include "numeric.h"
 #include "power.h"
 #include "product.h"
@@ -85,7 +86,13 @@ tsym::BasePtr tsym::Logarithm::createFromConstant(const BasePtr& arg)
 
 tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
 {
-    return Product::create(arg->exp(), create(arg->base()));
+    const BasePtr base(arg->base());
+    const BasePtr exp(arg->exp());
+
+    if (base->isNegative() && isNumeric(*exp) && isEvenInt(*exp->numericEval()))
+        return Product::create(exp, create(Product::minus(base)));
+    else
+        return Product::create(exp, create(base));
 }
 
 std::optional<tsym::Number> tsym::Logarithm::numericEval() const
-- 
2.43.0


From 581940461c05001f5f140f9fcbca3480283e080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 08/46] fix: asin and acos of a function value outside of [-1,
 1] are undefined

asin(log(5)) was accepted and threw an exception as soon as it got evaluated, e.g. when squared.
---
 src/trigonometric.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7172626..56c4304 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -35,6 +35,16 @@ namespace tsym {
             return Product::create(y, Power::oneOver(x));
         }
 
+        bool isInverseArgOutOfRange(Trigonometric::Type type, const Base& arg)
+        {
+            if (type != Trigonometric::Type::ASIN && type != Trigonometric::Type::ACOS)
+                return false;
+
+            const auto nArg = arg.numericEval();
+
+            return nArg && (*nArg < -1 || *nArg > 1);
+        }
+
         Name nameBy(Trigonometric::Type type)
         {
             switch (type) {
@@ -116,6 +126,8 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
 {
     if (isUndefined(*arg))
         return arg;
+    else if (isInverseArgOutOfRange(type, *arg))
+        return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
     else if (doesSymmetryApply(arg))
-- 
2.43.0


From 018255d120ccfd50d9a1a00af003b54b248cb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 09/46] fix: reduce trigonometric arguments by all full turns
 at once

The argument was shifted by single turns, so that sin(10^12*pi) practically never returned, and
the sign of e.g. cos(2)^3 wasn't recognised before determining the quadrant (failing assertion).
---
 src/numtrigosimpl.cpp | 24 ++++++++++++++++++++----
 src/numtrigosimpl.h   |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..4792ea5 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -130,7 +130,7 @@ bool tsym::NumTrigoSimpl::isNotAnInverseFct() const
 
 void tsym::NumTrigoSimpl::computeSinCosTan()
 {
-    if (isArgRationalNonZeroNumeric())
+    if (isArgRationalNonZeroNumeric() || isArgTooLarge())
         /* This can't be simplified, break early. */
         return;
 
@@ -146,6 +146,17 @@ bool tsym::NumTrigoSimpl::isArgRationalNonZeroNumeric() const
         return isRationalNumeric(*arg);
 }
 
+bool tsym::NumTrigoSimpl::isArgTooLarge() const
+/* The shift of a large argument is meaningless due to lack of precision, unless it's a multiple of Pi. */
+{
+    static const Number limit(1e6);
+
+    if (isNumeric(*arg) || abs(*arg->numericEval()) < limit)
+        return false;
+    else
+        return !isNumeric(*Product::create(arg, Power::oneOver(Pi)));
+}
+
 void tsym::NumTrigoSimpl::prepareSinCosTan()
 {
     if (isNumeric(*arg))
@@ -164,9 +175,13 @@ void tsym::NumTrigoSimpl::adjustNumericArg()
 void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
+    const auto nTurns = [this]() { return std::floor((*arg->numericEval() / PI).toDouble() / 2.0); };
+
+    /* The argument is shifted into 0 <= arg < 2*Pi, multiple turns are handled at once. */
+    for (auto n = nTurns(); std::abs(n) > 1.0 && std::isfinite(n); n = nTurns())
+        arg = Sum::create(arg, Product::create(Numeric::create(Int(-n)), twoPi));
 
-    /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    while (*arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
@@ -200,7 +215,8 @@ unsigned tsym::NumTrigoSimpl::getQuadrant() const
     const BasePtr piMultiple(Product::create(arg, Power::oneOver(Pi)));
     const Number fac(*piMultiple->numericEval());
 
-    assert(fac >= 0 && fac < 2);
+    /* The range has been adjusted before, but is exact only up to the precision of a double. */
+    assert(fac > -1 && fac < 3);
 
     if (fac < Number(1, 2))
         return 1;
diff --git a/src/numtrigosimpl.h b/src/numtrigosimpl.h
index 3f8e1a1..0bcf983 100644
--- a/src/numtrigosimpl.h
+++ b/src/numtrigosimpl.h
@@ -33,6 +33,7 @@ namespace tsym {
         bool isNotAnInverseFct() const;
         void computeSinCosTan();
         bool isArgRationalNonZeroNumeric() const;
+        bool isArgTooLarge() const;
         void prepareSinCosTan();
         void adjustNumericArg();
         void adjustArgRange();
-- 
2.43.0


From 359eb6c7f9c84ab2e907c49aba581cbbcdb8ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 10/46] fix: contract opposite powers to a tangent only if they
 are sine and cosine

cos(a)^(1/2)*cos(a)^(-1/2) was turned into a power of tan(a).
---
 src/productsimpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index e242aed..0dfc2e1 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -177,7 +177,8 @@ namespace tsym {
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
 
-            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))
+              && res.front()->base()->isDifferent(*res.back()->base())) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
-- 
2.43.0


From 4b984876f775b0a5bc18694a574fe585afa72f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 11/46] fix: odd powers of a negative sum or function are
 negative

The cubic root of (-5 + sqrt(2))^3 wasn't identified as undefined and threw an exception upon
numeric evaluation.
---
 src/power.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index b0d303b..86f0880 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -122,9 +122,11 @@ bool tsym::Power::isPositive() const
 
 bool tsym::Power::isNegative() const
 {
-    /* Currently, negative powers are always resolved as e.g. (-a)^(1/3) = (-1)*a^(1/3) for product
-     * bases or (-2)^(1/3) = (-1)*2^(1/3) for numeric powers. */
-    return false;
+    /* Negative powers are resolved as e.g. (-a)^3 = (-1)*a^3 for product bases or numeric powers, but not for
+     * sums or functions. */
+    const auto nExp = expRef->numericEval();
+
+    return nExp && isOddInt(*nExp) && baseRef->isNegative();
 }
 
 size_t tsym::Power::hash() const
-- 
2.43.0


From bda34cde3b9c4ad3fde2cc7e0f56135ae072e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 12/46] fix: shift arguments of inverse trigonometric functions
 by all full turns at once

---
 src/trigonometric.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 56c4304..48505e4 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -289,6 +289,12 @@ tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
     const auto [lower, upper] = interval(type);
     const BasePtr& endFactor = type == Type::ATAN ? Numeric::mOne() : Numeric::one();
 
+    const Number twoPi(*timesPi(2)->numericEval());
+
+    for (auto n = std::floor((*arg->numericEval() / twoPi).toDouble()); std::abs(n) > 1.0 && std::isfinite(n);
+         n = std::floor((*arg->numericEval() / twoPi).toDouble()))
+        arg = Sum::create(arg, Product::create(Numeric::create(Int(-n)), timesPi(2)));
+
     while (arg->numericEval() >= upper->numericEval())
         arg = Sum::create(arg, timesPi(-2));
 
-- 
2.43.0


From adf64ba6e0c32fef58bbf08d4f351f74625d50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:07 +0000
Subject: [PATCH 13/46] fix: logarithm of a tiny power isn't undefined

---
 src/logarithm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 24f28fc..76f95fb 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -49,12 +49,12 @@ bool tsym::Logarithm::isInvalidArg(const Base& arg)
         invalid = true;
     else if (isZero(arg))
         invalid = true;
-    else if (isPower(arg) && arg.base()->isEqual(*Constant::createE()))
+    else if (arg.isNegative())
+        invalid = true;
+    else if (isPower(arg))
         /* Catches log(e^(-n)) with n being a large Numeric, which would numerically be evaluated to
          * zero and thus resulting in an Undefined return value. */
         ;
-    else if (arg.isNegative())
-        invalid = true;
     else if (arg.numericEval() == 0)
         invalid = true;
 
-- 
2.43.0


From 67828e4027ab885a3d7ef763445f02cdb1e92ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:25 +0000
Subject: [PATCH 14/46] fix: expand powers of sums that contract to a non-sum
 on the way

---
 src/baseptrlistfct.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/baseptrlistfct.cpp b/src/baseptrlistfct.cpp
index 69986b9..1bb1f89 100644
--- a/src/baseptrlistfct.cpp
+++ b/src/baseptrlistfct.cpp
@@ -126,10 +126,14 @@ namespace tsym {
             second = sums.front();
             sums.pop_front();
 
-            for (const auto& item : first->operands())
-                summands.push_back(Product::create(item, second)->expand());
-
-            sums.push_front(Sum::create(summands));
+            if (isSum(*first)) {
+                for (const auto& item : first->operands())
+                    summands.push_back(Product::create(item, second)->expand());
+
+                sums.push_front(Sum::create(summands));
+            } else
+                /* The preceding sums have been contracted, e.g. (sqrt(2) + sqrt(8))^2 = 18. */
+                sums.push_front(Product::create(first, second)->expand());
 
             return expandProductOf(sums);
         }
-- 
2.43.0


From e05433282e9f76a2d1d7adcffd820e21451249dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:56 +0000
Subject: [PATCH 15/46] fix: normal form of a root of a negative fraction isn't
 undefined

---
 src/powernormal.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 011abd4..245d1eb 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -73,10 +73,24 @@ tsym::Fraction tsym::PowerNormal::normalNumEvalExp() const
         return normalNumEvalNegExp();
 }
 
+namespace tsym {
+    namespace {
+        Fraction avoidNegative(const Fraction& f)
+        /* Splitting sqrt(-1/a) into sqrt(-1)/sqrt(a) is undefined, but sqrt(1)/sqrt(-a) isn't. */
+        {
+            if (f.num->isNegative() || f.denom->isNegative())
+                return {Product::minus(f.num), Product::minus(f.denom)};
+            else
+                return f;
+        }
+    }
+}
+
 tsym::Fraction tsym::PowerNormal::normalNumEvalPosExp() const
 {
-    const BasePtr num(evaluatePow(rationalBase.num, rationalExp));
-    const BasePtr denom(evaluatePow(rationalBase.denom, rationalExp));
+    const auto base = avoidNegative(rationalBase);
+    const BasePtr num(evaluatePow(base.num, rationalExp));
+    const BasePtr denom(evaluatePow(base.denom, rationalExp));
 
     return {num, denom};
 }
@@ -90,9 +104,10 @@ tsym::BasePtr tsym::PowerNormal::evaluatePow(const BasePtr& base, const BasePtr&
 
 tsym::Fraction tsym::PowerNormal::normalNumEvalNegExp() const
 {
+    const auto base = avoidNegative(rationalBase);
     const BasePtr positiveExp(Product::minus(rationalExp));
-    const BasePtr num(evaluatePow(rationalBase.denom, positiveExp));
-    const BasePtr denom(evaluatePow(rationalBase.num, positiveExp));
+    const BasePtr num(evaluatePow(base.denom, positiveExp));
+    const BasePtr denom(evaluatePow(base.num, positiveExp));
 
     return {num, denom};
 }
-- 
2.43.0


From dd10412244bb3ebfdff7b415bbe6aa5df3cc0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:50 +0000
Subject: [PATCH 16/46] fix: leave inverse trigonometric functions of huge
 arguments as they are

---
 src/trigonometric.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 48505e4..abef1ad 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -224,6 +224,15 @@ const tsym::Trigonometric* tsym::Trigonometric::tryCast(const BasePtr& arg)
     return cast;
 }
 
+namespace tsym {
+    namespace {
+        bool isArgTooLarge(const Base& arg)
+        {
+            return std::abs(arg.numericEval()->toDouble()) > 1.e6;
+        }
+    }
+}
+
 tsym::BasePtr tsym::Trigonometric::createFromTrigo(Type type, const BasePtr& arg)
 {
     const Trigonometric* other(tryCast(arg));
@@ -234,6 +243,9 @@ tsym::BasePtr tsym::Trigonometric::createFromTrigo(Type type, const BasePtr& arg
     else if (isTanOfAtan2(type, otherType))
         /* Must be handeled separately due to different function argument: */
         return atan2ArgEval(other->arg1, other->arg2);
+    else if (isThisTheInverse(type, otherType) && arg->numericEval() && isArgTooLarge(*other->arg1))
+        /* Double precision doesn't suffice to find the number of full turns. */
+        return createInstance(type, {arg});
     else if (isThisTheInverse(type, otherType) && arg->numericEval())
         /* If the argument lies in an invalid range for the inner trigonometric function, the result
          * has been Undefined in the first place, thus no additional checks necessary here. */
@@ -291,8 +303,7 @@ tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
 
     const Number twoPi(*timesPi(2)->numericEval());
 
-    for (auto n = std::floor((*arg->numericEval() / twoPi).toDouble()); std::abs(n) > 1.0 && std::isfinite(n);
-         n = std::floor((*arg->numericEval() / twoPi).toDouble()))
+    if (const auto n = std::floor((*arg->numericEval() / twoPi).toDouble()); std::abs(n) > 1.0)
         arg = Sum::create(arg, Product::create(Numeric::create(Int(-n)), timesPi(2)));
 
     while (arg->numericEval() >= upper->numericEval())
-- 
2.43.0


From 19a434845d760df4ca5ee582f4d6fe74481ab9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 17/46] fix: arcus tangent of a negative floating point number
 is in (-pi/2, pi/2)

---
 src/numtrigosimpl.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 4792ea5..1243b81 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -460,9 +460,6 @@ void tsym::NumTrigoSimpl::atan()
         resultTimesSign();
     else if (isDoubleNumeric(*origArg)) {
         reset();
-        compNumerically([](auto arg) {
-            const double result = std::atan(arg);
-            return result >= 0 ? result : 2 * M_PI + result;
-        });
+        compNumerically([](auto arg) { return std::atan(arg); });
     }
 }
-- 
2.43.0


From 4f365d959b4175a751233cfa10d6cdf515e49557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:53 +0000
Subject: [PATCH 18/46] fix: names that start with pi or euler are symbols

---
 src/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..f7a044c 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -63,8 +63,11 @@ namespace tsym {
                 functions.add("sin", Fct::SIN)("cos", Fct::COS)("tan", Fct::TAN)("asin", Fct::ASIN)("acos", Fct::ACOS)(
                   "atan", Fct::ATAN)("sqrt", Fct::SQRT)("log", Fct::LOG);
 
-                scalar = no_case[qi::lit("pi")][bind(&QiParser::pushPi)]
-                  | no_case[qi::lit("euler")][bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
+                nameEnd = !(qi::ascii::alnum | '_');
+
+                scalar = (no_case[qi::lit("pi")] >> nameEnd)[bind(&QiParser::pushPi)]
+                  | (no_case[qi::lit("euler")] >> nameEnd)[bind(&QiParser::pushEuler)]
+                  | symbol[bindWithArg(&QiParser::pushSymbol)]
                   | floatingPoint[bindWithArg(&QiParser::pushDouble)] | integer[bindWithArg(&QiParser::pushInteger)];
 
                 oneArgFunction = (no_case[functions] >> '(' >> expression >> ')')[bindWithArg(&QiParser::toFunction)];
@@ -245,6 +248,7 @@ namespace tsym {
             SymbolParser<Iterator> symbol{};
             BigIntParser<Iterator> integer{};
             Rule expression;
+            NoSpaceRule nameEnd;
             NoSpaceRule scalar;
             Rule oneArgFunction;
             Rule twoArgFunction;
-- 
2.43.0


From 7c6ae0e27c61a16eb59714682df15931238c7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 19/46] fix: print floating point prefactors of fractions

---
 src/printer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..7f44753 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -226,10 +226,14 @@ namespace tsym {
 
                 /* Adjust the previous logic and move factors like 2/3 to numerator/denominator. */
                 const auto fracFactor = frac.first.front()->numericEval();
-                frac.first.pop_front();
 
                 assert(fracFactor);
 
+                if (fracFactor->isDouble())
+                    return frac;
+
+                frac.first.pop_front();
+
                 frac.first.push_front(Numeric::create(fracFactor->numerator()));
                 frac.second.push_front(Numeric::create(fracFactor->denominator()));
 
-- 
2.43.0


From f78f5432668f385e2bb68b2a8f000a7d6e4c5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:31 +0000
Subject: [PATCH 20/46] fix: integers with leading zeros are decimal

---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index f7a044c..fa4841e 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -1,5 +1,6 @@
 
 #include "parser.h"
+#include <algorithm>
 #include <boost/algorithm/cxx11/all_of.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <functional>
@@ -143,7 +144,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                /* A leading zero would be taken for the prefix of an octal number. */
+                const auto first = std::min(digits.find_first_not_of('0'), digits.size() - 1);
+
+                stack.push(Numeric::create(Int(digits.substr(first))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From 50fe673bd14af0cb8675a7cc39864a36e07b376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:45 +0000
Subject: [PATCH 21/46] fix: numeric evaluation of a power doesn't throw for a
 zero denominator

---
 src/power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/power.cpp b/src/power.cpp
index 86f0880..1a3039c 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -89,7 +89,7 @@ std::optional<tsym::Number> tsym::Power::numericEval() const
     const auto nExp = expRef->numericEval();
     const auto res = baseRef->numericEval();
 
-    if (nExp && res)
+    if (nExp && res && !(*res == 0 && *nExp < 0))
         return res->toThe(*nExp);
 
     return std::nullopt;
-- 
2.43.0


From a4ea105f24ecfd3289f406b7ce95864ca290a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:14 +0000
Subject: [PATCH 22/46] fix: atan2 of a tangent lies in the range of atan2

---
 src/trigonometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index abef1ad..b47145e 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -381,8 +381,8 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
     const BasePtr atan2Arg(atan2ArgEval(y, x));
     const Trigonometric* trigo(tryCast(atan2Arg));
 
-    if (trigo != nullptr && trigo->type == Type::TAN)
-        return trigo->arg1;
+    if (trigo != nullptr && trigo->type == Type::TAN && !isArgTooLarge(*trigo->arg1))
+        return shiftAtanResultIntoRange(shiftArgIntoRange(Type::ATAN, trigo->arg1), increment);
 
     NumTrigoSimpl numTrigo(atan2ArgEval(y, x), Type::ATAN);
 
-- 
2.43.0


From 86977aa5cf703b53cdf8d683ee5ca05164cc60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:54 +0000
Subject: [PATCH 23/46] fix: normal form of a root of a fraction with negative
 constant numerator and denominator

---
 src/powernormal.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 245d1eb..0553da5 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -75,10 +75,11 @@ tsym::Fraction tsym::PowerNormal::normalNumEvalExp() const
 
 namespace tsym {
     namespace {
-        Fraction avoidNegative(const Fraction& f)
+        Fraction avoidNegative(const Fraction& f, const SymbolMap& map)
         /* Splitting sqrt(-1/a) into sqrt(-1)/sqrt(a) is undefined, but sqrt(1)/sqrt(-a) isn't. */
         {
-            if (f.num->isNegative() || f.denom->isNegative())
+            if (map.replaceTmpSymbolsBackFrom(f.num)->isNegative()
+              || map.replaceTmpSymbolsBackFrom(f.denom)->isNegative())
                 return {Product::minus(f.num), Product::minus(f.denom)};
             else
                 return f;
@@ -88,7 +89,7 @@ namespace tsym {
 
 tsym::Fraction tsym::PowerNormal::normalNumEvalPosExp() const
 {
-    const auto base = avoidNegative(rationalBase);
+    const auto base = avoidNegative(rationalBase, map);
     const BasePtr num(evaluatePow(base.num, rationalExp));
     const BasePtr denom(evaluatePow(base.denom, rationalExp));
 
@@ -104,7 +105,7 @@ tsym::BasePtr tsym::PowerNormal::evaluatePow(const BasePtr& base, const BasePtr&
 
 tsym::Fraction tsym::PowerNormal::normalNumEvalNegExp() const
 {
-    const auto base = avoidNegative(rationalBase);
+    const auto base = avoidNegative(rationalBase, map);
     const BasePtr positiveExp(Product::minus(rationalExp));
     const BasePtr num(evaluatePow(base.denom, positiveExp));
     const BasePtr denom(evaluatePow(base.num, positiveExp));
-- 
2.43.0


From 1a2d8e8e40ec329bbe99c6018640382556cf223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:22 +0000
Subject: [PATCH 24/46] fix: atan2 of a tangent of a rational number stays
 exact

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index b47145e..0f50d10 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -400,7 +400,7 @@ tsym::BasePtr tsym::Trigonometric::shiftAtanResultIntoRange(BasePtr result, Base
 
     assert(result->numericEval());
 
-    if (isNumeric(*result) && !isZero(*result)) {
+    if (isNumeric(*result) && result->numericEval()->isDouble()) {
         increment = Numeric::create(*increment->numericEval());
         summand = Numeric::create(*summand->numericEval());
     }
-- 
2.43.0


From e8ffd89a64dbe30575567f1a23e987d1fdc446b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:06 +0000
Subject: [PATCH 25/46] fix: derivative of a power of a negative base with
 constant exponent isn't undefined

---
 src/power.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index 1a3039c..4dee43e 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -104,8 +104,12 @@ tsym::Fraction tsym::Power::normal(SymbolMap& map) const
 
 tsym::BasePtr tsym::Power::diffWrtSymbol(const Base& symbol) const
 {
-    const BasePtrList summands{Product::create(Logarithm::create(baseRef), expRef->diffWrtSymbol(symbol)),
-      Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+    const BasePtr diffExp = expRef->diffWrtSymbol(symbol);
+    BasePtrList summands{Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+
+    if (!isZero(*diffExp))
+        /* The logarithm isn't defined for a negative base, which is fine for constant exponents. */
+        summands.push_front(Product::create(Logarithm::create(baseRef), diffExp));
 
     return Product::create(clone(), Sum::create(summands));
 }
-- 
2.43.0


From 3197e39b51fa2c4dd7aaded0b81affedb24bbd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:38 +0000
Subject: [PATCH 26/46] fix: derivative of atan2 with zero second argument
 isn't undefined

---
 src/trigonometric.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 0f50d10..7be066a 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -477,6 +477,9 @@ tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& symbol) const
 {
     if (type != Type::ATAN2)
         return diffWrtSymbol(*arg1, symbol);
+    else if (isZero(*arg2))
+        /* The quotient of both arguments isn't defined, but the function is piecewise constant. */
+        return Numeric::zero();
     else
         return diffWrtSymbol(*atan2ArgEval(arg1, arg2), symbol);
 }
-- 
2.43.0


From 1f484c811e6b1dc89c5bc330e2a92fd65b939115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:01 +0000
Subject: [PATCH 27/46] fix: order of powers of constants is consistent with
 the one of constants

---
 src/order.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/order.cpp b/src/order.cpp
index a9243a0..67da91b 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -101,7 +101,12 @@ bool tsym::doPermuteBothPower(const Base& left, const Base& right)
     const Base& lExp(*left.exp());
     const Base& rExp(*right.exp());
 
-    if (lBase.isDifferent(rBase))
+    if (isConstant(lBase) && isNumeric(rBase))
+        /* A constant is put in front of a numeric power, its own powers must be consistent with that. */
+        return false;
+    else if (isNumeric(lBase) && isConstant(rBase))
+        return true;
+    else if (lBase.isDifferent(rBase))
         return doPermute(lBase, rBase);
     else
         return doPermute(lExp, rExp);
-- 
2.43.0


From b6a1017630ed6458bc4cd7d42bcec4a687448795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 28/46] fix: order of constants is consistent with the one of
 products of constants

---
 src/order.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/order.cpp b/src/order.cpp
index 67da91b..cd7c6cf 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -168,9 +168,9 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
         return false;
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
      * simply the leftmost part in any expression, except in comparison with a Numeric. */
-    else if (isConstant(left) && !isNumeric(right))
+    else if (isConstant(left) && !isNumeric(right) && !isProduct(right))
         return false;
-    else if (isProduct(left) && isPowerSumSymbolOrFunction(right))
+    else if (isProduct(left) && (isPowerSumSymbolOrFunction(right) || isConstant(right)))
         return doPermuteLeftProduct(left, right);
     else if (isPower(left) && isSumSymbolOrFunction(right))
         return doPermuteLeftPower(left, right);
-- 
2.43.0


From 0c4f4e8b762f82405adb03a0fbea1edd6df2054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:44 +0000
Subject: [PATCH 29/46] fix: powers of equal bases that aren't contracted are
 put in order

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 0dfc2e1..83bad7a 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -399,7 +399,7 @@ namespace tsym {
                 ;
             else if (isFractionNumeric(*e1) && isFractionNumeric(*e2) && isInteger(*newExp))
                 /* Exponent addition would hide the fact that the power factors could be undefined. */
-                return {f1, f2};
+                return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
 
             return {Power::create(newBase, newExp)};
         }
-- 
2.43.0


From d4360a06a13f82df8f67835d994fed7ed31ca8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:41 +0000
Subject: [PATCH 30/46] fix: order of atan2 functions with equal first
 arguments

---
 src/order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/order.cpp b/src/order.cpp
index cd7c6cf..a1e0a4d 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -152,6 +152,9 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
 
     if (lName != rName)
         return lName > rName;
+    else if (left.operands().front()->isEqual(*right.operands().front()))
+        /* The second argument of atan2. */
+        return doPermute(*left.operands().back(), *right.operands().back());
     else
         /* If the function argument is a sum or a product, this differs from Cohen's algorithm: the
          * operands are compared by taking the last different operand as significant, as it is the
-- 
2.43.0


From e65edd674b6cc09a6f4a25ee30e621a1504c0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:04 +0000
Subject: [PATCH 31/46] fix: order of constants is consistent with the one of
 powers of constants

---
 src/order.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/order.cpp b/src/order.cpp
index a1e0a4d..d97af12 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -26,6 +26,7 @@ namespace tsym {
     static bool doPermuteBothConstant(const Base& left, const Base& right);
     static bool doPermuteBothFunction(const Base& left, const Base& right);
     static bool doPermuteDifferentType(const Base& left, const Base& right);
+    static bool isConstantPower(const Base& arg);
     static bool isPowerSumSymbolOrFunction(const Base& arg);
     static bool doPermuteLeftProduct(const Base& left, const Base& right);
     static bool isSumSymbolOrFunction(const Base& arg);
@@ -171,11 +172,11 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
         return false;
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
      * simply the leftmost part in any expression, except in comparison with a Numeric. */
-    else if (isConstant(left) && !isNumeric(right) && !isProduct(right))
+    else if (isConstant(left) && !isNumeric(right) && !isProduct(right) && !isConstantPower(right))
         return false;
     else if (isProduct(left) && (isPowerSumSymbolOrFunction(right) || isConstant(right)))
         return doPermuteLeftProduct(left, right);
-    else if (isPower(left) && isSumSymbolOrFunction(right))
+    else if (isPower(left) && (isSumSymbolOrFunction(right) || (isConstantPower(left) && isConstant(right))))
         return doPermuteLeftPower(left, right);
     else if (isSum(left) && isSymbolOrFunction(right))
         return doPermuteLeftSum(left, right);
@@ -190,6 +191,11 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
     return !doPermute(right, left);
 }
 
+bool tsym::isConstantPower(const Base& arg)
+{
+    return isPower(arg) && isConstant(*arg.base());
+}
+
 bool tsym::isPowerSumSymbolOrFunction(const Base& arg)
 {
     return isPower(arg) || isSum(arg) || isSymbol(arg) || isFunction(arg);
-- 
2.43.0


From 565fe1e90add47b828ac1381c17c35f8545d7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:39 +0000
Subject: [PATCH 32/46] fix: singular matrices are detected when pivoting with
 least complexity

---
 src/directsolve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..1bb923a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -18,7 +18,7 @@ std::size_t tsym::firstNonZeroPivot(const SquareMatrixAdaptor<>& coeff, std::siz
 std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::size_t row)
 {
     auto leastComplexity = std::numeric_limits<unsigned>::max();
-    std::size_t idx = row;
+    std::size_t idx = coeff.dim;
 
     for (std::size_t i = row; i < coeff.dim; ++i) {
         const Var& diag = coeff(i, row);
@@ -30,6 +30,9 @@ std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::
         }
     }
 
+    if (idx == coeff.dim)
+        throw std::invalid_argument("Coefficient matrix is singular");
+
     return idx;
 }
 
-- 
2.43.0


From b8bb9b95480300e9a1dba713a0a03bb174f9e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:45 +0000
Subject: [PATCH 33/46] fix: normal form of a fraction with a numerator or
 denominator that isn't expanded

---
 src/fraction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fraction.cpp b/src/fraction.cpp
index 613e692..7d02bba 100644
--- a/src/fraction.cpp
+++ b/src/fraction.cpp
@@ -24,8 +24,9 @@ namespace tsym {
         Fraction cancelNonTrivial(const Fraction& f)
         {
             const BasePtr gcd(poly::gcd(f.num, f.denom));
-            const BasePtr newDenom(poly::divide(f.denom, gcd).front());
-            const BasePtr newNum(poly::divide(f.num, gcd).front());
+            /* The division depends on leading coefficients, requested from expanded polynomials only. */
+            const BasePtr newDenom(poly::divide(f.denom->expand(), gcd->expand()).front());
+            const BasePtr newNum(poly::divide(f.num->expand(), gcd->expand()).front());
 
             return Fraction{newNum, newDenom};
         }
-- 
2.43.0


From 756905e9202838208ed8c7fadfe1a586e5703739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:20 +0000
Subject: [PATCH 34/46] fix: the normal form of a sum that vanishes after
 cancellation of its summands is zero

---
 src/fraction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fraction.cpp b/src/fraction.cpp
index 7d02bba..1e8583c 100644
--- a/src/fraction.cpp
+++ b/src/fraction.cpp
@@ -35,9 +35,9 @@ namespace tsym {
 
 tsym::Fraction tsym::cancel(const Fraction& f)
 {
-    if (isOne(*f.denom))
-        return Fraction{f.num};
-    else if (isZero(*f.num))
+    if (isZero(*f.num->expand()))
+        return Fraction{Numeric::zero()};
+    else if (isOne(*f.denom))
         return Fraction{f.num};
     else if (isZero(*f.denom->expand())) {
         TSYM_WARNING("Zero f.denom encountered during fraction cancellation");
-- 
2.43.0


From 0e1bff239095e82f7912cf5c5445de28e7d7716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 35/46] fix: greek letters are printed with their sub- and
 superscripts

---
 src/namefct.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/namefct.cpp b/src/namefct.cpp
index cc281f2..9f37c12 100644
--- a/src/namefct.cpp
+++ b/src/namefct.cpp
@@ -100,8 +100,10 @@ std::string tsym::unicode(NameView name)
 {
     if (!isGreekLetter(name.value))
         return concat(name);
-    else
-        return unicodeForGreekLetter(name.value);
+
+    const std::string letter = unicodeForGreekLetter(name.value);
+
+    return concat({letter, name.subscript, name.superscript});
 }
 
 std::string tsym::tex(NameView name)
-- 
2.43.0


From dc8d52a2c912bbd10c110e7fe357eef68942b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 36/46] fix: parentheses around the base of a power with
 integral numeric value that isn't a number

---
 src/printer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 7f44753..534212e 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -89,10 +89,7 @@ namespace tsym {
             bool isScalarPowerBase(const BasePtr& base)
             {
                 const auto isPositiveInt = [](const auto& base) {
-                    if (const auto n = base->numericEval())
-                        return isInt(*n) && *n > 0;
-
-                    return false;
+                    return isNumeric(*base) && isInt(*base->numericEval()) && base->isPositive();
                 };
 
                 return isSymbol(*base) || isConstant(*base) || isFunction(*base) || isPositiveInt(base);
-- 
2.43.0


From 549dfae394fc02438c42cbdc7c7de6e5f1857acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:46 +0000
Subject: [PATCH 37/46] fix: order of temporary symbols doesn't depend on how
 many of them exist already

---
 src/symbol.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/symbol.cpp b/src/symbol.cpp
index 2d6b98d..5f06263 100644
--- a/src/symbol.cpp
+++ b/src/symbol.cpp
@@ -1,6 +1,7 @@
 
 #include "symbol.h"
 #include <boost/functional/hash.hpp>
+#include <limits>
 #include <unordered_map>
 #include <utility>
 #include "basefct.h"
@@ -11,6 +12,20 @@
 #include "numeric.h"
 #include "undefined.h"
 
+namespace tsym {
+    namespace {
+        std::string paddedTmpId(unsigned tmpId)
+        /* Symbols are ordered by their names. With a constant number of digits, this is the order of
+         * creation for temporary symbols, no matter how many of them exist already. */
+        {
+            const std::string id = std::to_string(tmpId);
+            constexpr size_t nDigits = std::numeric_limits<unsigned>::digits10 + 1;
+
+            return std::string(nDigits - id.size(), '0') + id;
+        }
+    }
+}
+
 unsigned tsym::Symbol::tmpCounter = 0;
 
 tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
@@ -23,7 +38,7 @@ tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
 
 tsym::Symbol::Symbol(unsigned tmpId, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
-    , symbolName{std::string(tmpSymbolNamePrefix) + std::to_string(tmpId)}
+    , symbolName{std::string(tmpSymbolNamePrefix) + paddedTmpId(tmpId)}
     , positive(positive)
 {
     setDebugString();
-- 
2.43.0


From 386f7cf7140d5c0db63c32c8a1b4bd0776bf447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 38/46] fix: numeric power with too large intermediate
 numerator power isn't infinite

---
 src/number.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/number.cpp b/src/number.cpp
index 87f3f42..7290a5a 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -192,6 +192,10 @@ tsym::Number tsym::Number::computeRationalPower(const Number& exponent) const
     auto result = computeNumPower(exponent.numerator());
     computeDenomPower(exponent.denominator(), result);
 
+    if (result.isDouble() && !std::isfinite(result.toDouble()))
+        /* The numerator power is too large for a double, in contrast to possibly the actual result. */
+        return {std::pow(toDouble(), exponent.toDouble())};
+
     return result;
 }
 
-- 
2.43.0


From 9f0b050eda86414d97f6f1fb9769bf847373a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 39/46] fix: products don't keep factors that are products
 themselves

---
 src/productsimpl.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 83bad7a..1ce8346 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -1,5 +1,6 @@
 
 #include "productsimpl.h"
+#include <boost/algorithm/cxx11/any_of.hpp>
 #include <boost/functional/hash.hpp>
 #include <boost/range/algorithm/find_if.hpp>
 #include <boost/range/numeric.hpp>
@@ -71,10 +72,13 @@ namespace tsym {
 
             prepare(factors);
 
-            if (factors.size() == 2)
-                return simplTwoFactors(factors);
-            else
-                return simplNFactors(factors);
+            const BasePtrList result = factors.size() == 2 ? simplTwoFactors(factors) : simplNFactors(factors);
+
+            if (boost::algorithm::any_of(result, [](const auto& factor) { return isProduct(*factor); }))
+                /* The contraction of two factors can be a product itself, e.g. sqrt(sin(-8/5*pi))^2. */
+                return simplifyWithoutCache(result);
+
+            return result;
         }
 
         void prepare(BasePtrList& fac)
-- 
2.43.0


From 7df75cf05140e7d26cdca0f30dee3e852b76012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 40/46] fix: sums contract summands that emerge from a previous
 contraction

---
 src/sumsimpl.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index db4216d..a0c5fbc 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -1,5 +1,6 @@
 
 #include "sumsimpl.h"
+#include <boost/range/algorithm/adjacent_find.hpp>
 #include <cassert>
 #include "basefct.h"
 #include "baseptrlistfct.h"
@@ -232,6 +233,13 @@ namespace tsym {
             else
                 return merge({u1}, simplRest);
         }
+
+        bool haveContractableNeighbours(const BasePtrList& summands)
+        {
+            return boost::adjacent_find(summands, [](const auto& s1, const auto& s2) {
+                return simplTwoSummands(s1, s2).size() < 2;
+            }) != cend(summands);
+        }
     }
 }
 
@@ -243,7 +251,18 @@ tsym::BasePtrList tsym::simplifySum(const BasePtrList& summands)
     if (const auto lookup = map.find(summands); lookup != cend(map))
         return lookup->second;
 
-    const auto result = simplWithoutCache(summands);
+    auto result = simplWithoutCache(summands);
+
+    /* The contraction of two summands can lead to another contractable one, e.g. sqrt(2) + 3/sqrt(2) + 1/sqrt(2) first
+     * becomes sqrt(2) + 2*sqrt(2). */
+    while (haveContractableNeighbours(result)) {
+        auto contracted = simplWithoutCache(result);
+
+        if (contracted.size() >= result.size())
+            break;
+
+        result = std::move(contracted);
+    }
 
     return map.insert({summands, result})->second;
 }
-- 
2.43.0


From 0b77dc70831a9755326c4a06c6e82d0746888bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 41/46] fix: atan2 of constant arguments doesn't yield an
 unsimplified atan

---
 src/trigonometric.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7be066a..734cf71 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -388,10 +388,8 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
 
     if (const auto simplified = numTrigo.simplify())
         return shiftAtanResultIntoRange(*simplified, increment);
-    else if (atan2Arg->isNegative())
-        return createBySymmetry(Type::ATAN, atan2Arg);
     else
-        return createInstance(Type::ATAN, {atan2Arg});
+        return createAtan(atan2Arg);
 }
 
 tsym::BasePtr tsym::Trigonometric::shiftAtanResultIntoRange(BasePtr result, BasePtr summand)
-- 
2.43.0


From 9c2ce6526b53d03d8926822de0e44949812a99c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:33 +0000
Subject: [PATCH 42/46] fix: don't decrement the begin iterator when extracting
 prime factors

---
 src/primefac.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index 59105d8..786e484 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -111,17 +111,19 @@ namespace tsym {
             Int prime(0);
             Int nPrime(0);
 
-            for (auto it = begin(source); it != end(source); ++it)
+            for (auto it = begin(source); it != end(source);)
                 if (prime != *it) {
                     prime = *it;
                     nPrime = 1;
+                    ++it;
                 } else if (++nPrime == expDenom) {
                     target.push_back(prime);
 
-                    it = std::prev(source.erase(it - static_cast<int>(expDenom - 1), it + 1));
+                    it = source.erase(it - static_cast<int>(expDenom - 1), it + 1);
 
                     nPrime = 0;
-                }
+                } else
+                    ++it;
         }
     }
 }
-- 
2.43.0


From 75ff8d395c67172332b32e1c996ec7fa40e50ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:31 +0000
Subject: [PATCH 43/46] fix: don't advance the end iterator when contracting
 numeric powers

---
 src/productsimpl.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 1ce8346..3895800 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -555,11 +555,11 @@ namespace tsym {
         void contractConst(BasePtrList& u)
         {
             for (auto it1 = begin(u); it1 != end(u); ++it1)
-                for (auto it2 = it1; it2 != end(u); ++it2)
-                    if (it1 == it2)
-                        continue;
-                    else if (areTwoContractableConst(*it1, *it2))
+                for (auto it2 = next(it1); it2 != end(u);)
+                    if (areTwoContractableConst(*it1, *it2))
                         contractTwoConst(it1, it2, u);
+                    else
+                        ++it2;
         }
 
         bool areTwoContractableConst(const BasePtr& f1, const BasePtr& f2)
@@ -578,6 +578,7 @@ namespace tsym {
         }
 
         void contractTwoConst(BasePtrList::iterator& it1, BasePtrList::iterator& it2, BasePtrList& u)
+        /* Moves the second iterator to the element behind the second factor. */
         {
             const BasePtrList res(simplTwoConst(*it1, *it2));
 
@@ -586,9 +587,11 @@ namespace tsym {
                 it2 = u.erase(it2);
             } else if (res.size() == 2) {
                 *it1 = res.front();
-                *it2 = res.back();
-            } else
+                *it2++ = res.back();
+            } else {
                 TSYM_ERROR("Error contracting %S and %S to %S", *it1, *it2, res);
+                ++it2;
+            }
         }
 
         BasePtrList simplPreparedFactors(const BasePtrList& u)
-- 
2.43.0


From 5e591e4910f6c0735b5027f7a53f243304a56db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:13 +0000
Subject: [PATCH 44/46] fix: recognize entries of a matrix that vanish
 identically before choosing a pivot

---
 src/directsolve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 1bb923a..68e8810 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -56,6 +56,10 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* An entry that vanishes identically must be known as zero before it's considered as a pivot. */
+    for (Var& entry : coeff.data)
+        entry = simplify(entry);
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From 598ff39ef8706e8e57796c28130e1baf2fa1deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:05 +0000
Subject: [PATCH 45/46] fix: contract powers of equal bases completely, e.g.
 sqrt(a)*sqrt(a)*a^b

---
 src/productsimpl.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 3895800..57c2665 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -22,6 +22,7 @@
 
 namespace tsym {
     namespace {
+        bool contractNeighbours(BasePtrList& u);
         void prepare(BasePtrList& fac);
         void extractProducts(BasePtrList& u);
         void contractTrigonometrics(BasePtrList& u);
@@ -72,15 +73,34 @@ namespace tsym {
 
             prepare(factors);
 
-            const BasePtrList result = factors.size() == 2 ? simplTwoFactors(factors) : simplNFactors(factors);
+            BasePtrList result = factors.size() == 2 ? simplTwoFactors(factors) : simplNFactors(factors);
 
             if (boost::algorithm::any_of(result, [](const auto& factor) { return isProduct(*factor); }))
                 /* The contraction of two factors can be a product itself, e.g. sqrt(sin(-8/5*pi))^2. */
                 return simplifyWithoutCache(result);
+            else if (contractNeighbours(result))
+                /* The sum of two exponents can enable another contraction, e.g. sqrt(a)*sqrt(a)*a^b. */
+                return simplifyWithoutCache(result);
 
             return result;
         }
 
+        bool contractNeighbours(BasePtrList& u)
+        {
+            for (auto it = begin(u); it != end(u) && next(it) != end(u); ++it)
+                if (haveEqualBases(**it, **next(it))) {
+                    const auto res = simplTwoFactors(*it, *next(it));
+
+                    if (res.size() == 1) {
+                        *it = res.front();
+                        u.erase(next(it));
+                        return true;
+                    }
+                }
+
+            return false;
+        }
+
         void prepare(BasePtrList& fac)
         /* We need to extract the factors of included powers at this point, due to the handling of
          * numeric powers. This differs from Cohen's algorithm. */
-- 
2.43.0


From 3bc095f9361a87d3154aa214436df30e52f2778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:05 +0000
Subject: [PATCH 46/46] fix: a floating point prefactor isn't inverted to zero
 when multiplied with the inverse of a root

---
 src/numpowersimpl.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index 05bdb22..709e299 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -76,10 +76,13 @@ void tsym::NumPowerSimpl::computeNegOrPosExp()
 }
 
 void tsym::NumPowerSimpl::computeNegExp()
-/* Shifts the handling to positive exponents by and pre- and postmodifying the components. */
+/* Shifts the handling to positive exponents by and pre- and postmodifying the components. A floating point prefactor
+ * can't be part of a prime factorization, and its inverse might be indistinguishable from zero. */
 {
+    const Number nonRationalPreFactor = result.preFactor.isDouble() ? result.preFactor : Number(1);
+
     result.exp *= -1;
-    result.preFactor = result.preFactor.toThe(-1);
+    result.preFactor = result.preFactor.isDouble() ? Number(1) : result.preFactor.toThe(-1);
 
     computePosExp();
 
@@ -87,10 +90,13 @@ void tsym::NumPowerSimpl::computeNegExp()
 
     if (result.base == 0)
         return;
-    else if (result.exp == 1)
+    else if (result.exp == 1) {
         result.base = result.base.toThe(-1);
-    else
+        result.base *= nonRationalPreFactor;
+    } else {
         result.exp *= -1;
+        result.preFactor *= nonRationalPreFactor;
+    }
 }
 
 void tsym::NumPowerSimpl::computePosExp()
-- 
2.43.0

