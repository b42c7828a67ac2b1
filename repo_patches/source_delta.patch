From 045e3cbbffd6c81466e63019fba561f52aee6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 01/44] fix: don't collect prime powers of differing
 multiplicity into a common exponent

324^(1/5) = (2^2*3^4)^(1/5) was simplified to 6^(2/5).
---
 src/primefac.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..190d041 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,8 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime != *(prime + (guess - 1)) || *prime == *std::prev(prime))
+                    /* The second check rules out a prime that occurs more often than guessed. */
                     return 0;
 
             return guess;
-- 
2.43.0


From 8c38999f5d33733de6ef73544ae1ddab94cf238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 02/44] fix: atan of a negative double lies in (-pi/2, 0)
 instead of being shifted by 2*pi

---
 src/numtrigosimpl.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..eaf3393 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -444,9 +444,6 @@ void tsym::NumTrigoSimpl::atan()
         resultTimesSign();
     else if (isDoubleNumeric(*origArg)) {
         reset();
-        compNumerically([](auto arg) {
-            const double result = std::atan(arg);
-            return result >= 0 ? result : 2 * M_PI + result;
-        });
+        compNumerically([](auto arg) { return std::atan(arg); });
     }
 }
-- 
2.43.0


From 14f69f718b232a0c57b3395d4635f9369aabad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 03/44] fix: infinite recursion for trigonometric functions of
 sums with undetermined signs

acos(tan(11/12*pi)) didn't terminate, as both the argument and its negative were considered to have
only negative prefactors.
---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7172626..4112274 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -144,7 +144,7 @@ bool tsym::Trigonometric::doesSymmetryApply(const BasePtr& arg)
 bool tsym::Trigonometric::haveAllNegativePrefactors(const BasePtrList& operands)
 {
     for (const auto& arg : operands)
-        if (arg->constTerm()->isPositive())
+        if (!arg->constTerm()->isNegative())
             return false;
 
     return true;
-- 
2.43.0


From c7d52ec56dbcdb65256862a090454fec50f0f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 04/44] fix: asin and acos of functions with a value outside of
 [-1, 1] are undefined

asin(log(3)) was created as a function, and its non-finite value lead to exceptions later on.
---
 src/trigonometric.cpp | 12 ++++++++++++
 src/trigonometric.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 4112274..189a23d 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -116,6 +116,8 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
 {
     if (isUndefined(*arg))
         return arg;
+    else if (isArgOutOfRange(type, *arg))
+        return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
     else if (doesSymmetryApply(arg))
@@ -126,6 +128,16 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
         return createInstance(type, {arg});
 }
 
+bool tsym::Trigonometric::isArgOutOfRange(Type type, const Base& arg)
+{
+    if (type != Type::ASIN && type != Type::ACOS)
+        return false;
+
+    const auto num = arg.numericEval();
+
+    return num && (*num < -1 || *num > 1);
+}
+
 tsym::BasePtr tsym::Trigonometric::createInstance(Type type, const BasePtrList& args)
 {
     return std::make_shared<const Trigonometric>(args, type, Base::CtorKey{});
diff --git a/src/trigonometric.h b/src/trigonometric.h
index d01460f..ade4c77 100644
--- a/src/trigonometric.h
+++ b/src/trigonometric.h
@@ -42,6 +42,7 @@ namespace tsym {
       private:
         static BasePtr create(Type type, const BasePtr& arg);
         static BasePtr createInstance(Type type, const BasePtrList& args);
+        static bool isArgOutOfRange(Type type, const Base& arg);
         static bool doesSymmetryApply(const BasePtr& arg);
         static bool haveAllNegativePrefactors(const BasePtrList& operands);
         static BasePtr createBySymmetry(Type type, const BasePtr& negativeArg);
-- 
2.43.0


From 93059c44a1f93502489643795a2abfbd0927e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 05/44] fix: access to an empty list for trigonometric powers
 that cancel out

The product of e.g. tan(a)^2 and tan(a)^(-2) inside of an expansion lead to undefined behavior.
---
 src/productsimpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..5c68a94 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,6 +165,10 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
-- 
2.43.0


From d7e2af2e5759e0a864840ef6b01cf1750aaf91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 06/44] fix: shift numerically negative trigonometric arguments
 into [0, 2*pi)

The sign of e.g. cos(2)^3 isn't determined symbolically, thus sin(cos(2)^3) violated an assertion.
---
 src/numtrigosimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index eaf3393..1155699 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -166,7 +166,7 @@ void tsym::NumTrigoSimpl::adjustArgRange()
     const BasePtr twoPi(timesPi(2, 1));
 
     /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    while (*arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
-- 
2.43.0


From a35d43f3d15007eb649b96002ce424c4b0cd317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:29 +0000
Subject: [PATCH 07/44] fix: logarithm of an even power with a negative base is
 defined

log((-1 - a)^2) for a positive symbol a resulted in an undefined expression.
---
 src/logarithm.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 8812c4b..775f963 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -5,6 +5,7 @@
 #include "constant.h"
 #include "fraction.h"
 #include "logging.h"
+#include "numberfct.h"
 #include "numeric.h"
 #include "power.h"
 #include "product.h"
@@ -85,7 +86,13 @@ tsym::BasePtr tsym::Logarithm::createFromConstant(const BasePtr& arg)
 
 tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
 {
-    return Product::create(arg->exp(), create(arg->base()));
+    const BasePtr base = arg->base();
+    const BasePtr exp = arg->exp();
+
+    if (base->isNegative() && isNumeric(*exp) && isEvenInt(*exp->numericEval()))
+        return Product::create(exp, create(Product::minus(base)));
+    else
+        return Product::create(exp, create(base));
 }
 
 std::optional<tsym::Number> tsym::Logarithm::numericEval() const
-- 
2.43.0


From 483498a190f1bbb92ba5f66d65273bc199f56a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:06 +0000
Subject: [PATCH 08/44] fix: compare rational numbers exactly instead of by
 their double approximation

---
 src/number.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index c939abc..3556154 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -324,7 +324,11 @@ bool tsym::operator==(const Number& lhs, const Number& rhs)
 
 bool tsym::operator<(const Number& lhs, const Number& rhs)
 {
-    return lhs.toDouble() < rhs.toDouble();
+    if (lhs.isRational() && rhs.isRational())
+        /* Not all rationals can be represented by a double, neither by range nor by precision. */
+        return lhs.numerator() * rhs.denominator() < rhs.numerator() * lhs.denominator();
+    else
+        return lhs.toDouble() < rhs.toDouble();
 }
 
 std::ostream& tsym::operator<<(std::ostream& stream, const Number& rhs)
-- 
2.43.0


From 4ea1b40f9a8ec8a85ddc0bcf49f866a487400933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 09/44] fix: powers and logarithms of constants with an
 undetermined symbolic sign

---
 src/logarithm.cpp  |  3 ++-
 src/powersimpl.cpp | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 775f963..7f9cf7b 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -55,7 +55,8 @@ bool tsym::Logarithm::isInvalidArg(const Base& arg)
         ;
     else if (arg.isNegative())
         invalid = true;
-    else if (arg.numericEval() == 0)
+    else if (const auto nArg = arg.numericEval(); nArg && *nArg <= 0)
+        /* The sign of a constant can't always be determined symbolically. */
         invalid = true;
 
     if (invalid)
diff --git a/src/powersimpl.cpp b/src/powersimpl.cpp
index 5b36bc1..146f852 100644
--- a/src/powersimpl.cpp
+++ b/src/powersimpl.cpp
@@ -32,10 +32,15 @@ namespace tsym {
 
         bool doesInvolveComplexNumbers(const BasePtr& base, const BasePtr& exp)
         {
-            if (const auto nExp = exp->numericEval(); base->isNegative() && nExp)
-                return !isInt(*nExp);
-            else
+            const auto nExp = exp->numericEval();
+
+            if (!nExp || isInt(*nExp))
                 return false;
+            else if (const auto nBase = base->numericEval())
+                /* The sign of a constant can't always be determined symbolically. */
+                return *nBase < 0;
+            else
+                return base->isNegative();
         }
 
         BasePtrList simplifyNumericBase(const BasePtr& base, const BasePtr& exp)
-- 
2.43.0


From 212b15c5f62f0057b01e18e9847ffda7caad088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:56 +0000
Subject: [PATCH 10/44] fix: numeric powers in a product that contract to a
 product themselves

---
 src/productsimpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 5c68a94..e471e93 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -531,6 +531,12 @@ namespace tsym {
 
             contract(u, &areNumPowersWithEqualExp, &simplTwoEqualExp);
             contract(u, &areNumPowersWithEqualExpDenom, &simplTwoEqualExpDenom);
+
+            if (boost::find_if(u, [](const auto& item) { return isProduct(*item); }) != end(u)) {
+                /* A contracted numeric power can be a product, e.g. 2^(3/4)*2^(3/4) = 2*sqrt(2). */
+                extractProducts(u);
+                prepareConst(u);
+            }
         }
 
         void contractNumerics(BasePtrList& u)
-- 
2.43.0


From 7f9a2eddf941e0bdff1913a9b589f8973dff7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:26 +0000
Subject: [PATCH 11/44] fix: double conversion of rational numbers with huge
 numerators or denominators

---
 src/number.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index 3556154..30bcea6 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -1,6 +1,7 @@
 
 #include "number.h"
 #include <boost/functional/hash.hpp>
+#include <boost/multiprecision/cpp_bin_float.hpp>
 #include <cassert>
 #include <cmath>
 #include <exception>
@@ -222,7 +223,7 @@ namespace tsym {
              * lead to an exact integer solution of the power. Thus, it is save to cast the double power
              * result to an integer after only adding 0.1 (which is somewhat arbitrary, could be any value
              * less than 0.5). */
-            const double exact = std::pow(static_cast<double>(n), 1.0 / static_cast<double>(denomExponent));
+            const double exact = std::pow(Number(n).toDouble(), 1.0 / Number(denomExponent).toDouble());
 
             if (exact > std::numeric_limits<int>::max())
                 /* Result wouldn't fit into an int. */
@@ -246,13 +247,14 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
  * power exactly, i.e., check for simple bases matching the numerator/denominator with the given
  * denominator exponent (e.g. 8^(1/3) = 2). */
 {
+    if (denomExponent == 1)
+        return;
+
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
-    if (denomExponent == 1)
-        return;
-    else if (numTest == 0 || denomTest == 0)
-        result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
+    if (numTest == 0 || denomTest == 0)
+        result = {std::pow(result.toDouble(), 1.0 / Number(denomExponent).toDouble())};
     else
         result = {numTest, denomTest};
 }
@@ -290,10 +292,17 @@ tsym::Int tsym::Number::denominator() const
 
 double tsym::Number::toDouble() const
 {
-    if (isRational())
-        return boost::rational_cast<double>(getRational());
-    else
+    /* Integers of this size might not have a finite double representation. */
+    static const Int limit = pow(Int(2), 1000);
+
+    if (isDouble())
         return getDouble();
+    else if (abs(numerator()) < limit && denominator() < limit)
+        return boost::rational_cast<double>(getRational());
+
+    using Float = boost::multiprecision::cpp_bin_float_50;
+
+    return static_cast<double>(Float(numerator()) / Float(denominator()));
 }
 
 namespace tsym {
-- 
2.43.0


From a3ba9854ba5672ecb2972ac9735310553d0c401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:14 +0000
Subject: [PATCH 12/44] fix: products of non-integer powers of tan and of sin,
 cos or tan with the same argument

---
 src/productsimpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index e471e93..b2f150d 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -159,6 +159,9 @@ namespace tsym {
         /* At this point, f1 and f2 are (possibly powers of) trigonometric function with identical
          * arguments. */
         {
+            if (haveEqualBases(*f1, *f2))
+                return simplTwoEqualBases(f1, f2);
+
             const BasePtr newArg(f1->base()->operands().front());
             const BasePtr sin(trigSymbReplacement(Trigonometric::Type::SIN, newArg));
             const BasePtr cos(trigSymbReplacement(Trigonometric::Type::COS, newArg));
@@ -168,6 +171,13 @@ namespace tsym {
 
             if (res.empty())
                 return {Numeric::one()};
+            else if (res.size() > 2)
+                return {f1, f2};
+            else if (boost::find_if(res, [&sin, &cos](const auto& factor) {
+                         return !factor->base()->isEqual(*sin) && !factor->base()->isEqual(*cos);
+                     }) != end(res))
+                /* Non-integer powers of tan that couldn't be split up into sin and cos. */
+                return {f1, f2};
 
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
-- 
2.43.0


From 541ae9618ab61d9e7368ed4bfc8ead04e2edd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:39 +0000
Subject: [PATCH 13/44] fix: products of numeric powers that change each other
 lost all of their factors

---
 src/productsimpl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index b2f150d..2b84ba2 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -21,6 +21,7 @@
 
 namespace tsym {
     namespace {
+        BasePtrList simplifyWithoutCache(const BasePtrList& origFactors);
         void prepare(BasePtrList& fac);
         void extractProducts(BasePtrList& u);
         void contractTrigonometrics(BasePtrList& u);
@@ -272,16 +273,16 @@ namespace tsym {
                 return merge(pRest, qRest);
             else if (res.size() == 1 && isOne(*res.front()))
                 return merge(pRest, qRest);
-            else if (res.size() == 1)
+            else if (res.size() == 1 && !isProduct(*res.front()))
                 return join(std::move(res), merge(pRest, qRest));
             else if (areEqual(res, p1q1))
                 return join(std::move(p1), merge(pRest, q));
             else if (areEqual(res, q1p1))
                 return join(std::move(q1), merge(p, qRest));
 
-            TSYM_ERROR("ProductSimpl: Error merging %S and %S to %S", p1, q1, res);
-
-            return {};
+            /* Two constant factors changed each other, e.g. 1/6*(2/3)^(1/5) = 1/3/48^(1/5). This might enable further
+             * contractions with the remaining factors. */
+            return simplifyWithoutCache(join(std::move(res), join(std::move(pRest), std::move(qRest))));
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From 96427e2d25fc99e47adb5d8a7d9de464eccd6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:13 +0000
Subject: [PATCH 14/44] fix: expansion of products of sums that multiply to
 something else than a sum

---
 src/baseptrlistfct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/baseptrlistfct.cpp b/src/baseptrlistfct.cpp
index 69986b9..ac5382c 100644
--- a/src/baseptrlistfct.cpp
+++ b/src/baseptrlistfct.cpp
@@ -126,7 +126,8 @@ namespace tsym {
             second = sums.front();
             sums.pop_front();
 
-            for (const auto& item : first->operands())
+            /* The product of two sums isn't necessarily a sum again, e.g. (1 + sqrt(2))*(1 - sqrt(2)) = -1. */
+            for (const auto& item : isSum(*first) ? first->operands() : BasePtrList{first})
                 summands.push_back(Product::create(item, second)->expand());
 
             sums.push_front(Sum::create(summands));
-- 
2.43.0


From 612847987c98a39c59ddc6ae49a70421546c9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 15/44] fix: print subscripts of symbols with a greek letter
 name

---
 src/namefct.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/namefct.cpp b/src/namefct.cpp
index cc281f2..9f37c12 100644
--- a/src/namefct.cpp
+++ b/src/namefct.cpp
@@ -100,8 +100,10 @@ std::string tsym::unicode(NameView name)
 {
     if (!isGreekLetter(name.value))
         return concat(name);
-    else
-        return unicodeForGreekLetter(name.value);
+
+    const std::string letter = unicodeForGreekLetter(name.value);
+
+    return concat({letter, name.subscript, name.superscript});
 }
 
 std::string tsym::tex(NameView name)
-- 
2.43.0


From 17405b01521a499a1d1039b5383671a7fc7b03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 16/44] fix: print double prefactors of fractions instead of
 zero

---
 src/printer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..2149377 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -223,6 +223,8 @@ namespace tsym {
 
                 if (frac.first.empty() || frac.second.size() <= 1 || !isNumeric(*frac.first.front()))
                     return frac;
+                else if (isDoubleNumeric(*frac.first.front()))
+                    return frac;
 
                 /* Adjust the previous logic and move factors like 2/3 to numerator/denominator. */
                 const auto fracFactor = frac.first.front()->numericEval();
-- 
2.43.0


From a3037373c4ac530c1dea92545114ed6f9a383c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:15 +0000
Subject: [PATCH 17/44] fix: parse symbol names that start with pi or euler

---
 src/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..97c0440 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -63,8 +63,11 @@ namespace tsym {
                 functions.add("sin", Fct::SIN)("cos", Fct::COS)("tan", Fct::TAN)("asin", Fct::ASIN)("acos", Fct::ACOS)(
                   "atan", Fct::ATAN)("sqrt", Fct::SQRT)("log", Fct::LOG);
 
-                scalar = no_case[qi::lit("pi")][bind(&QiParser::pushPi)]
-                  | no_case[qi::lit("euler")][bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
+                /* Names like pitch or pi_1 are symbols. */
+                endOfConstant = !(qi::ascii::alnum | '_');
+
+                scalar = (no_case[qi::lit("pi")] >> endOfConstant)[bind(&QiParser::pushPi)]
+                  | (no_case[qi::lit("euler")] >> endOfConstant)[bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
                   | floatingPoint[bindWithArg(&QiParser::pushDouble)] | integer[bindWithArg(&QiParser::pushInteger)];
 
                 oneArgFunction = (no_case[functions] >> '(' >> expression >> ')')[bindWithArg(&QiParser::toFunction)];
@@ -245,6 +248,7 @@ namespace tsym {
             SymbolParser<Iterator> symbol{};
             BigIntParser<Iterator> integer{};
             Rule expression;
+            NoSpaceRule endOfConstant;
             NoSpaceRule scalar;
             Rule oneArgFunction;
             Rule twoArgFunction;
-- 
2.43.0


From 680ad0ca2933c785a80a7beae3510df8b0b87cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 18/44] fix: add the missing definition of the public function
 normal

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..e37d599 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -112,6 +112,11 @@ tsym::Var tsym::expand(const Var& arg)
     return Var(arg.get()->expand());
 }
 
+tsym::Var tsym::normal(const Var& arg)
+{
+    return Var(arg.get()->normal());
+}
+
 tsym::Var tsym::simplify(const Var& arg)
 /* Currently, only normalization and expansion is tested for the simplest representation. */
 {
-- 
2.43.0


From ac674057af210c60b48f1ee036866d56a417421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 19/44] fix: throw for singular matrices with the least
 complexity pivot strategy

---
 src/directsolve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..1bb923a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -18,7 +18,7 @@ std::size_t tsym::firstNonZeroPivot(const SquareMatrixAdaptor<>& coeff, std::siz
 std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::size_t row)
 {
     auto leastComplexity = std::numeric_limits<unsigned>::max();
-    std::size_t idx = row;
+    std::size_t idx = coeff.dim;
 
     for (std::size_t i = row; i < coeff.dim; ++i) {
         const Var& diag = coeff(i, row);
@@ -30,6 +30,9 @@ std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::
         }
     }
 
+    if (idx == coeff.dim)
+        throw std::invalid_argument("Coefficient matrix is singular");
+
     return idx;
 }
 
-- 
2.43.0


From 0c7c3ae27e34282f7798fb9d2a6466b7f736cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 20/44] fix: don't use unsimplified zeros as pivot elements

---
 src/directsolve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 1bb923a..255e78a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -56,6 +56,11 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* A coefficient that only turns out to be zero upon simplification must not become a pivot element. */
+    for (std::size_t i = 0; i < dim; ++i)
+        for (std::size_t j = 0; j < dim; ++j)
+            coeff(i, j) = simplify(coeff(i, j));
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From 9777018213097539b86854d1c827f16c7b756c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 21/44] fix: normal form of fractional powers with a negative
 numerator or denominator

---
 src/powernormal.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 011abd4..5df49e4 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -73,10 +73,25 @@ tsym::Fraction tsym::PowerNormal::normalNumEvalExp() const
         return normalNumEvalNegExp();
 }
 
+namespace tsym {
+    namespace {
+        Fraction withoutNegativePart(const Fraction& f)
+        /* The exponent is applied to numerator and denominator separately, which mustn't lead to an undefined power as for
+         * sqrt(-2/(a - b)) = sqrt(2)/sqrt(b - a). */
+        {
+            if (f.num->isNegative() || f.denom->isNegative())
+                return {Product::minus(f.num), Product::minus(f.denom)};
+            else
+                return f;
+        }
+    }
+}
+
 tsym::Fraction tsym::PowerNormal::normalNumEvalPosExp() const
 {
-    const BasePtr num(evaluatePow(rationalBase.num, rationalExp));
-    const BasePtr denom(evaluatePow(rationalBase.denom, rationalExp));
+    const Fraction base = withoutNegativePart(rationalBase);
+    const BasePtr num(evaluatePow(base.num, rationalExp));
+    const BasePtr denom(evaluatePow(base.denom, rationalExp));
 
     return {num, denom};
 }
@@ -91,8 +106,9 @@ tsym::BasePtr tsym::PowerNormal::evaluatePow(const BasePtr& base, const BasePtr&
 tsym::Fraction tsym::PowerNormal::normalNumEvalNegExp() const
 {
     const BasePtr positiveExp(Product::minus(rationalExp));
-    const BasePtr num(evaluatePow(rationalBase.denom, positiveExp));
-    const BasePtr denom(evaluatePow(rationalBase.num, positiveExp));
+    const Fraction base = withoutNegativePart(rationalBase);
+    const BasePtr num(evaluatePow(base.denom, positiveExp));
+    const BasePtr denom(evaluatePow(base.num, positiveExp));
 
     return {num, denom};
 }
-- 
2.43.0


From 1983641b65f11e9fd14965943b2ca81c448e61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:54 +0000
Subject: [PATCH 22/44] fix: logarithm of an even power with a numerically
 negative base

---
 src/logarithm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 7f9cf7b..8356bdc 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -90,7 +90,11 @@ tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
     const BasePtr base = arg->base();
     const BasePtr exp = arg->exp();
 
-    if (base->isNegative() && isNumeric(*exp) && isEvenInt(*exp->numericEval()))
+    const auto nBase = base->numericEval();
+    /* The sign of a constant can't always be determined symbolically. */
+    const bool isBaseNegative = base->isNegative() || (nBase && *nBase < 0);
+
+    if (isBaseNegative && isNumeric(*exp) && isEvenInt(*exp->numericEval()))
         return Product::create(exp, create(Product::minus(base)));
     else
         return Product::create(exp, create(base));
-- 
2.43.0


From 7c92767129c9740d09a126db8c38fa291cb9127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:11 +0000
Subject: [PATCH 23/44] fix: order functions by all of their arguments

---
 src/order.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/order.cpp b/src/order.cpp
index a9243a0..500545b 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -1,5 +1,6 @@
 
 #include "order.h"
+#include <algorithm>
 #include <boost/range/adaptor/indirected.hpp>
 #include <boost/range/adaptor/reversed.hpp>
 #include <boost/range/algorithm/lexicographical_compare.hpp>
@@ -25,6 +26,7 @@ namespace tsym {
     static bool doPermuteBothSum(const Base& left, const Base& right);
     static bool doPermuteBothConstant(const Base& left, const Base& right);
     static bool doPermuteBothFunction(const Base& left, const Base& right);
+    static bool doPermuteFunctionArgs(const BasePtrList& left, const BasePtrList& right);
     static bool doPermuteDifferentType(const Base& left, const Base& right);
     static bool isPowerSumSymbolOrFunction(const Base& arg);
     static bool doPermuteLeftProduct(const Base& left, const Base& right);
@@ -154,7 +156,18 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
          * arguments exactly the other way around, while the advantage over using the normal
          * ordering procedure isn't obvious. Thus, we stick to the standard procedure, leading to
          * e.g. the correct ordering sin(b + c + d)*sin(a + c + e). */
-        return doPermute(*left.operands().front(), *right.operands().front());
+        return doPermuteFunctionArgs(left.operands(), right.operands());
+}
+
+bool tsym::doPermuteFunctionArgs(const BasePtrList& left, const BasePtrList& right)
+/* The first different argument is significant, which matters for more than one argument, i.e., atan2. */
+{
+    const auto [lArg, rArg] =
+      std::mismatch(cbegin(left), cend(left), cbegin(right), cend(right), [](const auto& bp1, const auto& bp2) {
+          return bp1->isEqual(*bp2);
+      });
+
+    return lArg != cend(left) && rArg != cend(right) && doPermute(**lArg, **rArg);
 }
 
 bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
-- 
2.43.0


From 63492edbfe6d0cd7a78d59a1f965fb8400984dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 24/44] fix: order powers and products of constants
 consistently with the constants themselves

---
 src/order.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/order.cpp b/src/order.cpp
index 500545b..5795160 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -28,6 +28,7 @@ namespace tsym {
     static bool doPermuteBothFunction(const Base& left, const Base& right);
     static bool doPermuteFunctionArgs(const BasePtrList& left, const BasePtrList& right);
     static bool doPermuteDifferentType(const Base& left, const Base& right);
+    static bool isProductOrPowerOfConstant(const Base& arg);
     static bool isPowerSumSymbolOrFunction(const Base& arg);
     static bool doPermuteLeftProduct(const Base& left, const Base& right);
     static bool isSumSymbolOrFunction(const Base& arg);
@@ -103,7 +104,12 @@ bool tsym::doPermuteBothPower(const Base& left, const Base& right)
     const Base& lExp(*left.exp());
     const Base& rExp(*right.exp());
 
-    if (lBase.isDifferent(rBase))
+    if (isConstant(lBase) && isNumeric(rBase))
+        /* A constant is left of numeric powers, so that must be true for its powers, too. */
+        return false;
+    else if (isNumeric(lBase) && isConstant(rBase))
+        return true;
+    else if (lBase.isDifferent(rBase))
         return doPermute(lBase, rBase);
     else
         return doPermute(lExp, rExp);
@@ -176,8 +182,15 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
         return false;
     /* We differ from Cohen's algorithm here, as he didn't take a Constant type into account. It is
      * simply the leftmost part in any expression, except in comparison with a Numeric. */
+    else if (isConstant(left) && isProductOrPowerOfConstant(right))
+        /* This must be consistent with the order of e.g. 2*e + pi and e^2*pi, respectively. */
+        return !doPermute(right, left);
     else if (isConstant(left) && !isNumeric(right))
         return false;
+    else if (isConstant(right) && isProduct(left))
+        return doPermuteLeftProduct(left, right);
+    else if (isConstant(right) && isProductOrPowerOfConstant(left))
+        return doPermuteLeftPower(left, right);
     else if (isProduct(left) && isPowerSumSymbolOrFunction(right))
         return doPermuteLeftProduct(left, right);
     else if (isPower(left) && isSumSymbolOrFunction(right))
@@ -195,6 +208,11 @@ bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
     return !doPermute(right, left);
 }
 
+bool tsym::isProductOrPowerOfConstant(const Base& arg)
+{
+    return isProduct(arg) || (isPower(arg) && isConstant(*arg.base()));
+}
+
 bool tsym::isPowerSumSymbolOrFunction(const Base& arg)
 {
     return isPower(arg) || isSum(arg) || isSymbol(arg) || isFunction(arg);
-- 
2.43.0


From a8730cd221c0f368b8e88c72b4aaecb8300f9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:18 +0000
Subject: [PATCH 25/44] fix: complete contraction of summands and factors whose
 position changes

---
 src/order.cpp        |  7 +++++++
 src/order.h          |  3 +++
 src/productsimpl.cpp | 20 +++++++++++++++++++-
 src/sumsimpl.cpp     |  7 ++++++-
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/order.cpp b/src/order.cpp
index 5795160..1a112cc 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -278,3 +278,10 @@ bool tsym::isCorrect(const Base& left, const Base& right)
 {
     return !doPermute(left, right);
 }
+
+bool tsym::isOutOfOrder(const BasePtrList& list)
+{
+    return std::adjacent_find(cbegin(list), cend(list), [](const auto& left, const auto& right) {
+        return doPermute(*left, *right);
+    }) != cend(list);
+}
diff --git a/src/order.h b/src/order.h
index 9e61c4f..f13d3fd 100644
--- a/src/order.h
+++ b/src/order.h
@@ -2,10 +2,13 @@
 #define TSYM_ORDER_H
 
 #include "baseptr.h"
+#include "baseptrlist.h"
 
 namespace tsym {
     bool doPermute(const Base& left, const Base& right);
     bool isCorrect(const Base& left, const Base& right);
+    /* True if any two neighbours in the list need a permutation: */
+    bool isOutOfOrder(const BasePtrList& list);
 }
 
 #endif
diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 2b84ba2..f71a67f 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -1,5 +1,6 @@
 
 #include "productsimpl.h"
+#include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <boost/range/algorithm/find_if.hpp>
 #include <boost/range/numeric.hpp>
@@ -625,6 +626,18 @@ namespace tsym {
     }
 
     namespace {
+        bool isIncomplete(const BasePtrList& u)
+        /* Contraction can change the position of a factor or yield an already existing base, e.g. for
+         * (a^2)^(1/2)*(a^2)^(1/2) = a^2. */
+        {
+            if (isOutOfOrder(u))
+                return true;
+
+            return std::adjacent_find(cbegin(u), cend(u), [](const auto& f1, const auto& f2) {
+                return !f1->isConst() && haveEqualBases(*f1, *f2) && simplTwoEqualBases(f1, f2).size() == 1;
+            }) != cend(u);
+        }
+
         using CacheKey = std::pair<BasePtrList, Int>;
 
         struct CacheEqualTo {
@@ -646,5 +659,10 @@ tsym::BasePtrList tsym::simplifyProduct(const BasePtrList& factors)
     if (const auto lookup = map.find(key); lookup != cend(map))
         return lookup->second;
 
-    return map.insert({key, simplifyWithoutCache(factors)})->second;
+    auto result = simplifyWithoutCache(factors);
+
+    if (isIncomplete(result))
+        result = simplifyWithoutCache(result);
+
+    return map.insert({key, std::move(result)})->second;
 }
diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index db4216d..bbee97e 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -243,7 +243,12 @@ tsym::BasePtrList tsym::simplifySum(const BasePtrList& summands)
     if (const auto lookup = map.find(summands); lookup != cend(map))
         return lookup->second;
 
-    const auto result = simplWithoutCache(summands);
+    auto result = simplWithoutCache(summands);
+
+    if (isOutOfOrder(result))
+        /* Contraction changed the position of a summand, e.g. a/sqrt(2) + a/sqrt(2) = sqrt(2)*a, which possibly allows for
+         * more contractions. */
+        result = simplWithoutCache(result);
 
     return map.insert({summands, result})->second;
 }
-- 
2.43.0


From cf3ba713fa0b77c07812ead769a9cd9172818d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:01 +0000
Subject: [PATCH 26/44] fix: parse integers with leading zeros as decimal
 numbers

---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 97c0440..5bd0916 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -1,5 +1,6 @@
 
 #include "parser.h"
+#include <algorithm>
 #include <boost/algorithm/cxx11/all_of.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <functional>
@@ -143,7 +144,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                /* Leading zeros must not be interpreted as the prefix of an octal number: */
+                const auto first = std::min(digits.find_first_not_of('0'), digits.size() - 1);
+
+                stack.push(Numeric::create(Int(digits.substr(first))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From d96fa99095ca7efd1b7ac6437d5adfc02b2c241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:47 +0000
Subject: [PATCH 27/44] fix: pseudo-quotient of exact divisions was too large
 by a power of the leading coefficient

---
 src/poly.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poly.cpp b/src/poly.cpp
index 9fd124f..6b85f7b 100644
--- a/src/poly.cpp
+++ b/src/poly.cpp
@@ -101,10 +101,11 @@ namespace tsym {
 
                 remainder = Sum::create(Product::create(lCoeffV, remainder), Product::minus(v, tmp))->expand();
 
+                ++sigma;
+
                 if (isZero(*remainder))
                     break;
 
-                ++sigma;
                 m = remainder->degree(x);
             }
 
-- 
2.43.0


From d29c9fa833cead3ecf98f43531b46ea4aae6fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 28/44] fix: large integer powers of minus one

---
 src/primefac.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index 190d041..76d9779 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -35,6 +35,9 @@ namespace tsym {
         {
             std::vector<Int> result;
 
+            if (primes.empty())
+                return;
+
             assert(n > 0 && n < Int(std::numeric_limits<unsigned>::max()));
 
             const auto nUnsigned = static_cast<unsigned>(n);
-- 
2.43.0


From 432188721bb20adef46a2c7be0a9326b969cd835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:06 +0000
Subject: [PATCH 29/44] fix: numeric powers with huge root indices

---
 src/number.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index 30bcea6..80cbb34 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -235,7 +235,10 @@ namespace tsym {
                 /* We are not too strict here, because of the following check. */
                 return 0;
 
-            assert(denomExponent > 0 && fitsInto<unsigned>(denomExponent));
+            assert(denomExponent > 0);
+
+            if (!fitsInto<unsigned>(denomExponent))
+                return n == 1 ? 1 : 0;
 
             return pow(Int(base), static_cast<unsigned>(denomExponent)) == n ? base : 0;
         }
-- 
2.43.0


From 4ee902f2fd86f383652e2ce5833aacf3f9c559a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 30/44] fix: parentheses around constant sums that are
 numerically an integer in the base of a power

---
 src/printer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 2149377..81d32e7 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -89,10 +89,7 @@ namespace tsym {
             bool isScalarPowerBase(const BasePtr& base)
             {
                 const auto isPositiveInt = [](const auto& base) {
-                    if (const auto n = base->numericEval())
-                        return isInt(*n) && *n > 0;
-
-                    return false;
+                    return isNumeric(*base) && isInt(*base->numericEval()) && base->isPositive();
                 };
 
                 return isSymbol(*base) || isConstant(*base) || isFunction(*base) || isPositiveInt(base);
-- 
2.43.0


From ab0a14893f358d3fdba708e12f3abb78137b55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:18 +0000
Subject: [PATCH 31/44] fix: numeric evaluation of fractional powers whose
 integer power exceeds the range of double

---
 src/number.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index 80cbb34..5f0200f 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -256,10 +256,17 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
-    if (numTest == 0 || denomTest == 0)
-        result = {std::pow(result.toDouble(), 1.0 / Number(denomExponent).toDouble())};
-    else
+    if (numTest != 0 && denomTest != 0)
         result = {numTest, denomTest};
+    else if (const double base = result.toDouble(); std::isnormal(base))
+        result = {std::pow(base, 1.0 / Number(denomExponent).toDouble())};
+    else {
+        /* The base isn't representable as a double, which doesn't need to be true for the result. */
+        using Float = boost::multiprecision::cpp_bin_float_50;
+        const Float base50 = Float(result.numerator()) / Float(result.denominator());
+
+        result = {static_cast<double>(boost::multiprecision::pow(base50, Float(1) / Float(denomExponent)))};
+    }
 }
 
 bool tsym::Number::isRational() const
-- 
2.43.0


From ed6eb23cd252a8f977a5194c32fa0a9b60db1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:02 +0000
Subject: [PATCH 32/44] fix: contraction of summands and factors whose form
 changes was incomplete

---
 src/productsimpl.cpp |  5 ++++-
 src/sumsimpl.cpp     | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index f71a67f..1dfb9d9 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -628,12 +628,15 @@ namespace tsym {
     namespace {
         bool isIncomplete(const BasePtrList& u)
         /* Contraction can change the position of a factor or yield an already existing base, e.g. for
-         * (a^2)^(1/2)*(a^2)^(1/2) = a^2. */
+         * (a^2)^(1/2)*(a^2)^(1/2) = a^2, or a second numeric. */
         {
             if (isOutOfOrder(u))
                 return true;
 
             return std::adjacent_find(cbegin(u), cend(u), [](const auto& f1, const auto& f2) {
+                if (isNumeric(*f1) && isNumeric(*f2))
+                    return true;
+
                 return !f1->isConst() && haveEqualBases(*f1, *f2) && simplTwoEqualBases(f1, f2).size() == 1;
             }) != cend(u);
         }
diff --git a/src/sumsimpl.cpp b/src/sumsimpl.cpp
index bbee97e..36275e4 100644
--- a/src/sumsimpl.cpp
+++ b/src/sumsimpl.cpp
@@ -1,5 +1,6 @@
 
 #include "sumsimpl.h"
+#include <algorithm>
 #include <cassert>
 #include "basefct.h"
 #include "baseptrlistfct.h"
@@ -29,6 +30,7 @@ namespace tsym {
         bool areSinAndCos(const BasePtr& s1, const BasePtr& s2);
         bool haveEqualFirstOperands(const BasePtr& pow1, const BasePtr& pow2);
         BasePtrList simplNSummands(const BasePtrList& u);
+        bool hasContractableNeighbours(const BasePtrList& u);
 
         BasePtrList simplWithoutCache(const BasePtrList& summands)
         {
@@ -232,6 +234,13 @@ namespace tsym {
             else
                 return merge({u1}, simplRest);
         }
+
+        bool hasContractableNeighbours(const BasePtrList& u)
+        {
+            return std::adjacent_find(cbegin(u), cend(u), [](const auto& s1, const auto& s2) {
+                return simplTwoSummands(s1, s2).size() < 2;
+            }) != cend(u);
+        }
     }
 }
 
@@ -245,9 +254,9 @@ tsym::BasePtrList tsym::simplifySum(const BasePtrList& summands)
 
     auto result = simplWithoutCache(summands);
 
-    if (isOutOfOrder(result))
-        /* Contraction changed the position of a summand, e.g. a/sqrt(2) + a/sqrt(2) = sqrt(2)*a, which possibly allows for
-         * more contractions. */
+    if (isOutOfOrder(result) || hasContractableNeighbours(result))
+        /* Contraction changed the position of a summand, e.g. a/sqrt(2) + a/sqrt(2) = sqrt(2)*a, or its form, which possibly
+         * allows for more contractions. */
         result = simplWithoutCache(result);
 
     return map.insert({summands, result})->second;
-- 
2.43.0


From 205a87858dd49d61a2dabc8a768e0387a2ef335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:56 +0000
Subject: [PATCH 33/44] fix: contract a number with a symbolic power of the
 same number

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 1dfb9d9..dd422a9 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -637,7 +637,7 @@ namespace tsym {
                 if (isNumeric(*f1) && isNumeric(*f2))
                     return true;
 
-                return !f1->isConst() && haveEqualBases(*f1, *f2) && simplTwoEqualBases(f1, f2).size() == 1;
+                return !(f1->isConst() && f2->isConst()) && haveEqualBases(*f1, *f2) && simplTwoEqualBases(f1, f2).size() == 1;
             }) != cend(u);
         }
 
-- 
2.43.0


From e5926772f529598e1557e4359f7f2617564a9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 34/44] fix: contract trigonometric functions that meet after
 other factors cancelled

---
 src/productsimpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index dd422a9..afd5e4e 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -636,6 +636,8 @@ namespace tsym {
             return std::adjacent_find(cbegin(u), cend(u), [](const auto& f1, const auto& f2) {
                 if (isNumeric(*f1) && isNumeric(*f2))
                     return true;
+                else if (areContractableTrigFctPowers(*f1, *f2))
+                    return !areEqual(contractTrigFctPowers(f1, f2), {f1, f2});
 
                 return !(f1->isConst() && f2->isConst()) && haveEqualBases(*f1, *f2) && simplTwoEqualBases(f1, f2).size() == 1;
             }) != cend(u);
-- 
2.43.0


From 9e5529dd1993e554e665f2323225f733e22b4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:37 +0000
Subject: [PATCH 35/44] fix: quadrant and range of atan2 for a tangent with an
 argument outside of the principal branch

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 189a23d..b818bfc 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -365,7 +365,7 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
     const Trigonometric* trigo(tryCast(atan2Arg));
 
     if (trigo != nullptr && trigo->type == Type::TAN)
-        return trigo->arg1;
+        return shiftAtanResultIntoRange(create(Type::ATAN, atan2Arg), increment);
 
     NumTrigoSimpl numTrigo(atan2ArgEval(y, x), Type::ATAN);
 
-- 
2.43.0


From b662b48debe88718b1814bb81bf5a6a84f800436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:38 +0000
Subject: [PATCH 36/44] fix: distribute constant factors over a sum without
 expanding its summands

---
 src/product.cpp | 25 +++++++++++++++++++++++++
 src/product.h   |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/src/product.cpp b/src/product.cpp
index 4382581..2af7972 100644
--- a/src/product.cpp
+++ b/src/product.cpp
@@ -39,12 +39,37 @@ tsym::BasePtr tsym::Product::createSimplifiedProduct(const BasePtrList& factors)
         return Numeric::one();
     else if (res.size() == 1)
         return res.front();
+    else if (needsDistribution(res))
+        return distribute(res);
     else if (needsExpansion(res))
         return expandAsProduct(res);
     else
         return std::make_shared<const Product>(res, Base::CtorKey{});
 }
 
+bool tsym::Product::needsDistribution(const BasePtrList& factors)
+/* True for e.g. 2*sqrt(2)*(a + b). Nested products of sums shouldn't be expanded in this case, otherwise a - a != 0 for such
+ * a sum. */
+{
+    return needsExpansion(factors) && !hasSumElements(getConstElements(factors));
+}
+
+tsym::BasePtr tsym::Product::distribute(const BasePtrList& factors)
+{
+    const BasePtr sum = getNonConstElements(factors).front();
+    const BasePtrList constFac(getConstElements(factors));
+    BasePtrList summands;
+
+    for (const auto& summand : sum->operands()) {
+        BasePtrList newFactors(constFac);
+
+        newFactors.push_back(summand);
+        summands.push_back(create(newFactors));
+    }
+
+    return Sum::create(summands);
+}
+
 bool tsym::Product::needsExpansion(const BasePtrList& factors)
 {
     const BasePtrList constFac(getConstElements(factors));
diff --git a/src/product.h b/src/product.h
index 25dab1d..740d6e8 100644
--- a/src/product.h
+++ b/src/product.h
@@ -45,6 +45,8 @@ namespace tsym {
 
       private:
         static BasePtr createSimplifiedProduct(const BasePtrList& factors);
+        static bool needsDistribution(const BasePtrList& factors);
+        static BasePtr distribute(const BasePtrList& factors);
         static bool needsExpansion(const BasePtrList& factors);
         int sign() const;
         Fraction normalAndSplitIntoFraction(SymbolMap& map) const;
-- 
2.43.0


From 0c0bded927740a6372847211ed08474329795cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:25 +0000
Subject: [PATCH 37/44] fix: polynomial division with unexpanded arguments

---
 src/poly.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poly.cpp b/src/poly.cpp
index 6b85f7b..0331e31 100644
--- a/src/poly.cpp
+++ b/src/poly.cpp
@@ -218,7 +218,8 @@ tsym::BasePtrList tsym::poly::divide(const BasePtr& u, const BasePtr& v)
     if (const auto lookup = map.find({u, v}); lookup != cend(map))
         return lookup->second;
 
-    auto result = divide(u, v, poly::listOfSymbols(*u, *v));
+    /* Degrees and leading coefficients are determined by the expanded form. */
+    auto result = divide(u->expand(), v->expand(), poly::listOfSymbols(*u, *v));
 
     return map.insert({{u, v}, result})->second;
 }
-- 
2.43.0


From f346b863f9067d65c8466ff527c565c700406820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:26 +0000
Subject: [PATCH 38/44] fix: termination of simplify when repeated
 normalization cycles

---
 src/functions.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index e37d599..1380e09 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -1,8 +1,12 @@
 
 #include "functions.h"
+#include <algorithm>
+#include <boost/algorithm/cxx11/none_of.hpp>
 #include <boost/range/algorithm/find.hpp>
+#include <boost/range/algorithm/find_if.hpp>
 #include <chrono>
 #include "basefct.h"
+#include "baseptrlist.h"
 #include "constant.h"
 #include "fraction.h"
 #include "logarithm.h"
@@ -47,6 +51,20 @@ namespace tsym {
                 for (const auto& operand : ptr->operands())
                     collectSymbols(operand, symbols);
         }
+
+        bool isNewForm(const Base& form, const BasePtrList& previousForms)
+        {
+            return boost::algorithm::none_of(
+              previousForms, [&form](const auto& previous) { return form.isEqual(*previous); });
+        }
+
+        BasePtr simplestOfCycle(const BasePtr& start, const BasePtrList& forms)
+        {
+            const auto first = boost::range::find_if(forms, [&start](const auto& form) { return start->isEqual(*form); });
+
+            return *std::min_element(first, cend(forms),
+              [](const auto& lhs, const auto& rhs) { return lhs->complexity() < rhs->complexity(); });
+        }
     }
 }
 
@@ -124,20 +142,23 @@ tsym::Var tsym::simplify(const Var& arg)
     auto before = clock::now();
     const BasePtr& rep = arg.get();
     const BasePtr expanded(rep->expand());
-    BasePtr normalizedLast(rep);
     BasePtr normalizedNext(rep->normal());
+    BasePtrList normalizedForms{rep};
 
     if (isUndefined(*normalizedNext))
         return Var(normalizedNext);
 
-    while (normalizedNext->isDifferent(*normalizedLast)) {
+    while (isNewForm(*normalizedNext, normalizedForms)) {
         /* Though it's probably not supposed to happen, there has been an expression that changed
          * upon a second normalization. Most of the time, the first normalization will directly
-         * yield the simplest representation. */
-        normalizedLast = normalizedNext;
+         * yield the simplest representation. Repeated normalization can also end up in a cycle of
+         * different forms, and the simplest one of them is used then. */
+        normalizedForms.push_back(normalizedNext);
         normalizedNext = normalizedNext->normal();
     }
 
+    normalizedNext = simplestOfCycle(normalizedNext, normalizedForms);
+
     const BasePtr expandedNext(normalizedNext->expand());
     const BasePtr simplestExpanded = expandedNext->complexity() < expanded->complexity() ? expandedNext : expanded;
 
-- 
2.43.0


From 049cd7344426e128b8864d9e131c54a6792a8783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:04 +0000
Subject: [PATCH 39/44] fix: derivatives of powers with a negative base and a
 constant exponent

---
 src/power.cpp         | 12 ++++++++++--
 src/trigonometric.cpp |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index b0d303b..6f64579 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -104,8 +104,16 @@ tsym::Fraction tsym::Power::normal(SymbolMap& map) const
 
 tsym::BasePtr tsym::Power::diffWrtSymbol(const Base& symbol) const
 {
-    const BasePtrList summands{Product::create(Logarithm::create(baseRef), expRef->diffWrtSymbol(symbol)),
-      Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+    const BasePtr baseDerivative(baseRef->diffWrtSymbol(symbol));
+    const BasePtr expDerivative(expRef->diffWrtSymbol(symbol));
+    BasePtrList summands{Numeric::zero()};
+
+    /* With a negative base, the logarithm is undefined. That mustn't affect a constant exponent. */
+    if (!isZero(*expDerivative))
+        summands.push_back(Product::create(Logarithm::create(baseRef), expDerivative));
+
+    if (!isZero(*baseDerivative))
+        summands.push_back(Product::create(expRef, oneOver(baseRef), baseDerivative));
 
     return Product::create(clone(), Sum::create(summands));
 }
diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index b818bfc..a405654 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -467,6 +467,10 @@ tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& symbol) const
 tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& arg, const Base& symbol) const
 {
     const BasePtr outerDerivative(arg.diffWrtSymbol(symbol));
+
+    if (isZero(*outerDerivative))
+        return outerDerivative;
+
     const BasePtr innerDerivative(innerDiff());
 
     return Product::create(innerDerivative, outerDerivative)->normal();
-- 
2.43.0


From 0cf754ae62b77b262fd99169ec9f3a7a4205114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:31 +0000
Subject: [PATCH 40/44] fix: derivative of atan2 with a vanishing second
 argument

---
 src/trigonometric.cpp | 17 +++++++++++++----
 src/trigonometric.h   |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index a405654..a8f3ef1 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -461,7 +461,7 @@ tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& symbol) const
     if (type != Type::ATAN2)
         return diffWrtSymbol(*arg1, symbol);
     else
-        return diffWrtSymbol(*atan2ArgEval(arg1, arg2), symbol);
+        return diffAtan2WrtSymbol(symbol);
 }
 
 tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& arg, const Base& symbol) const
@@ -476,6 +476,18 @@ tsym::BasePtr tsym::Trigonometric::diffWrtSymbol(const Base& arg, const Base& sy
     return Product::create(innerDerivative, outerDerivative)->normal();
 }
 
+tsym::BasePtr tsym::Trigonometric::diffAtan2WrtSymbol(const Base& symbol) const
+/* Works without the quotient of both arguments, because the second one can be zero. */
+{
+    const BasePtr num = Sum::create(Product::create(arg2, arg1->diffWrtSymbol(symbol)),
+      Product::minus(arg1, arg2->diffWrtSymbol(symbol)));
+
+    if (isZero(*num))
+        return num;
+
+    return Product::create(num, Power::oneOver(Sum::create(square(arg1), square(arg2))))->normal();
+}
+
 tsym::BasePtr tsym::Trigonometric::innerDiff() const
 {
     BasePtr tmp;
@@ -496,9 +508,6 @@ tsym::BasePtr tsym::Trigonometric::innerDiff() const
         case Type::ATAN:
             tmp = Sum::create(Numeric::one(), square(arg1));
             return Power::oneOver(tmp);
-        case Type::ATAN2:
-            tmp = Sum::create(Numeric::one(), square(atan2ArgEval(arg1, arg2)));
-            return Power::oneOver(tmp);
         default:
             TSYM_CRITICAL("Unknown trigonometric function type!");
             return Undefined::create();
diff --git a/src/trigonometric.h b/src/trigonometric.h
index ade4c77..a6e5987 100644
--- a/src/trigonometric.h
+++ b/src/trigonometric.h
@@ -64,6 +64,7 @@ namespace tsym {
         Fraction normalAtan2(SymbolMap& map) const;
         Fraction normalOtherThanAtan2(SymbolMap& map) const;
         BasePtr diffWrtSymbol(const Base& arg, const Base& symbol) const;
+        BasePtr diffAtan2WrtSymbol(const Base& symbol) const;
         BasePtr innerDiff() const;
 
         const BasePtr& arg1;
-- 
2.43.0


From 6863dd06d56eff703a6a9c9f5bebb19bac00f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:27 +0000
Subject: [PATCH 41/44] fix: order of temporary symbols

---
 src/symbol.cpp | 12 +++++++++++-
 src/symbol.h   |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/symbol.cpp b/src/symbol.cpp
index 2d6b98d..13c058a 100644
--- a/src/symbol.cpp
+++ b/src/symbol.cpp
@@ -1,6 +1,8 @@
 
 #include "symbol.h"
 #include <boost/functional/hash.hpp>
+#include <limits>
+#include <string>
 #include <unordered_map>
 #include <utility>
 #include "basefct.h"
@@ -21,9 +23,17 @@ tsym::Symbol::Symbol(Name name, bool positive, Base::CtorKey&&)
     setDebugString();
 }
 
+tsym::Name tsym::Symbol::getTmpName(unsigned tmpId)
+/* A fixed number of digits makes sure that the order of temporary symbols follows the order of their creation. */
+{
+    const auto id = std::to_string(tmpId);
+
+    return Name{std::string(tmpSymbolNamePrefix) + std::string(std::numeric_limits<unsigned>::digits10 + 1 - id.size(), '0') + id};
+}
+
 tsym::Symbol::Symbol(unsigned tmpId, bool positive, Base::CtorKey&&)
     : Base(typestring::symbol)
-    , symbolName{std::string(tmpSymbolNamePrefix) + std::to_string(tmpId)}
+    , symbolName{getTmpName(tmpId)}
     , positive(positive)
 {
     setDebugString();
diff --git a/src/symbol.h b/src/symbol.h
index 00c8c06..f64cb6d 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -37,6 +37,7 @@ namespace tsym {
 
       private:
         static BasePtr create(const Name& name, bool positive);
+        static Name getTmpName(unsigned tmpId);
         static BasePtr createNonEmptyName(const Name& name, bool positive);
         bool isEqualOtherSymbol(const Base& other) const;
 
-- 
2.43.0


From 2c84b8c6d641043704ec43caa016dfa74010765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 42/44] fix: order of back replacement of temporary symbols

---
 src/symbolmap.cpp | 9 +++++++--
 src/symbolmap.h   | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/symbolmap.cpp b/src/symbolmap.cpp
index 3f01b6d..afd7c04 100644
--- a/src/symbolmap.cpp
+++ b/src/symbolmap.cpp
@@ -1,15 +1,20 @@
 
 #include "symbolmap.h"
+#include <boost/range/algorithm/find_if.hpp>
 #include <boost/range/numeric.hpp>
 #include "basefct.h"
 #include "symbol.h"
 
 const tsym::BasePtr& tsym::SymbolMap::getTmpSymbolAndStore(const BasePtr& ptr)
 {
-    if (const auto lookup = rep.find(ptr); lookup != cend(rep))
+    const auto lookup = boost::range::find_if(rep, [&ptr](const auto& entry) { return entry.first->isEqual(*ptr); });
+
+    if (lookup == cend(rep))
+        rep.emplace_back(ptr, Symbol::createTmpSymbol(ptr->isPositive()));
+    else
         return lookup->second;
 
-    return rep.insert({ptr, Symbol::createTmpSymbol(ptr->isPositive())}).first->second;
+    return rep.back().second;
 }
 
 tsym::BasePtr tsym::SymbolMap::replaceTmpSymbolsBackFrom(const BasePtr& orig) const
diff --git a/src/symbolmap.h b/src/symbolmap.h
index 6a0e903..0bf9746 100644
--- a/src/symbolmap.h
+++ b/src/symbolmap.h
@@ -1,7 +1,8 @@
 #ifndef TSYM_SYMBOLMAP_H
 #define TSYM_SYMBOLMAP_H
 
-#include <unordered_map>
+#include <deque>
+#include <utility>
 #include "baseptr.h"
 
 namespace tsym {
@@ -23,7 +24,9 @@ namespace tsym {
         BasePtr replaceTmpSymbolsBackFrom(const BasePtr& orig) const;
 
       private:
-        std::unordered_map<BasePtr, BasePtr> rep;
+        /* Replacements in order of their creation. The order of an unordered container would depend on the names of
+         * temporary symbols inside of nested replacements. */
+        std::deque<std::pair<BasePtr, BasePtr>> rep;
     };
 }
 
-- 
2.43.0


From 07f4bcbb5bc6f82d374e17d2bc48fd4ab9bb3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:25 +0000
Subject: [PATCH 43/44] fix: termination of simplify when repeated
 normalization grows the expression

---
 src/functions.cpp | 48 ++++++++++++-----------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 1380e09..56aa317 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -1,12 +1,8 @@
 
 #include "functions.h"
-#include <algorithm>
-#include <boost/algorithm/cxx11/none_of.hpp>
 #include <boost/range/algorithm/find.hpp>
-#include <boost/range/algorithm/find_if.hpp>
 #include <chrono>
 #include "basefct.h"
-#include "baseptrlist.h"
 #include "constant.h"
 #include "fraction.h"
 #include "logarithm.h"
@@ -51,20 +47,6 @@ namespace tsym {
                 for (const auto& operand : ptr->operands())
                     collectSymbols(operand, symbols);
         }
-
-        bool isNewForm(const Base& form, const BasePtrList& previousForms)
-        {
-            return boost::algorithm::none_of(
-              previousForms, [&form](const auto& previous) { return form.isEqual(*previous); });
-        }
-
-        BasePtr simplestOfCycle(const BasePtr& start, const BasePtrList& forms)
-        {
-            const auto first = boost::range::find_if(forms, [&start](const auto& form) { return start->isEqual(*form); });
-
-            return *std::min_element(first, cend(forms),
-              [](const auto& lhs, const auto& rhs) { return lhs->complexity() < rhs->complexity(); });
-        }
     }
 }
 
@@ -142,28 +124,22 @@ tsym::Var tsym::simplify(const Var& arg)
     auto before = clock::now();
     const BasePtr& rep = arg.get();
     const BasePtr expanded(rep->expand());
-    BasePtr normalizedNext(rep->normal());
-    BasePtrList normalizedForms{rep};
-
-    if (isUndefined(*normalizedNext))
-        return Var(normalizedNext);
-
-    while (isNewForm(*normalizedNext, normalizedForms)) {
-        /* Though it's probably not supposed to happen, there has been an expression that changed
-         * upon a second normalization. Most of the time, the first normalization will directly
-         * yield the simplest representation. Repeated normalization can also end up in a cycle of
-         * different forms, and the simplest one of them is used then. */
-        normalizedForms.push_back(normalizedNext);
-        normalizedNext = normalizedNext->normal();
-    }
+    BasePtr normalized(rep->normal());
+
+    if (isUndefined(*normalized))
+        return Var(normalized);
 
-    normalizedNext = simplestOfCycle(normalizedNext, normalizedForms);
+    /* Though it's probably not supposed to happen, there has been an expression that changed upon a
+     * second normalization. Most of the time, the first normalization will directly yield the
+     * simplest representation. Some expressions with numeric powers alternate between different
+     * forms or grow with every normalization, so this can't continue until nothing changes. */
+    for (BasePtr next(normalized->normal()); next->complexity() < normalized->complexity(); next = normalized->normal())
+        normalized = next;
 
-    const BasePtr expandedNext(normalizedNext->expand());
+    const BasePtr expandedNext(normalized->expand());
     const BasePtr simplestExpanded = expandedNext->complexity() < expanded->complexity() ? expandedNext : expanded;
 
-    const BasePtr& result =
-      normalizedNext->complexity() < simplestExpanded->complexity() ? normalizedNext : simplestExpanded;
+    const BasePtr& result = normalized->complexity() < simplestExpanded->complexity() ? normalized : simplestExpanded;
 
     if (result->isDifferent(*rep)) {
         auto duration = std::chrono::duration_cast<std::chrono::microseconds>(clock::now() - before);
-- 
2.43.0


From 6146f357c79f3b709f3d660fa31ce4c418d60a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:54 +0000
Subject: [PATCH 44/44] fix: time for the evaluation of trigonometric functions
 with large arguments

---
 src/numtrigosimpl.cpp | 11 ++++++++++-
 src/trigonometric.cpp | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 1155699..8cb8091 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -18,6 +18,11 @@ namespace tsym {
             return Product::create(Numeric::create(num, denom), Constant::createPi());
         }
 
+        double numberOfPeriods(const Base& arg)
+        {
+            return std::floor(arg.numericEval()->toDouble() / (2.0 * M_PI));
+        }
+
         const std::unordered_map<BasePtr, BasePtr>& sineTable()
         {
             static const BasePtr& zero(Numeric::zero());
@@ -165,7 +170,11 @@ void tsym::NumTrigoSimpl::adjustArgRange()
 {
     const BasePtr twoPi(timesPi(2, 1));
 
-    /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
+    /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. Large arguments are shifted by all but
+     * the last period at once. */
+    if (const double n = numberOfPeriods(*arg); std::abs(n) > 1.0)
+        arg = Sum::create(arg, Product::minus(Numeric::create(Int(n)), twoPi));
+
     while (*arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index a8f3ef1..72efc2e 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -30,6 +30,19 @@ namespace tsym {
             return Product::create(Numeric::create(num, denom), pi);
         }
 
+        double numberOfPeriods(const Base& arg)
+        {
+            return std::floor(arg.numericEval()->toDouble() / (2.0 * M_PI));
+        }
+
+        bool isPeriodResolvable(const Base& arg)
+        /* The numerical evaluation of very large arguments isn't precise enough for determining the period. */
+        {
+            const auto num = arg.numericEval();
+
+            return num && std::abs(num->toDouble()) < 1.0e12;
+        }
+
         BasePtr atan2ArgEval(const BasePtr& y, const BasePtr& x)
         {
             return Product::create(y, Power::oneOver(x));
@@ -234,7 +247,7 @@ tsym::BasePtr tsym::Trigonometric::createFromTrigo(Type type, const BasePtr& arg
     else if (isTanOfAtan2(type, otherType))
         /* Must be handeled separately due to different function argument: */
         return atan2ArgEval(other->arg1, other->arg2);
-    else if (isThisTheInverse(type, otherType) && arg->numericEval())
+    else if (isThisTheInverse(type, otherType) && isPeriodResolvable(*other->arg1))
         /* If the argument lies in an invalid range for the inner trigonometric function, the result
          * has been Undefined in the first place, thus no additional checks necessary here. */
         return shiftArgIntoRange(type, other->arg1);
@@ -289,6 +302,10 @@ tsym::BasePtr tsym::Trigonometric::shiftArgIntoRange(Type type, BasePtr arg)
     const auto [lower, upper] = interval(type);
     const BasePtr& endFactor = type == Type::ATAN ? Numeric::mOne() : Numeric::one();
 
+    /* Large arguments are shifted by all but the last period at once. */
+    if (const double n = numberOfPeriods(*arg); std::abs(n) > 1.0)
+        arg = Sum::create(arg, Product::create(Numeric::create(Int(n)), timesPi(-2)));
+
     while (arg->numericEval() >= upper->numericEval())
         arg = Sum::create(arg, timesPi(-2));
 
-- 
2.43.0

