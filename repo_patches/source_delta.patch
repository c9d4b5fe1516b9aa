From 3a21ba084e1a79eb7310c7da70af3bf2f9dce359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:01 +0000
Subject: [PATCH 01/34] fix: product of a tangent power and its inverse
 accessed the front of an empty list

---
 src/productsimpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 20274d7..7e562d0 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -165,6 +165,11 @@ namespace tsym {
             const BasePtr r1(trigFunctionPowerReplacement(f1, sin, cos));
             const BasePtr r2(trigFunctionPowerReplacement(f2, sin, cos));
             BasePtrList res = simplTwoFactors(r1, r2);
+
+            if (res.empty())
+                /* Everything has been cancelled, e.g. tan(a)*1/tan(a). */
+                return {Numeric::one()};
+
             const BasePtr exp1 = res.front()->exp();
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
-- 
2.43.0


From 35769c8d56f31f4e4a6b5007097e59e2e79c0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 02/34] fix: contraction of const factors incremented a
 past-the-end iterator

---
 src/productsimpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 7e562d0..d3de1d2 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -576,7 +576,8 @@ namespace tsym {
 
             if (res.size() == 1) {
                 *it1 = res.front();
-                it2 = u.erase(it2);
+                /* The caller increments it2, which must thus not be a past-the-end iterator. */
+                it2 = prev(u.erase(it2));
             } else if (res.size() == 2) {
                 *it1 = res.front();
                 *it2 = res.back();
-- 
2.43.0


From f41d95ab203139076e667d1c601f3bfab71391fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 03/34] fix: tsym::normal was declared in the public header but
 never defined

---
 src/functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions.cpp b/src/functions.cpp
index ceb4b2e..e37d599 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -112,6 +112,11 @@ tsym::Var tsym::expand(const Var& arg)
     return Var(arg.get()->expand());
 }
 
+tsym::Var tsym::normal(const Var& arg)
+{
+    return Var(arg.get()->normal());
+}
+
 tsym::Var tsym::simplify(const Var& arg)
 /* Currently, only normalization and expansion is tested for the simplest representation. */
 {
-- 
2.43.0


From 1db2cdd91c2250962b1375ebdc280d4bd935cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:09 +0000
Subject: [PATCH 04/34] fix: contraction of trigonometric powers dropped
 factors for non-integer exponents of tan

---
 src/productsimpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index d3de1d2..6e6d7fa 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -174,7 +174,12 @@ namespace tsym {
             const BasePtr exp2 = res.back()->exp();
             BasePtr newExp;
 
-            if (res.size() == 2 && exp1->isEqual(*Product::minus(exp2))) {
+            if (res.size() > 2)
+                /* Powers of tan with non-integer exponents aren't resolved into those of sin and cos. */
+                return {f1, f2};
+
+            if (res.size() == 2 && isSymbol(*res.front()->base()) && isSymbol(*res.back()->base())
+              && res.front()->base()->isDifferent(*res.back()->base()) && exp1->isEqual(*Product::minus(exp2))) {
                 /* A combination of sin and cos should lead to tan or 1/tan. */
                 if (res.front()->base()->isEqual(*cos))
                     newExp = Product::minus(exp1);
-- 
2.43.0


From 37b11c2483d27e0a51eb6f2aa2cb69188a2b581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:09 +0000
Subject: [PATCH 05/34] fix: product was lost when merging two const factors
 into two different ones

---
 src/productsimpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 6e6d7fa..4925f66 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -275,9 +275,9 @@ namespace tsym {
             else if (areEqual(res, q1p1))
                 return join(std::move(q1), merge(p, qRest));
 
-            TSYM_ERROR("ProductSimpl: Error merging %S and %S to %S", p1, q1, res);
-
-            return {};
+            /* Two constant factors, that have been simplified to two others, e.g. 4 and 2^(-1/5) to 2 and
+             * 2^(4/5). */
+            return merge(res, merge(pRest, qRest));
         }
 
         BasePtrList simplTwoFactorsWithoutProduct(const BasePtr& f1, const BasePtr& f2)
-- 
2.43.0


From 982c0100f7642acded26f88cc5f993bd9cc73794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:58 +0000
Subject: [PATCH 06/34] fix: primes occurring a multiple of the first prime's
 count were treated as equally frequent

---
 src/primefac.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primefac.cpp b/src/primefac.cpp
index a864f50..b355fbd 100644
--- a/src/primefac.cpp
+++ b/src/primefac.cpp
@@ -156,7 +156,7 @@ namespace tsym {
         auto equalCountOrZero(const std::vector<Int>& primes, int guess)
         {
             for (auto prime = cbegin(primes) + guess; prime != cend(primes); prime += guess)
-                if (*prime != *(prime + (guess - 1)))
+                if (*prime != *(prime + (guess - 1)) || *prime == *(prime - 1))
                     return 0;
 
             return guess;
-- 
2.43.0


From 9fd8c289c8a5caacee2a68fbb7c3733cdfb732ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 07/34] fix: negative arguments of unclear sign weren't shifted
 into the range of trigonometric functions

---
 src/numtrigosimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index 6bb5aed..fed131e 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -166,7 +166,7 @@ void tsym::NumTrigoSimpl::adjustArgRange()
     const BasePtr twoPi(timesPi(2, 1));
 
     /* The argument is a multiple of Pi, and it is shifted into 0 <= arg < 2*Pi. */
-    while (arg->isNegative())
+    while (*arg->numericEval() < 0)
         arg = Sum::create(arg, twoPi);
 
     while (arg->numericEval() >= twoPi->numericEval())
-- 
2.43.0


From ccd17f18c234895f947ab2ae81e155a4e78d1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 08/34] fix: atan of a negative floating point number was
 shifted by 2*pi

---
 src/numtrigosimpl.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/numtrigosimpl.cpp b/src/numtrigosimpl.cpp
index fed131e..1155699 100644
--- a/src/numtrigosimpl.cpp
+++ b/src/numtrigosimpl.cpp
@@ -444,9 +444,6 @@ void tsym::NumTrigoSimpl::atan()
         resultTimesSign();
     else if (isDoubleNumeric(*origArg)) {
         reset();
-        compNumerically([](auto arg) {
-            const double result = std::atan(arg);
-            return result >= 0 ? result : 2 * M_PI + result;
-        });
+        compNumerically([](auto arg) { return std::atan(arg); });
     }
 }
-- 
2.43.0


From 31bfc2a94410d59f589594b500fb542965ce5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:00 +0000
Subject: [PATCH 09/34] fix: asin and acos of a function value outside of [-1,
 1] weren't undefined

---
 src/trigonometric.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 7172626..777b785 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -35,6 +35,16 @@ namespace tsym {
             return Product::create(y, Power::oneOver(x));
         }
 
+        bool isOutOfDomain(Trigonometric::Type type, const Base& arg)
+        {
+            if (type != Trigonometric::Type::ASIN && type != Trigonometric::Type::ACOS)
+                return false;
+            else if (const auto nArg = arg.numericEval())
+                return *nArg < -1 || *nArg > 1;
+            else
+                return false;
+        }
+
         Name nameBy(Trigonometric::Type type)
         {
             switch (type) {
@@ -116,6 +126,8 @@ tsym::BasePtr tsym::Trigonometric::create(Type type, const BasePtr& arg)
 {
     if (isUndefined(*arg))
         return arg;
+    else if (isOutOfDomain(type, *arg))
+        return Undefined::create();
     else if (isFunction(*arg))
         return createFromFunction(type, arg);
     else if (doesSymmetryApply(arg))
-- 
2.43.0


From 20349404af88b94bd389149640d085080e5d6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:22 +0000
Subject: [PATCH 10/34] fix: atan2 of a tangent's sine and cosine parts
 returned an angle in the wrong quadrant

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index 777b785..d0356d1 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -365,7 +365,7 @@ tsym::BasePtr tsym::Trigonometric::simplAtan2(const BasePtr& y, const BasePtr& x
     const Trigonometric* trigo(tryCast(atan2Arg));
 
     if (trigo != nullptr && trigo->type == Type::TAN)
-        return trigo->arg1;
+        return Sum::create(shiftArgIntoRange(Type::ATAN, trigo->arg1), increment);
 
     NumTrigoSimpl numTrigo(atan2ArgEval(y, x), Type::ATAN);
 
-- 
2.43.0


From eb7d3a9f8f393e687c62c7e45e27fef9487c1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:44 +0000
Subject: [PATCH 11/34] fix: expansion of a product of sums that isn't a sum
 itself lost the factors or never ended

---
 src/baseptrlistfct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/baseptrlistfct.cpp b/src/baseptrlistfct.cpp
index 69986b9..66f7d1e 100644
--- a/src/baseptrlistfct.cpp
+++ b/src/baseptrlistfct.cpp
@@ -126,7 +126,8 @@ namespace tsym {
             second = sums.front();
             sums.pop_front();
 
-            for (const auto& item : first->operands())
+            /* The product of preceding sums isn't necessarily a sum, e.g. (1 + sqrt(2))*(1 - sqrt(2)). */
+            for (const auto& item : isSum(*first) ? first->operands() : BasePtrList{first})
                 summands.push_back(Product::create(item, second)->expand());
 
             sums.push_front(Sum::create(summands));
-- 
2.43.0


From c3e9a922ae6b94a3ae6b61ea603eb968240928db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:44 +0000
Subject: [PATCH 12/34] fix: trigonometric functions of sums with prefactors of
 unclear sign switched signs forever

---
 src/trigonometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trigonometric.cpp b/src/trigonometric.cpp
index d0356d1..e36ad06 100644
--- a/src/trigonometric.cpp
+++ b/src/trigonometric.cpp
@@ -156,7 +156,7 @@ bool tsym::Trigonometric::doesSymmetryApply(const BasePtr& arg)
 bool tsym::Trigonometric::haveAllNegativePrefactors(const BasePtrList& operands)
 {
     for (const auto& arg : operands)
-        if (arg->constTerm()->isPositive())
+        if (!arg->constTerm()->isNegative())
             return false;
 
     return true;
-- 
2.43.0


From 79fb87fb2673bda09ef19d1c7c1548c14b7e8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 13/34] fix: logarithm of a numerically negative argument
 without known sign wasn't undefined

---
 src/logarithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 8812c4b..4e53a88 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -54,8 +54,8 @@ bool tsym::Logarithm::isInvalidArg(const Base& arg)
         ;
     else if (arg.isNegative())
         invalid = true;
-    else if (arg.numericEval() == 0)
-        invalid = true;
+    else if (const auto nArg = arg.numericEval())
+        invalid = *nArg <= 0;
 
     if (invalid)
         TSYM_WARNING("Logarithm: invalid argument %S", arg);
-- 
2.43.0


From 1ab90f18008c38f8ac765fbc1417e99053064ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 14/34] fix: derivative of a power with negative base and
 constant exponent was undefined

---
 src/power.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/power.cpp b/src/power.cpp
index b0d303b..6836bd4 100644
--- a/src/power.cpp
+++ b/src/power.cpp
@@ -104,10 +104,14 @@ tsym::Fraction tsym::Power::normal(SymbolMap& map) const
 
 tsym::BasePtr tsym::Power::diffWrtSymbol(const Base& symbol) const
 {
-    const BasePtrList summands{Product::create(Logarithm::create(baseRef), expRef->diffWrtSymbol(symbol)),
-      Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol))};
+    const BasePtr expDiff(expRef->diffWrtSymbol(symbol));
+    const BasePtr baseSummand(Product::create(expRef, oneOver(baseRef), baseRef->diffWrtSymbol(symbol)));
 
-    return Product::create(clone(), Sum::create(summands));
+    if (isZero(*expDiff))
+        /* The logarithm of a negative base is undefined, but it isn't part of the derivative. */
+        return Product::create(clone(), baseSummand);
+    else
+        return Product::create(clone(), Sum::create(Product::create(Logarithm::create(baseRef), expDiff), baseSummand));
 }
 
 bool tsym::Power::isPositive() const
-- 
2.43.0


From 88ecbc51c3b72737dd6298881ac7c7699237453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:41 +0000
Subject: [PATCH 15/34] fix: functions that differ in their second argument
 only had no defined order

---
 src/order.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/order.cpp b/src/order.cpp
index a9243a0..79debef 100644
--- a/src/order.cpp
+++ b/src/order.cpp
@@ -145,8 +145,14 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
     const Name& lName{left.name()};
     const Name& rName{right.name()};
 
+    const BasePtrList& lOps(left.operands());
+    const BasePtrList& rOps(right.operands());
+
     if (lName != rName)
         return lName > rName;
+    else if (lOps.front()->isEqual(*rOps.front()))
+        /* Significant for functions with two arguments. */
+        return doPermute(*lOps.back(), *rOps.back());
     else
         /* If the function argument is a sum or a product, this differs from Cohen's algorithm: the
          * operands are compared by taking the last different operand as significant, as it is the
@@ -154,7 +160,7 @@ bool tsym::doPermuteBothFunction(const Base& left, const Base& right)
          * arguments exactly the other way around, while the advantage over using the normal
          * ordering procedure isn't obvious. Thus, we stick to the standard procedure, leading to
          * e.g. the correct ordering sin(b + c + d)*sin(a + c + e). */
-        return doPermute(*left.operands().front(), *right.operands().front());
+        return doPermute(*lOps.front(), *rOps.front());
 }
 
 bool tsym::doPermuteDifferentType(const Base& left, const Base& right)
-- 
2.43.0


From 1f1bd1864d5c34f686a8c790eaa11ecec3632492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:41 +0000
Subject: [PATCH 16/34] fix: order of two powers with equal base and
 uncontractable exponents depended on the order of factors

---
 src/productsimpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productsimpl.cpp b/src/productsimpl.cpp
index 4925f66..d6fa14e 100644
--- a/src/productsimpl.cpp
+++ b/src/productsimpl.cpp
@@ -401,7 +401,7 @@ namespace tsym {
                 ;
             else if (isFractionNumeric(*e1) && isFractionNumeric(*e2) && isInteger(*newExp))
                 /* Exponent addition would hide the fact that the power factors could be undefined. */
-                return {f1, f2};
+                return doPermute(*f1, *f2) ? BasePtrList{f2, f1} : BasePtrList{f1, f2};
 
             return {Power::create(newBase, newExp)};
         }
-- 
2.43.0


From 12206c8029dc4b779d531ddd0ed96f7849627078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:46 +0000
Subject: [PATCH 17/34] fix: least complexity pivoting divided by zero for a
 singular matrix instead of throwing

---
 src/directsolve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 69ec938..1bb923a 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -18,7 +18,7 @@ std::size_t tsym::firstNonZeroPivot(const SquareMatrixAdaptor<>& coeff, std::siz
 std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::size_t row)
 {
     auto leastComplexity = std::numeric_limits<unsigned>::max();
-    std::size_t idx = row;
+    std::size_t idx = coeff.dim;
 
     for (std::size_t i = row; i < coeff.dim; ++i) {
         const Var& diag = coeff(i, row);
@@ -30,6 +30,9 @@ std::size_t tsym::leastComplexityPivot(const SquareMatrixAdaptor<>& coeff, std::
         }
     }
 
+    if (idx == coeff.dim)
+        throw std::invalid_argument("Coefficient matrix is singular");
+
     return idx;
 }
 
-- 
2.43.0


From 32d71c7b9c65f5c00d6842de04e8717f32a638b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:16 +0000
Subject: [PATCH 18/34] fix: coefficients equal to zero but not simplified were
 used as pivots

---
 src/directsolve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/directsolve.cpp b/src/directsolve.cpp
index 1bb923a..b319700 100644
--- a/src/directsolve.cpp
+++ b/src/directsolve.cpp
@@ -56,6 +56,11 @@ unsigned tsym::eliminateGauss(SquareMatrixAdaptor<>& coeff, std::optional<Vector
     const std::size_t dim = coeff.dim;
     unsigned rowSwaps = 0;
 
+    /* Pivots are compared with zero, which requires simplified coefficients. */
+    for (std::size_t i = 0; i < dim; ++i)
+        for (std::size_t j = 0; j < dim; ++j)
+            coeff(i, j) = simplify(coeff(i, j));
+
     for (std::size_t j = 0; j + 1 < dim; ++j) {
         const std::size_t pivIndex = piv(coeff, j);
 
-- 
2.43.0


From fbec2f29b5e83de6504b27e0a35a7bba085bee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:30 +0000
Subject: [PATCH 19/34] fix: integral powers of numbers beyond the range of a
 double terminated the program

---
 src/number.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index c939abc..6e4f1db 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -246,12 +246,13 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
  * power exactly, i.e., check for simple bases matching the numerator/denominator with the given
  * denominator exponent (e.g. 8^(1/3) = 2). */
 {
+    if (denomExponent == 1)
+        return;
+
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
-    if (denomExponent == 1)
-        return;
-    else if (numTest == 0 || denomTest == 0)
+    if (numTest == 0 || denomTest == 0)
         result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
     else
         result = {numTest, denomTest};
-- 
2.43.0


From 55ed8afaf77a1016c58f19ef0a58e3cda61dcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:58 +0000
Subject: [PATCH 20/34] fix: ordering of integers and fractions was limited to
 the precision of a double

---
 src/number.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index 6e4f1db..ba14436 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -325,7 +325,10 @@ bool tsym::operator==(const Number& lhs, const Number& rhs)
 
 bool tsym::operator<(const Number& lhs, const Number& rhs)
 {
-    return lhs.toDouble() < rhs.toDouble();
+    if (lhs.isRational() && rhs.isRational())
+        return lhs.numerator() * rhs.denominator() < rhs.numerator() * lhs.denominator();
+    else
+        return lhs.toDouble() < rhs.toDouble();
 }
 
 std::ostream& tsym::operator<<(std::ostream& stream, const Number& rhs)
-- 
2.43.0


From 225054acc784b068a67b1645012b0ae67e255150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:40 +0000
Subject: [PATCH 21/34] fix: logarithm of an even power with negative base was
 undefined

---
 src/logarithm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logarithm.cpp b/src/logarithm.cpp
index 4e53a88..34e734a 100644
--- a/src/logarithm.cpp
+++ b/src/logarithm.cpp
@@ -85,7 +85,10 @@ tsym::BasePtr tsym::Logarithm::createFromConstant(const BasePtr& arg)
 
 tsym::BasePtr tsym::Logarithm::createFromPower(const BasePtr& arg)
 {
-    return Product::create(arg->exp(), create(arg->base()));
+    const BasePtr logBase(create(arg->base()));
+
+    /* Negative bases with even exponents form a valid argument. */
+    return isUndefined(*logBase) ? createInstance(arg) : Product::create(arg->exp(), logBase);
 }
 
 std::optional<tsym::Number> tsym::Logarithm::numericEval() const
-- 
2.43.0


From 34a7db89aec48ce6ee028b4880b1a0fba972b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:15 +0000
Subject: [PATCH 22/34] fix: roots of numerically negative bases without known
 sign weren't undefined

---
 src/powersimpl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/powersimpl.cpp b/src/powersimpl.cpp
index 5b36bc1..07945a3 100644
--- a/src/powersimpl.cpp
+++ b/src/powersimpl.cpp
@@ -32,10 +32,12 @@ namespace tsym {
 
         bool doesInvolveComplexNumbers(const BasePtr& base, const BasePtr& exp)
         {
-            if (const auto nExp = exp->numericEval(); base->isNegative() && nExp)
-                return !isInt(*nExp);
-            else
+            if (const auto nExp = exp->numericEval(); !nExp || isInt(*nExp))
                 return false;
+            else if (const auto nBase = base->numericEval())
+                return *nBase < 0;
+            else
+                return base->isNegative();
         }
 
         BasePtrList simplifyNumericBase(const BasePtr& base, const BasePtr& exp)
-- 
2.43.0


From 1159d4c2e9ff93178adf5350a4f3f0d3a2e5e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:57 +0000
Subject: [PATCH 23/34] fix: normalization of a root of a fraction with a
 negative number as numerator was undefined

---
 src/powernormal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/powernormal.cpp b/src/powernormal.cpp
index 011abd4..4251238 100644
--- a/src/powernormal.cpp
+++ b/src/powernormal.cpp
@@ -67,6 +67,11 @@ tsym::Fraction tsym::PowerNormal::normalNumEvalExp() const
     /* Should have been handled as integer exponent above. */
     assert(rationalExp->numericEval() != 0);
 
+    /* Roots of numerator and denominator can be undefined, although the root of the fraction isn't, as in (-2/a)^(1/2). */
+    for (const BasePtr& part : {rationalBase.num, rationalBase.denom})
+        if (isUndefined(*Power::create(part, rationalExp)))
+            return normalNonNumEvalExp();
+
     if (rationalExp->isPositive())
         return normalNumEvalPosExp();
     else
-- 
2.43.0


From f0cf3a712c52d8adb084a045a6934272aac76622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:34 +0000
Subject: [PATCH 24/34] fix: hashing an exact number beyond the range of a
 double terminated the program

---
 src/number.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/number.cpp b/src/number.cpp
index ba14436..3f68de3 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -344,7 +344,10 @@ size_t std::hash<tsym::Number>::operator()(const tsym::Number& n) const
 {
     size_t seed = 0;
 
-    boost::hash_combine(seed, n.toDouble());
+    if (n.isDouble())
+        /* Exact numbers can exceed the range of a double. */
+        boost::hash_combine(seed, n.toDouble());
+
     boost::hash_combine(seed, n.denominator());
     boost::hash_combine(seed, n.numerator());
 
-- 
2.43.0


From 47b46ac9f1c5e46506e813e175866bdbf0f38158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:42 +0000
Subject: [PATCH 25/34] fix: roots without exact solution were turned into
 fractions for very large or small numbers

Roots of e.g. 10^25 + 1 or 1/10^41 aren't rational, but the double result of the root has been converted to a fraction
(with value zero for the second). Also, zero to the power of a negative floating point number wasn't rejected.
---
 src/number.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index 3f68de3..4d78f2e 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -141,7 +141,7 @@ tsym::Number tsym::Number::toThe(const Number& exponent) const
 
 std::optional<tsym::Number> tsym::Number::computeTrivialPower(const Number& exponent) const
 {
-    if (*this == 0 && exponent.numerator() < 0)
+    if (*this == 0 && exponent < 0)
         throw std::overflow_error("0 divisor in rational number division");
 
     if (*this == 0 || *this == 1 || exponent == 1)
@@ -252,10 +252,20 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
     const Int numTest = tryGetBase(result.numerator(), denomExponent);
     const Int denomTest = tryGetBase(result.denominator(), denomExponent);
 
-    if (numTest == 0 || denomTest == 0)
-        result = {std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent))};
-    else
+    if (numTest != 0 && denomTest != 0) {
         result = {numTest, denomTest};
+        return;
+    }
+
+    const double approx = std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent));
+    const Number root(approx);
+
+    if (root.isRational() && root.computeNumPower(denomExponent) != result) {
+        /* Too large or too small for a meaningful conversion to a fraction, this isn't the exact solution. */
+        result.rep = approx;
+        result.setDebugString();
+    } else
+        result = root;
 }
 
 bool tsym::Number::isRational() const
-- 
2.43.0


From 7de463c57ec79dad81af4ed8965de66ae853f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:47 +0000
Subject: [PATCH 26/34] fix: converting an exact number beyond the range of a
 double terminated the program

For example, the square root of 10^310 or the product of 10^310 and a floating point number.
---
 src/number.cpp | 35 +++++++++++++++++++++++++++++++++--
 src/number.h   |  5 +++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index 4d78f2e..2915309 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -39,6 +39,21 @@ tsym::Number::Number(const Int& numerator, const Int& denominator)
     setDebugString();
 }
 
+namespace tsym {
+    namespace {
+        double intToDouble(const Int& n)
+        /* The conversion of the integer type must not be used beyond the range of a double. */
+        {
+            static const Int limit(std::numeric_limits<double>::max());
+
+            if (abs(n) <= limit)
+                return static_cast<double>(n);
+            else
+                return std::copysign(std::numeric_limits<double>::infinity(), n.sign());
+        }
+    }
+}
+
 void tsym::Number::setDebugString()
 {
 #ifdef TSYM_WITH_DEBUG_STRINGS
@@ -222,7 +237,7 @@ namespace tsym {
              * lead to an exact integer solution of the power. Thus, it is save to cast the double power
              * result to an integer after only adding 0.1 (which is somewhat arbitrary, could be any value
              * less than 0.5). */
-            const double exact = std::pow(static_cast<double>(n), 1.0 / static_cast<double>(denomExponent));
+            const double exact = std::pow(intToDouble(n), 1.0 / static_cast<double>(denomExponent));
 
             if (exact > std::numeric_limits<int>::max())
                 /* Result wouldn't fit into an int. */
@@ -302,11 +317,27 @@ tsym::Int tsym::Number::denominator() const
 double tsym::Number::toDouble() const
 {
     if (isRational())
-        return boost::rational_cast<double>(getRational());
+        return toDouble(getRational());
     else
         return getDouble();
 }
 
+double tsym::Number::toDouble(const Rational& r)
+{
+    const auto num = intToDouble(r.numerator());
+    const auto denom = intToDouble(r.denominator());
+
+    if (std::isfinite(num) && std::isfinite(denom))
+        return num / denom;
+
+    /* Integer division with sufficient precision and the result scaled back. */
+    const auto shift = static_cast<int>(msb(abs(r.numerator()))) - static_cast<int>(msb(r.denominator())) - 64;
+    const Int quotient = shift < 0 ? Int((r.numerator() << -shift) / r.denominator())
+                                   : Int(r.numerator() / (r.denominator() << shift));
+
+    return std::ldexp(static_cast<double>(quotient), shift);
+}
+
 namespace tsym {
     namespace {
         bool areEqual(double lhs, double rhs)
diff --git a/src/number.h b/src/number.h
index b6113b3..eb5b2b7 100644
--- a/src/number.h
+++ b/src/number.h
@@ -51,18 +51,19 @@ namespace tsym {
 
             Rep operator()(const Rational& lhs, double rhs)
             {
-                return Operation{}(boost::rational_cast<double>(lhs), rhs);
+                return Operation{}(toDouble(lhs), rhs);
             }
 
             Rep operator()(double lhs, const Rational& rhs)
             {
-                return Operation{}(lhs, boost::rational_cast<double>(rhs));
+                return Operation{}(lhs, toDouble(rhs));
             }
         };
 
         void setDebugString();
         void tryDoubleToFraction();
         double getDouble() const;
+        static double toDouble(const Rational& r);
 
         std::optional<Number> computeTrivialPower(const Number& exponent) const;
         Number computeMinusOneToThe(const Number& exponent) const;
-- 
2.43.0


From e4537deb99bbe882d273a44eed22000ed8d54d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:19 +0000
Subject: [PATCH 27/34] fix: pseudo-quotient had too many factors of the
 leading coefficient if the division is exact

---
 src/poly.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poly.cpp b/src/poly.cpp
index 9fd124f..6b85f7b 100644
--- a/src/poly.cpp
+++ b/src/poly.cpp
@@ -101,10 +101,11 @@ namespace tsym {
 
                 remainder = Sum::create(Product::create(lCoeffV, remainder), Product::minus(v, tmp))->expand();
 
+                ++sigma;
+
                 if (isZero(*remainder))
                     break;
 
-                ++sigma;
                 m = remainder->degree(x);
             }
 
-- 
2.43.0


From bfff1b388de1993a6eb0f611e521f15dca5aa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 28/34] fix: symbol names starting with the name of a constant
 were rejected by the parser

---
 src/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 38e31a0..4c3f877 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -63,8 +63,12 @@ namespace tsym {
                 functions.add("sin", Fct::SIN)("cos", Fct::COS)("tan", Fct::TAN)("asin", Fct::ASIN)("acos", Fct::ACOS)(
                   "atan", Fct::ATAN)("sqrt", Fct::SQRT)("log", Fct::LOG);
 
-                scalar = no_case[qi::lit("pi")][bind(&QiParser::pushPi)]
-                  | no_case[qi::lit("euler")][bind(&QiParser::pushEuler)] | symbol[bindWithArg(&QiParser::pushSymbol)]
+                /* Symbol names may start with the name of a constant: */
+                endOfName = !(qi::ascii::alnum | '_');
+
+                scalar = (no_case[qi::lit("pi")] >> endOfName)[bind(&QiParser::pushPi)]
+                  | (no_case[qi::lit("euler")] >> endOfName)[bind(&QiParser::pushEuler)]
+                  | symbol[bindWithArg(&QiParser::pushSymbol)]
                   | floatingPoint[bindWithArg(&QiParser::pushDouble)] | integer[bindWithArg(&QiParser::pushInteger)];
 
                 oneArgFunction = (no_case[functions] >> '(' >> expression >> ')')[bindWithArg(&QiParser::toFunction)];
@@ -245,6 +249,7 @@ namespace tsym {
             SymbolParser<Iterator> symbol{};
             BigIntParser<Iterator> integer{};
             Rule expression;
+            NoSpaceRule endOfName;
             NoSpaceRule scalar;
             Rule oneArgFunction;
             Rule twoArgFunction;
-- 
2.43.0


From 727590bde72e9a54a8a1341e084e9e6650de4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:59 +0000
Subject: [PATCH 29/34] fix: integers with leading zeros were parsed as octal
 numbers or terminated parsing with an exception

---
 src/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 4c3f877..e21666e 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -144,7 +144,10 @@ namespace tsym {
 
             void pushInteger(const std::string& digits)
             {
-                stack.push(Numeric::create(Int(digits)));
+                /* Leading zeros would be understood as prefix of an octal number. */
+                const auto firstNonZero = digits.find_first_not_of('0');
+
+                stack.push(Numeric::create(firstNonZero == std::string::npos ? Int(0) : Int(digits.substr(firstNonZero))));
             }
 
             void toFunction(Fct type)
-- 
2.43.0


From 0c7c5c8c925e64e5b7a074e6aea5a1f67712f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:06 +0000
Subject: [PATCH 30/34] fix: cached results outlived a change of the prime
 resolution limit

---
 src/options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index ec561d0..3ba1321 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,5 +1,6 @@
 
 #include "options.h"
+#include "cache.h"
 
 namespace tsym {
     namespace {
@@ -20,4 +21,7 @@ const tsym::Int& tsym::options::getMaxPrimeResolution()
 void tsym::options::setMaxPrimeResolution(Int max)
 {
     maxPrimeResolution() = std::move(max);
+
+    /* Cached results depend on the limit that has been in use when they were computed. */
+    clearRegisteredCaches();
 }
-- 
2.43.0


From 40d8010424434bd730d20470c43cf763bdcc5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 31/34] fix: simplification never ended for expressions that
 change back upon repeated normalization

---
 src/functions.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index e37d599..fb47408 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -1,6 +1,7 @@
 
 #include "functions.h"
 #include <boost/range/algorithm/find.hpp>
+#include <algorithm>
 #include <chrono>
 #include "basefct.h"
 #include "constant.h"
@@ -124,17 +125,23 @@ tsym::Var tsym::simplify(const Var& arg)
     auto before = clock::now();
     const BasePtr& rep = arg.get();
     const BasePtr expanded(rep->expand());
-    BasePtr normalizedLast(rep);
+    BasePtrList normalizedBefore{rep};
     BasePtr normalizedNext(rep->normal());
 
     if (isUndefined(*normalizedNext))
         return Var(normalizedNext);
 
-    while (normalizedNext->isDifferent(*normalizedLast)) {
+    const auto isKnown = [&normalizedBefore](const auto& normalized) {
+        const auto isEqual = [&normalized](const auto& other) { return other->isEqual(*normalized); };
+
+        return std::any_of(cbegin(normalizedBefore), cend(normalizedBefore), isEqual);
+    };
+
+    while (!isKnown(normalizedNext)) {
         /* Though it's probably not supposed to happen, there has been an expression that changed
-         * upon a second normalization. Most of the time, the first normalization will directly
-         * yield the simplest representation. */
-        normalizedLast = normalizedNext;
+         * upon a second normalization (and some that change back upon a third). Most of the time,
+         * the first normalization will directly yield the simplest representation. */
+        normalizedBefore.push_back(normalizedNext);
         normalizedNext = normalizedNext->normal();
     }
 
-- 
2.43.0


From e0178a401eff80f064d75e7b8c7ef740317b2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 32/34] fix: numeric powers with large numerators of the
 exponent overflowed to infinity or zero

---
 src/number.cpp | 9 ++++++---
 src/number.h   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/number.cpp b/src/number.cpp
index 2915309..101a92e 100644
--- a/src/number.cpp
+++ b/src/number.cpp
@@ -204,7 +204,7 @@ tsym::Number tsym::Number::computeRationalPower(const Number& exponent) const
 {
     /* The base is positive and neither 1 or 0. The exponent is positive or negative. */
     auto result = computeNumPower(exponent.numerator());
-    computeDenomPower(exponent.denominator(), result);
+    computeDenomPower(exponent, result);
 
     return result;
 }
@@ -256,11 +256,13 @@ namespace tsym {
     }
 }
 
-void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) const
+void tsym::Number::computeDenomPower(const Number& exponent, Number& result) const
 /* For e.g. (1/2)^(2/3), this does the part (1/2)^(1/3), where an attempt is made to resolve the
  * power exactly, i.e., check for simple bases matching the numerator/denominator with the given
  * denominator exponent (e.g. 8^(1/3) = 2). */
 {
+    const Int denomExponent = exponent.denominator();
+
     if (denomExponent == 1)
         return;
 
@@ -272,7 +274,8 @@ void tsym::Number::computeDenomPower(const Int& denomExponent, Number& result) c
         return;
     }
 
-    const double approx = std::pow(result.toDouble(), 1.0 / static_cast<double>(denomExponent));
+    /* The power of the numerator can exceed the range of a double, so this starts from the original base. */
+    const double approx = std::pow(toDouble(), exponent.toDouble());
     const Number root(approx);
 
     if (root.isRational() && root.computeNumPower(denomExponent) != result) {
diff --git a/src/number.h b/src/number.h
index eb5b2b7..3f2398e 100644
--- a/src/number.h
+++ b/src/number.h
@@ -71,7 +71,7 @@ namespace tsym {
         std::optional<Number> computeIrrationalPower(const Number& exponent) const;
         Number computeRationalPower(const Number& exponent) const;
         Number computeNumPower(const Int& numExponent) const;
-        void computeDenomPower(const Int& denomExponent, Number& result) const;
+        void computeDenomPower(const Number& exponent, Number& result) const;
 
         Rational getRational() const;
 
-- 
2.43.0


From 0e8a8225bc6f2fc2aa46fa4cbefaad893e6f2d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 33/34] fix: numeric powers with a very large denominator of
 the exponent terminated the program

---
 src/numpowersimpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/numpowersimpl.cpp b/src/numpowersimpl.cpp
index 05bdb22..82a1ac9 100644
--- a/src/numpowersimpl.cpp
+++ b/src/numpowersimpl.cpp
@@ -142,6 +142,8 @@ bool tsym::NumPowerSimpl::areValuesSmallEnough() const
         return false;
     else if (abs(result.preFactor.numerator()) > maxPrimeLimit || result.preFactor.denominator() > maxPrimeLimit)
         return false;
+    else if (result.exp.denominator() > maxPrimeLimit)
+        return false;
     else
         return true;
 }
-- 
2.43.0


From 05c9f25ea7ea8688b4ab2ff5ecc36ead3476a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 34/34] fix: parentheses around composite power bases were
 missing in print-outs if the evaluated base was rounded to an integer

---
 src/printer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/printer.cpp b/src/printer.cpp
index 3ab7fb5..bf5abbd 100644
--- a/src/printer.cpp
+++ b/src/printer.cpp
@@ -89,10 +89,13 @@ namespace tsym {
             bool isScalarPowerBase(const BasePtr& base)
             {
                 const auto isPositiveInt = [](const auto& base) {
-                    if (const auto n = base->numericEval())
-                        return isInt(*n) && *n > 0;
+                    /* The evaluation of e.g. a sum with large summands might be rounded to an integer. */
+                    if (!isNumeric(*base))
+                        return false;
 
-                    return false;
+                    const auto n = base->numericEval();
+
+                    return isInt(*n) && *n > 0;
                 };
 
                 return isSymbol(*base) || isConstant(*base) || isFunction(*base) || isPositiveInt(base);
-- 
2.43.0

