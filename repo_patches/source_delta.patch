From 6cb6e04cfd942dbd42eda06f2d259a25f84c2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 01/44] fix: umath.frexp() result had an unusable uncertainty
 (malformed linear part)

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 0825ee79232983af2000070b9687808b3195d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 02/44] fix: reject a standard deviation of minus infinity

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..9049798 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2783,7 +2783,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0 and not isnan(std_dev):
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From 8370837ed8f70522e4d611968b7e6a52e2306938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 03/44] fix: division by very large or very small numbers with
 uncertainty

The square in the derivative -x/y**2 overflowed (OverflowError for
|y| > 1e154) or underflowed (ZeroDivisionError for |y| < 1e-162), so that
1/ufloat(1e200, 1e190), for instance, could not be calculated.
---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9049798..48b2a0c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2517,14 +2517,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From d6970556ed67d0e1c460ef02464edfcb03c84793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 04/44] fix: derivative of x % y with respect to y for large
 quotients

The numerical derivative is meaningless when x//y changes within the
differentiation step: 1e9 % ufloat(3, 0.1) had a 2.2e+05 uncertainty
instead of 3.3e+07.
---
 uncertainties/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 48b2a0c..637e459 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2519,9 +2519,10 @@ def get_ops_with_reflection():
         # floats, and is therefore the "usual" mathematical division.
         'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
-        # The derivative wrt the 2nd arguments is something like (..., x//y),
-        # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        # x % y == x - y*(x//y), where x//y is locally constant. (A numerical
+        # derivative would be meaningless when the step on y is large enough
+        # for changing x//y, i.e. for large values of x/y.)
+        'mod': ("1.", "-(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y/y")
-- 
2.43.0


From 5243b4b77ea372a1904e55bfd958618d6b30ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 05/44] fix: standard deviation of very large or very small
 numbers

The squares of the error components overflowed (OverflowError above
1e154) or underflowed (zero standard deviation below 1e-162).
---
 uncertainties/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 637e459..20f9fb2 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1831,8 +1831,20 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        deltas = list(self.error_components().values())
+        # The product (instead of delta**2) does not raise OverflowError:
+        variance = sum(delta*delta for delta in deltas)
+
+        if variance < 1e-280 or isinf(variance):
+            # Some squares may have underflowed or overflowed (there is
+            # no NaN, in this case): the calculation is done in units of
+            # the largest contribution:
+            scale = max(deltas) if deltas else 0.
+            if scale and not isinf(scale):
+                return CallableStdDev(
+                    scale*sqrt(sum((delta/scale)**2 for delta in deltas)))
+
+        return CallableStdDev(sqrt(variance))
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From df863c38fd538b04f938cbf16a4f4fe3a3400a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 06/44] fix: exact variables contribute nothing to covariances

covariance_matrix() returned NaN for expressions with an undefined
derivative with respect to an exact variable (like sqrt(ufloat(0, 0))),
while their standard deviation is 0, and raised OverflowError for standard
deviations above 1e154.
---
 uncertainties/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 20f9fb2..3cc0aad 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2921,10 +2921,15 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (The order of the products prevents unnecessary overflows.)
+                ((derivatives1[var]*var._std_dev)
+                 *(derivatives2[var]*var._std_dev)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # Exact variables do not contribute, even when a
+                # derivative is NaN (see error_components()):
+                if var._std_dev != 0),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From db0b2785e79aa1faa562adbb2ab3692ef6a7f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 07/44] fix: interrupted, concurrent or nested expansion of
 linear combinations

The terms of a linear combination were removed one by one during its
expansion: an interruption (KeyboardInterrupt, MemoryError...) or a
simultaneous read from another thread made all further reads silently
wrong. The expansion was also exponentially long for nested expressions
that contain the same sub-expression many times (like x = x*x, repeated).
---
 uncertainties/core.py | 72 +++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3cc0aad..15e620d 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1532,48 +1532,55 @@ class LinearCombination(object):
 
     def expand(self):
         """
-        Expand the linear combination.
+        Expand the linear combination (if not already expanded).
 
-        The expansion is a collections.defaultdict(float).
+        The expansion is a collections.defaultdict(float) (with no default
+        factory: attempts to get the contribution of a variable that
+        the linear combination does not depend on raise a KeyError).
 
-        This should only be called if the linear combination is not
-        yet expanded.
+        The linear combination is only modified at the very end, and all
+        at once: an interruption (exception) or a simultaneous expansion
+        in another thread thus have no effect on its value.
         """
 
-        # The derivatives are built progressively by expanding each
-        # term of the linear combination until there is no linear
-        # combination to be expanded.
+        # The terms of each sub-expression, indexed by the id of the
+        # sub-expression (other threads may expand the original terms):
+        combos = {}
+        # Sub-expressions, each after all the sub-expressions that it contains:
+        sorted_exprs = []
+
+        # No recursion, as expressions can be very deep:
+        to_sort = [(self, False)]
+        while to_sort:
+            (expr, terms_sorted) = to_sort.pop()
+            if terms_sorted:
+                sorted_exprs.append(expr)
+            elif id(expr) not in combos:
+                combo = combos[id(expr)] = expr.linear_combo
+                to_sort.append((expr, True))
+                if not isinstance(combo, dict):
+                    to_sort.extend(
+                        [(term, False) for (_, term) in reversed(combo)])
+
+        # Each sub-expression is expanded only once, with its total
+        # coefficient (it can appear many times in the expression):
+        factors = collections.defaultdict(float)
+        factors[id(self)] = 1.
 
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        while self.linear_combo:  # The list of terms is emptied progressively
-
-            # One of the terms is expanded or, if no expansion is
-            # needed, simply added to the existing derivatives.
-            #
-            # Optimization note: since Python's operations are
-            # left-associative, a long sum of Variables can be built
-            # such that the last term is essentially a Variable (and
-            # not a NestedLinearCombination): popping from the
-            # remaining terms allows this term to be quickly put in
-            # the final result, which limits the number of terms
-            # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = self.linear_combo.pop()
-
-            # print "MAINS", main_factor, main_expr
-
-            if main_expr.expanded():
-                for (var, factor) in main_expr.linear_combo.items():
+        for expr in reversed(sorted_exprs):
+            main_factor = factors[id(expr)]
+            combo = combos[id(expr)]
+            if isinstance(combo, dict):
+                for (var, factor) in combo.items():
                     derivatives[var] += main_factor*factor
-
             else:  # Non-expanded form
-                for (factor, expr) in main_expr.linear_combo:
-                    # The main_factor is applied to expr:
-                    self.linear_combo.append((main_factor*factor, expr))
-
-            # print "DERIV", derivatives
+                for (factor, term) in reversed(combo):
+                    factors[id(term)] += main_factor*factor
 
+        derivatives.default_factory = None
         self.linear_combo = derivatives
 
     def __getstate__(self):
@@ -1696,9 +1703,6 @@ class AffineScalarFunc(object):
 
         if not self._linear_part.expanded():
             self._linear_part.expand()
-            # Attempts to get the contribution of a variable that the
-            # function does not depend on raise a KeyError:
-            self._linear_part.linear_combo.default_factory = None
 
         return self._linear_part.linear_combo
 
-- 
2.43.0


From 31326a3e6ccb10bf654bcf09dcc054d3febb5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 08/44] fix: pickling and deep copies of long calculations

The nested linear combinations of long calculations (more than about 200
operations) exceeded the maximum recursion depth: they are now expanded
first.
---
 uncertainties/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 15e620d..11cd5a1 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1543,6 +1543,9 @@ class LinearCombination(object):
         in another thread thus have no effect on its value.
         """
 
+        if self.expanded():
+            return
+
         # The terms of each sub-expression, indexed by the id of the
         # sub-expression (other threads may expand the original terms):
         combos = {}
@@ -1584,6 +1587,9 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # Nested expressions can be so deep that their (recursive) pickling
+        # or copy exceeds the maximum recursion depth:
+        self.expand()
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From 512e710f9b3d9c42e1a6d931227916ffa10e28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 09/44] fix: unumpy.arcsinh() was missing

It was only available as unumpy.asinh(), contrary to all the other
functions, which follow the NumPy names.
---
 uncertainties/unumpy/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..1ca9075 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -673,7 +673,8 @@ def define_vectorized_funcs():
     # module:
     func_name_translations = dict([
         (f_name, 'arc'+f_name[1:])
-        for f_name in ['acos', 'acosh', 'asin', 'atan', 'atan2', 'atanh']])
+        for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2',
+                       'atanh']])
 
     new_func_names = [
         func_name_translations.get(function_name, function_name)
@@ -725,4 +726,8 @@ Original documentation:
 
         __all__.append(unumpy_name)
 
+    # Legacy name (not the NumPy name):
+    this_module.asinh = this_module.arcsinh
+    __all__.append('asinh')
+
 define_vectorized_funcs()
-- 
2.43.0


From 7321e2ef6af1ebfcaec0e1260cbd00646f3bc94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 10/44] fix: 1to2 must not modify uarray(*args)

It was changed into uarray(**args), so that updating a program twice broke
it. The program also stopped with an error on uarray(key=value).
---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..61fa2ae 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -63,8 +63,9 @@ class FixUarrayUmatrix(BaseFix):
 
             args_node = results['args']
 
-            # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # We must make sure that there is a single, regular argument (and
+            # for instance not "*args", which must not become "**args"):
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From f76144dd25cd1895bd2ba3fe93a799ba202258e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 11/44] fix: 1to2 did not update std_dev() and std_devs()
 before ** or an access

x.std_dev()**2, x.std_dev().real, m.std_devs()[0], etc. were left unchanged.
---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 4 ++--
 uncertainties/lib1to2/fixes/fix_std_devs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index fd15912..bf62cb6 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -12,7 +12,7 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDev(BaseFix):
     
     PATTERN = """
-    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
     |
     power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
     """
@@ -34,5 +34,5 @@ class FixStdDev(BaseFix):
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-            node.children[-1].remove()
+            results['call'].remove()
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 31afaf7..9ecc1c9 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -12,11 +12,11 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDevs(BaseFix):
 
     PATTERN = """
-    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_devs' > call=trailer< '(' ')' > any* >
     """
 
     def transform(self, node, results):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        node.children[-1].remove()
+        results['call'].remove()
-- 
2.43.0


From 756189d35cb634db827f2bad2535ff71c03ffe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 12/44] fix: 1to2 produced invalid code for set_std_dev()
 inside an expression

[x.set_std_dev(0) for x in values] or f(x.set_std_dev(0)), for instance,
became invalid code (or made the update stop). They are now left unchanged.
---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index bf62cb6..d6ce831 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign
+from lib2to3.fixer_util import Name, Assign, syms
 
 class FixStdDev(BaseFix):
     
@@ -21,6 +21,13 @@ class FixStdDev(BaseFix):
 
         if 'set_arg' in results:  # Case of .set_std_dev()
 
+            # An assignment is a statement (it cannot be used in an
+            # expression), and its value cannot be like "*args" or
+            # "value=3":
+            if (node.parent.type != syms.simple_stmt
+                or results['set_arg'].type in (syms.argument, syms.arglist)):
+                return  # Nothing modified
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
             attribute.children[1].replace(Name('std_dev'))
-- 
2.43.0


From 7fbc083d3575d01b7df616b18056970947068d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 13/44] fix: comparison with complex numbers and NumPy strings

ufloat(1, 0.1) == 1j raised TypeError, and comparing a number with
uncertainty to a NumPy string raised ValueError. NumPy complex numbers
were silently compared through their real part.
---
 uncertainties/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 11cd5a1..1be2f8c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -281,9 +281,15 @@ def to_affine_scalar(x):
     if isinstance(x, AffineScalarFunc):
         return x
 
-    if isinstance(x, CONSTANT_TYPES):
-        # No variable => no derivative:
-        return AffineScalarFunc(x, LinearCombination({}))
+    if (isinstance(x, CONSTANT_TYPES)
+        # Complex numbers (that are not real) have no affine version:
+        and (isinstance(x, numbers.Real)
+             or not isinstance(x, numbers.Complex))):
+        try:
+            # No variable => no derivative:
+            return AffineScalarFunc(x, LinearCombination({}))
+        except (TypeError, ValueError):  # Example: NumPy string
+            pass
 
     # Case of lists, etc.
     raise NotUpcast("%s cannot be converted to a number with"
-- 
2.43.0


From cd7c66a2159c8f267f7ade2956a3cdc92951ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 14/44] fix: factored exponent ignored for the shorthand
 notation

ufloat_fromstr('(1.2(1))e5') silently gave 1.2+/-0.1.
---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1be2f8c..8744767 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3190,10 +3190,12 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            (nom_value, uncert) = parse_error_in_parentheses(representation)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
+        parsed_value = (nom_value*factor, uncert*factor)
+
     return parsed_value
 
 def ufloat_fromstr(representation, tag=None):
-- 
2.43.0


From 65493bf5f4cc562db34ade71313563f6778656f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 15/44] fix: reject numbers with an empty exponent

Invalid strings like '1.2(3)e' were silently parsed as 1.2(3).
---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 8744767..5bdfe28 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3056,7 +3056,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From 2ecdbebbe249d1e35513283316484ff1b430b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 16/44] fix: wrong derivatives after simultaneous first calls
 of a wrapped function

When two threads called a wrapped function (like umath.log()) for the first
time at the same moment, the order of its derivatives could be mixed up,
which made all later uncertainties wrong.
---
 uncertainties/core.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 5bdfe28..2dffe88 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -38,6 +38,7 @@ import itertools
 import inspect
 import numbers
 import collections
+import threading
 
 # The following restricts the local function getargspec() to the common
 # features of inspect.getargspec() and inspect.getfullargspec():
@@ -412,27 +413,28 @@ class IndexableIter(object):
         self.iterable = iterable
         self.returned_elements = []
         self.none_converter = none_converter
+        self.lock = threading.RLock()
 
     def __getitem__(self, index):
 
         returned_elements = self.returned_elements
 
-        try:
-
-            return returned_elements[index]
-
-        except IndexError:  # Element not yet cached
-
-            for pos in range(len(returned_elements), index+1):
+        if index >= len(returned_elements):  # Element not yet cached
 
-                value = next(self.iterable)
+            # Simultaneous accesses from multiple threads must not mix
+            # up the order of the elements:
+            with self.lock:
+                # The elements go directly from the iterable to the cache:
+                # none can be lost because of an interruption.
+                returned_elements.extend(itertools.islice(
+                    self.iterable, max(index+1-len(returned_elements), 0)))
 
-                if value is None:
-                    value = self.none_converter(pos)
+        value = returned_elements[index]
 
-                returned_elements.append(value)
+        if value is None:
+            value = returned_elements[index] = self.none_converter(index)
 
-            return returned_elements[index]
+        return value
 
     def __str__(self):
         return '<%s: [%s...]>' % (
-- 
2.43.0


From 99115bb225a61f747fb4b77c7a08dad9337defc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 17/44] fix: umath.hypot() with a number of arguments other
 than 2

math.hypot() accepts any number of arguments since Python 3.8, but
umath.hypot(x, y, z) raised TypeError when an argument had an uncertainty.
---
 uncertainties/umath_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..862146b 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -161,6 +161,12 @@ def _deriv_fabs(x):
     else:
         return -1
 
+def _deriv_hypot(arg_num):
+    """
+    Derivative of math.hypot() with respect to argument number arg_num.
+    """
+    return lambda *coords: coords[arg_num]/math.hypot(*coords)
+
 def _deriv_pow_0(x, y):
     if y == 0:
         return  0.
@@ -197,8 +203,8 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-    'hypot': [lambda x, y: x/math.hypot(x, y),
-              lambda x, y: y/math.hypot(x, y)],
+    # Any number of arguments (Python 3.8+):
+    'hypot': map(_deriv_hypot, itertools.count()),
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
     'log10': [lambda x: 1/x/math.log(10)],
-- 
2.43.0


From f17be13e2416feb21d5de0ead55dc0b50c7a12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 18/44] fix: uncertainty of some math functions for very large
 or small arguments

The square in the derivative of acosh, asinh, atan, atan2, erf and erfc
overflowed or underflowed: atan(ufloat(1e200, 1)), for instance, had a NaN
uncertainty.
---
 uncertainties/umath_core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 862146b..5a5b491 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -113,6 +113,8 @@ def wraps(wrapper,
 # should never give "large" uncertainties: problems could only appear
 # if this assumption does not hold.
 
+# x*x does not raise OverflowError, contrary to x**2 (for floats).
+
 # Functions not mentioned in _fixed_derivatives have their derivatives
 # calculated numerically.
 
@@ -186,20 +188,20 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),
+              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 9601aeeebbc589ea441311f1c3bfe8abbe0ae6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 19/44] fix: exception in umath.gamma(), lgamma() and fmod()
 near the limits of floats

The numerical derivatives of these functions could raise an exception for
arguments for which the function is defined: as for the other functions,
undefined derivatives are now NaN.
---
 uncertainties/umath_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 5a5b491..b091755 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -15,6 +15,7 @@ from __future__ import division  # Many analytical derivatives depend on this
 from builtins import map
 import math
 import sys
+import functools
 import itertools
 
 # Local modules
@@ -252,7 +253,10 @@ for name in dir(math):
     elif name in num_deriv_funcs:
         # Functions whose derivatives are calculated numerically by
         # this module fall here (isinf, fmod,...):
-        derivatives = []  # Means: numerical calculation required
+        derivatives = map(
+            functools.partial(uncert_core.partial_derivative,
+                              getattr(math, name)),
+            itertools.count())
     elif name not in locally_cst_funcs:
         continue  # 'name' not wrapped by this module (__doc__, e, etc.)
 
-- 
2.43.0


From 860a81eeb3022b92664fa88ecd11e0be2a75b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 20/44] fix: umath.atan2() derivative for unsigned NumPy
 integers

---
 uncertainties/umath_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b091755..c0f2fda 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -194,7 +194,8 @@ fixed_derivatives = {
     'asinh': [lambda x: 1/math.hypot(1, x)],
     'atan': [lambda x: 1/(1+x*x)],
     'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),
-              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],
+              # The sign is last: y can be an unsigned NumPy integer
+              lambda y, x: -(y/math.hypot(x, y)/math.hypot(x, y))],
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
-- 
2.43.0


From 8d6c1c702472b736b498dce4683a7b1e98bd5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 21/44] fix: sign of the derivative of powers of negative
 numbers for huge even exponents

---
 uncertainties/core.py       | 2 ++
 uncertainties/umath_core.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2dffe88..c84e0fd 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2580,6 +2580,8 @@ def get_ops_with_reflection():
     def pow_deriv_0(x, y):
         if y == 0:
             return 0.
+        elif x != 0 and abs(y) > 1e15:
+            return y*(x**y/x)  # y-1 might not have the correct parity
         elif x != 0 or y % 1 == 0:
             return y*x**(y-1)
         else:
diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index c0f2fda..cbb0575 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -173,6 +173,8 @@ def _deriv_hypot(arg_num):
 def _deriv_pow_0(x, y):
     if y == 0:
         return  0.
+    elif x != 0 and abs(y) > 1e15:
+        return y*(math.pow(x, y)/x)  # y-1 might not have the correct parity
     elif x != 0 or y % 1 == 0:
         return y*math.pow(x, y-1)
     else:
-- 
2.43.0


From f3b809faab6393089cf302467173bac8309c5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 22/44] fix: quadratic time of umath.fsum()

---
 uncertainties/umath_core.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index cbb0575..3295329 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -316,16 +316,25 @@ def wrapped_fsum():
     be contained in _original_func.
     """
 
-    # The fsum function is flattened, in order to use the
-    # wrap() wrapper:
+    # wrap() is not used: calculating each of the derivatives with all
+    # the terms would take a quadratic time.
 
-    flat_fsum = lambda *args: original_func(args)
+    def fsum(arg_list):
 
-    flat_fsum_wrap = uncert_core.wrap(
-        flat_fsum, itertools.repeat(lambda *args: 1))
+        args = list(arg_list)
 
-    return wraps(lambda arg_list: flat_fsum_wrap(*arg_list),
-                 original_func)
+        value = original_func(list(map(uncert_core.nominal_value, args)))
+
+        linear_part = [(1., arg._linear_part) for arg in args
+                       if isinstance(arg, uncert_core.AffineScalarFunc)]
+
+        if not linear_part:
+            return value
+
+        return uncert_core.AffineScalarFunc(
+            value, uncert_core.LinearCombination(linear_part))
+
+    return wraps(fsum, original_func)
 
 # !!!!!!!! Documented?
 fsum = wrapped_fsum()
-- 
2.43.0


From c48e2796f6ae29878023cb32bd6930bc4879fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 23/44] fix: NumPy strings like numpy.str_('1') compared equal
 to numbers

---
 uncertainties/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c84e0fd..78828a5 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -283,6 +283,8 @@ def to_affine_scalar(x):
         return x
 
     if (isinstance(x, CONSTANT_TYPES)
+        # NumPy strings are not numbers, even if they look like numbers:
+        and not isinstance(x, (basestring, bytes))
         # Complex numbers (that are not real) have no affine version:
         and (isinstance(x, numbers.Real)
              or not isinstance(x, numbers.Complex))):
-- 
2.43.0


From 703babc5b6834a85b72a121304c4ce3116c106b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 24/44] fix: shallow copies of instances of user-defined
 subclasses shared their attributes

---
 uncertainties/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 78828a5..89f115a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2432,7 +2432,8 @@ class AffineScalarFunc(object):
         # contains keys that are shadowed by slot names:
 
         try:
-            all_attrs['__dict__'] = self.__dict__
+            # (Copied, so that shallow copies do not share their attributes:)
+            all_attrs['__dict__'] = self.__dict__.copy()
         except AttributeError:
             pass
 
@@ -2459,13 +2460,12 @@ class AffineScalarFunc(object):
             else:
                 all_slots.update(slot_names)
 
+        # '__dict__' can itself be a slot name (it is already handled):
+        all_slots.discard('__dict__')
+
         # The slot values are stored:
         for name in all_slots:
             try:
-                # !! It might happen that '__dict__' is itself a slot
-                # name. In this case, its value is saved
-                # again. Alternatively, the loop could be done on
-                # all_slots - {'__dict__'}:
                 all_attrs[name] = getattr(self, name)
             except AttributeError:
                 pass  # Undefined slot attribute
-- 
2.43.0


From 71ed337acbad84ac7a5b99d8e8e83b60d1a8c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 25/44] fix: unpickling of instances of subclasses with a
 __weakref__ slot

---
 uncertainties/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 89f115a..ca6de99 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2460,8 +2460,9 @@ class AffineScalarFunc(object):
             else:
                 all_slots.update(slot_names)
 
-        # '__dict__' can itself be a slot name (it is already handled):
-        all_slots.discard('__dict__')
+        # '__dict__' can itself be a slot name (it is already handled), and
+        # weak references cannot be set:
+        all_slots.difference_update(('__dict__', '__weakref__'))
 
         # The slot values are stored:
         for name in all_slots:
-- 
2.43.0


From 52e0392a5e7e2c20c53d97f0956a9858e7629477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 26/44] fix: private slots of subclasses were lost when
 pickling

---
 uncertainties/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ca6de99..818025e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2456,9 +2456,15 @@ class AffineScalarFunc(object):
             # Slot names can be given in various forms (string,
             # sequence, iterable):
             if isinstance(slot_names, basestring):
-                all_slots.add(slot_names)  # Single name
-            else:
-                all_slots.update(slot_names)
+                slot_names = (slot_names,)  # Single name
+
+            for name in slot_names:
+                # Private names are mangled by Python:
+                if name.startswith('__') and not name.endswith('__'):
+                    class_name = cls.__name__.lstrip('_')
+                    if class_name:
+                        name = '_%s%s' % (class_name, name)
+                all_slots.add(name)
 
         # '__dict__' can itself be a slot name (it is already handled), and
         # weak references cannot be set:
-- 
2.43.0


From 0365402a291a816c53fab817c314f1ae84ed6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:32 +0000
Subject: [PATCH 27/44] fix: wrapped bound methods called with keyword
 arguments used the derivatives of other parameters

---
 uncertainties/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818025e..2728c84 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -600,7 +600,14 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        arg_names = argspec.args
+
+        # The object of a bound method is not one of the arguments given
+        # to the wrapped function:
+        if inspect.ismethod(f) and f.__self__ is not None:
+            arg_names = arg_names[1:]
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From edcd5c05cd818712266d9304dde9829f57cd634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:21 +0000
Subject: [PATCH 28/44] fix: unsupported format specifications like 'n', 'x10f'
 or 'S.1u' were silently accepted

---
 uncertainties/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2728c84..ea9d799 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2022,7 +2022,8 @@ class AffineScalarFunc(object):
         # Format specification parsing:
 
         match = re.match(r'''
-            (?P<fill>[^{}]??)(?P<align>[<>=^]?)  # fill cannot be { or }
+            # The fill character cannot be { or }, and requires an alignment:
+            (?P<fill>(?:[^{}](?=[<>=^]))?)(?P<align>[<>=^]?)
             (?P<sign>[-+ ]?)
             (?P<zero>0?)
             (?P<width>\d*)
@@ -2032,7 +2033,7 @@ class AffineScalarFunc(object):
             # The type can be omitted. Options must not go here:
             (?P<type>[eEfFgG%]??)  # n not supported
             (?P<options>[PSLp]*)  # uncertainties-specific flags
-            $''',
+            \Z''',
             format_spec,
             re.VERBOSE)
 
-- 
2.43.0


From 4462cc04e3adde661cd79d9601f7913dbfbd94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 29/44] fix: precision of numbers with a null or non-finite
 part was used as a width with the default and g formats

---
 uncertainties/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ea9d799..1ae86fc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1168,6 +1168,19 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # Format of a part when the other one does not have meaningful
+    # digits (for the default and g formats):
+    if not fmt_parts['prec']:
+        special_fmt_suffix = fmt_parts['type']
+    elif common_exp is not None and int(fmt_parts['prec']) <= 1:
+        # Single digit mantissa (with g, 9.5 would be printed as 1e+01):
+        special_fmt_suffix = '.0'+main_pres_type
+    else:
+        # g is used when there is no type because the default format can
+        # print an exponent:
+        special_fmt_suffix = '.%s%s' % (
+            fmt_parts['prec'], fmt_parts['type'] or 'g')
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1176,7 +1189,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = special_fmt_suffix
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1386,7 +1399,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = special_fmt_suffix
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 6bd1cc0a39d6bd3294cc070ec6c0be8ce92b531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 30/44] fix: formatting of numbers close to the largest float
 raised OverflowError

---
 uncertainties/core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1ae86fc..55452fa 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -903,6 +903,19 @@ def first_digit(value):
     except ValueError:  # Case of value == 0
         return 0
 
+def first_digit_rounded(value, limit):
+    '''
+    Return the first digit position of the given value once it is
+    rounded at the given limit (with the convention of
+    signif_dgt_to_limit()).
+    '''
+    try:
+        return first_digit(round(value, -limit))
+    except OverflowError:
+        # The rounded value is larger than the largest float, which is
+        # not a power of ten: the first digit remains at the same place.
+        return first_digit(value)
+
 def PDG_precision(std_dev):
     '''
     Return the number of significant digits to be used for the given
@@ -1504,8 +1517,7 @@ def signif_dgt_to_limit(value, num_signif_d):
     # the rounded value at that limit is 1.0, i.e. has 2
     # significant digits instead of num_signif_d = 1). We correct for
     # this effect by adjusting limit if necessary:
-    rounded = round(value, -limit_no_rounding)
-    fst_digit_rounded = first_digit(rounded)
+    fst_digit_rounded = first_digit_rounded(value, limit_no_rounding)
 
     if fst_digit_rounded > fst_digit:
         # The rounded limit is fst_digit_rounded-num_signif_d+1;
@@ -2261,7 +2273,7 @@ class AffineScalarFunc(object):
                 # for instance when using the .0e format:
                 # signif_dgt_to_limit() was called before, which
                 # prompted a similar calculation:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = first_digit_rounded(exp_ref_value, digits_limit)
 
         else:  # None, g, G
 
@@ -2289,7 +2301,7 @@ class AffineScalarFunc(object):
                 use_exp = False
             else:
                 # Common exponent *if* used:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = first_digit_rounded(exp_ref_value, digits_limit)
 
                 # print "COMMON EXP TEST VALUE", common_exp
                 # print "LIMIT EXP", common_exp-digits_limit+1
-- 
2.43.0


From c0a0da80a609a330d3b2bed07103d584e379aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 31/44] fix: formatting of numbers close to the smallest float
 raised ZeroDivisionError or gave inaccurate digits

---
 uncertainties/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 55452fa..caa58a9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2328,10 +2328,15 @@ class AffineScalarFunc(object):
         if use_exp:
 
             # Not 10.**(-common_exp), for limit values of common_exp:
-            factor = 10.**common_exp
-
-            nom_val_mantissa = nom_val/factor
-            std_dev_mantissa = std_dev/factor
+            if common_exp >= -300:
+                factor = 10.**common_exp
+                scale = 1.
+            else:  # 10.**common_exp may be inaccurate or null
+                factor = 10.**(common_exp+300)
+                scale = 1e300
+
+            nom_val_mantissa = nom_val*scale/factor
+            std_dev_mantissa = std_dev*scale/factor
             # Limit for the last digit of the mantissas:
             signif_limit = digits_limit - common_exp
 
-- 
2.43.0


From d8c00af259c1a6bd0cdf785069c7d593bfe03790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 32/44] fix: shorthand formatting with very small uncertainties
 raised OverflowError

---
 uncertainties/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index caa58a9..1ca58d8 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1252,10 +1252,10 @@ def format_num(nom_val_main, error_main, common_exp,
 
             else:
                 if uncert:
-                    # The round is important because 566.99999999 can
-                    # first be obtained when 567 is wanted (%d prints the
-                    # integer part, not the rounded value):
-                    uncert_str = '%d' % round(uncert*10.**prec)
+                    # The digits are obtained directly because
+                    # uncert*10.**prec can overflow:
+                    uncert_str = ('%.*f' % (prec, uncert)
+                                  ).replace('.', '').lstrip('0')
                 else:
                     # The decimal point indicates a truncated float
                     # (this is easy to do, in this case, since
-- 
2.43.0


From a7f4179baf5767174a95aed0106dd234d82181b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 33/44] fix: numbers parsed from strings are exact for all
 exponents

The power of 10 was calculated separately, as a float: this added
rounding errors (the printed (0.0150+/-4.3150)e-05 was parsed back as a
value of 1.5000000000000002e-07), raised OverflowError for representable
numbers like (1e-20+/-3e-22)e310 or for many decimals, and gave 0 for
numbers like 12345(1)e-325.
---
 uncertainties/core.py | 76 ++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1ca58d8..89ab458 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3077,7 +3077,31 @@ class NotParenUncert(ValueError):
     found.
     '''
 
-def parse_error_in_parentheses(representation):
+def scaled_float(number_str, exponent):
+    '''
+    Return the float closest to the number represented by the given
+    string multiplied by 10**exponent.
+
+    The calculation of the power of 10 is left to float(), so that no
+    additional rounding error is introduced, and so that 10**exponent
+    can be out of the range of floats.
+
+    ValueError is raised if the string does not represent a float.
+    '''
+
+    number_str = number_str.strip().lower()
+
+    # Only NaN and infinity contain an "n":
+    if not exponent or 'n' in number_str:
+        return float(number_str)
+
+    (mantissa, exp_mark, number_exp) = number_str.partition('e')
+    if exp_mark:
+        exponent += int(number_exp)
+
+    return float('%se%d' % (mantissa, exponent))
+
+def parse_error_in_parentheses(representation, exponent=0):
     # !!!! The code seems to handle superscript exponents, but the
     # docstring doesn't reflect this!?
     """
@@ -3089,7 +3113,10 @@ def parse_error_in_parentheses(representation):
     The digits between parentheses correspond to the same number of digits
     at the end of the nominal value (the decimal point in the uncertainty
     is optional). Example: 12.34(142) = 12.34±1.42.
-    
+
+    exponent -- exponent of a power of 10 by which the result is
+    multiplied.
+
     Raises ValueError if the string cannot be parsed.
     """
 
@@ -3100,20 +3127,18 @@ def parse_error_in_parentheses(representation):
         # 'dec'imal part.  The 'uncert'ainty is similarly broken into its
         # integer and decimal parts.
         (sign, main, _, main_dec, uncert, uncert_int, uncert_dec,
-         exponent) = match.groups()
+         main_exp) = match.groups()
     else:
         raise NotParenUncert("Unparsable number representation: '%s'."
                              " See the documentation of ufloat_fromstr()."
                              % representation)
 
     # Global exponent:
-    if exponent is not None:
-        factor = 10.**nrmlze_superscript(exponent)
-    else:
-        factor = 1
+    if main_exp is not None:
+        exponent += nrmlze_superscript(main_exp)
 
     # Nominal value:
-    value = float((sign or '')+main)*factor
+    value = scaled_float((sign or '')+main, exponent)
 
     if uncert is None:
         # No uncertainty was found: an uncertainty of 1 on the last
@@ -3122,7 +3147,7 @@ def parse_error_in_parentheses(representation):
 
     # Do we have a fully explicit uncertainty?
     if uncert_dec is not None or uncert in {'nan', 'NAN', 'inf', 'INF'}:
-        uncert_value = float(uncert)
+        uncert_value = scaled_float(uncert, exponent)
     else:
         # uncert_int represents an uncertainty on the last digits:
 
@@ -3133,19 +3158,18 @@ def parse_error_in_parentheses(representation):
         else:
             num_digits_after_period = len(main_dec)-1
 
-        uncert_value = int(uncert_int)/10.**num_digits_after_period
-
-    # We apply the exponent to the uncertainty as well:
-    uncert_value *= factor
+        uncert_value = scaled_float(uncert_int,
+                                    exponent-num_digits_after_period)
 
     return (value, uncert_value)
 
 # Regexp for catching the two variable parts of -1.2×10⁻¹²:
 PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)').match
 
-def to_float(value_str):
+def to_float(value_str, exponent=0):
     '''
-    Converts a string representing a float to a float.
+    Converts a string representing a float to a float, multiplied by
+    10**exponent.
 
     The usual valid Python float() representations are correctly
     parsed.
@@ -3157,7 +3181,7 @@ def to_float(value_str):
     '''
 
     try:
-        return float(value_str)
+        return scaled_float(value_str, exponent)
     except ValueError:
         pass
 
@@ -3165,7 +3189,8 @@ def to_float(value_str):
     match = PRETTY_PRINT_MATCH(value_str)
     if match:
         try:
-            return float(match.group(1))*10.**nrmlze_superscript(match.group(2))
+            return scaled_float(
+                match.group(1), exponent+nrmlze_superscript(match.group(2)))
         except ValueError:
             raise ValueError('Mantissa or exponent incorrect in pretty-print'
                              ' form %s' % value_str)
@@ -3204,8 +3229,8 @@ def str_to_number_with_uncert(representation):
 
     match = NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH(representation)
 
-    # The representation is simplified, but the global factor is
-    # calculated:
+    # The representation is simplified, but the global exponent is
+    # obtained:
 
     if match:
 
@@ -3219,11 +3244,9 @@ def str_to_number_with_uncert(representation):
         except ValueError:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-        factor = 10.**exponent
-
         representation = match.group('simple_num_with_uncert')
     else:
-        factor = 1  # No global exponential factor
+        exponent = 0  # No global exponential factor
 
     match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
     if match:
@@ -3233,20 +3256,19 @@ def str_to_number_with_uncert(representation):
         try:
             # Simple form 1234.45+/-1.2 or 1234.45±1.2, or 1.23e-10+/-1e-23
             # or -1.2×10⁻¹²±1e23:
-            parsed_value = (to_float(nom_value)*factor,
-                            to_float(uncert)*factor)
+            parsed_value = (to_float(nom_value, exponent),
+                            to_float(uncert, exponent))
         except ValueError:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            (nom_value, uncert) = parse_error_in_parentheses(representation)
+            parsed_value = parse_error_in_parentheses(
+                representation, exponent)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-        parsed_value = (nom_value*factor, uncert*factor)
-
     return parsed_value
 
 def ufloat_fromstr(representation, tag=None):
-- 
2.43.0


From 95d01cd7c8e5b7f908357298fb7afbbda0711924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 34/44] fix: text after a line break is not ignored in parsed
 numbers

ufloat_fromstr('3+/-1\n4+/-2') silently returned 3+/-1 instead of raising
ValueError.
---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 89ab458..63a1bd9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3248,7 +3248,7 @@ def str_to_number_with_uncert(representation):
     else:
         exponent = 0  # No global exponential factor
 
-    match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
+    match = re.match(u'(.*)(?:\\+/-|±)(.*)$', representation)
     if match:
 
         (nom_value, uncert) = match.groups()
-- 
2.43.0


From ed8ebc5947b834a7759a3fb318de636c913eef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 35/44] fix: std_score() raises ValueError for NumPy values too

With a zero standard deviation, the score of NumPy numbers and arrays was
infinite or NaN.
---
 uncertainties/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 63a1bd9..8bbc2bc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2423,14 +2423,18 @@ class AffineScalarFunc(object):
 
         Raises a ValueError exception if the standard deviation is zero.
         """
-        try:
-            # The ._nominal_value is a float: there is no integer division,
-            # here:
-            return (value - self._nominal_value) / self.std_dev
-        except ZeroDivisionError:
+        std_dev = self.std_dev
+
+        # The division of a NumPy number by zero does not raise any
+        # exception, so that this case is handled explicitly:
+        if std_dev == 0:
             raise ValueError("The standard deviation is zero:"
                              " undefined result")
 
+        # The ._nominal_value is a float: there is no integer division,
+        # here:
+        return (value - self._nominal_value) / std_dev
+
     def __deepcopy__(self, memo):
         """
         Hook for the standard copy module.
-- 
2.43.0


From 38fe6085c0eb2a7fbd28c0b71808072452cfb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 36/44] fix: correlated values from any array-like, with float
 accuracy

NumPy matrices and arrays of booleans, small integers or objects raised an
exception, and matrices of float32 gave results with the accuracy of
float32.
---
 uncertainties/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 8bbc2bc..2bb7ec3 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -169,6 +169,10 @@ else:
         # such variables (with the help of numpy.ix_()), and creating 
         # them separately.
         
+        # Arrays of floats have the necessary precision, and, contrary to
+        # matrices, they are not handled differently by NumPy functions:
+        covariance_mat = numpy.array(covariance_mat, dtype=float)
+
         std_devs = numpy.sqrt(numpy.diag(covariance_mat))
 
         # For numerical stability reasons, we go through the correlation
@@ -219,7 +223,10 @@ else:
         if tags is None:
             tags = (None,) * len(values_with_std_dev)
 
-        (nominal_values, std_devs) = numpy.transpose(values_with_std_dev)
+        # Like in correlated_values(), any array-like is accepted:
+        (nominal_values, std_devs) = numpy.transpose(
+            numpy.array(values_with_std_dev, dtype=float))
+        correlation_mat = numpy.array(correlation_mat, dtype=float)
 
         # We diagonalize the correlation matrix instead of the
         # covariance matrix, because this is generally more stable
-- 
2.43.0


From b3b91e6b3971b11f25a4af34438f22e633303eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 37/44] fix: product of a unumpy.matrix by a number with
 uncertainty

---
 uncertainties/unumpy/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 1ca9075..cfb9566 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -603,6 +603,13 @@ class matrix(numpy.matrix):
     matrix contains numbers with uncertainties.
     """
 
+    def __mul__(self, other):
+        # ! NumPy's matrix __mul__ only handles the scalars from Python
+        # and NumPy, and leaves the other ones to their __rmul__():
+        if isinstance(other, uncert_core.AffineScalarFunc):
+            return numeric.dot(self, other)
+        return super(matrix, self).__mul__(other)
+
     def __rmul__(self, other):
         # ! NumPy's matrix __rmul__ uses an apparently restrictive
         # dot() function that cannot handle the multiplication of a
-- 
2.43.0


From d1d4f88aa7fab544e5af7ba37b05815706799c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 38/44] fix: negative powers of matrices of numbers with
 uncertainties

---
 uncertainties/unumpy/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index cfb9566..eff1058 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -15,6 +15,7 @@ from __future__ import division
 from builtins import next
 from builtins import zip
 from builtins import range
+import numbers
 import sys
 import inspect
 
@@ -621,6 +622,12 @@ class matrix(numpy.matrix):
         else:
             return numeric.dot(other, self)  # The order is important
 
+    def __pow__(self, other):
+        # NumPy cannot invert the matrices that contain objects:
+        if not isinstance(other, numbers.Integral) or other >= 0:
+            return super(matrix, self).__pow__(other)
+        return self.I**(-other)
+
     def getI(self):
         """Matrix inverse or pseudo-inverse."""
         m, n = self.shape
-- 
2.43.0


From ce8a0c61c91ddd0effbd28abf2e6bd3822b9a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 39/44] fix: unumpy.isnan() and isinf() with an empty array

---
 uncertainties/unumpy/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index eff1058..152e0fc 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -714,7 +714,8 @@ def define_vectorized_funcs():
             # return an array with a boolean data type (instead of
             # object), which allows the result to be used with NumPy's
             # boolean indexing.
-            {} if function_name in umath_core.locally_cst_funcs
+            {'otypes': [bool]} if function_name in ('isinf', 'isnan')
+            else {} if function_name in umath_core.locally_cst_funcs
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
-- 
2.43.0


From 29eaa09ecac9b3d478f10017a8ccba5a4c9f861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 40/44] fix: unumpy.floor(), ceil() and trunc() with empty
 arrays, lists of integers and large values

---
 uncertainties/unumpy/core.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 152e0fc..ec8af66 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -674,6 +674,24 @@ def umatrix(nominal_values, std_devs=None):
 
 ###############################################################################
 
+class vectorize_to_int(numpy.vectorize):
+    """
+    Vectorized version of a function that returns integers.
+
+    The result is an array of NumPy integers, or of Python integers if
+    some of them are too large for this.
+    """
+
+    # numpy.vectorize() would otherwise obtain the data type of the
+    # result from the first element of the array, which might not
+    # exist, or be smaller than the following ones.
+    def __call__(self, *args, **kwargs):
+        result = numpy.vectorize.__call__(self, *args, **kwargs)
+        try:
+            return result.astype(int)
+        except OverflowError:
+            return result
+
 def define_vectorized_funcs():
     """
     Defines vectorized versions of functions from uncertainties.umath_core.
@@ -715,7 +733,6 @@ def define_vectorized_funcs():
             # object), which allows the result to be used with NumPy's
             # boolean indexing.
             {'otypes': [bool]} if function_name in ('isinf', 'isnan')
-            else {} if function_name in umath_core.locally_cst_funcs
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
@@ -730,7 +747,8 @@ def define_vectorized_funcs():
             #!!!! For umath_core.locally_cst_funcs, would it make sense
             # to optimize this by using instead the equivalent (? see
             # above) vectorized NumPy function on the nominal values?
-            numpy.vectorize(func,
+            (vectorize_to_int if function_name in ('ceil', 'floor', 'trunc')
+             else numpy.vectorize)(func,
                             doc="""\
 Vectorized version of umath.%s.
 
-- 
2.43.0


From e40b20d9e72c1f11783e6d4af39362704d5f5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 41/44] fix: derivatives of the pseudo-inverse when the cutoff
 removes non-zero singular values

---
 uncertainties/unumpy/core.py | 57 ++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index ec8af66..6896b61 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -509,34 +509,53 @@ def pinv_with_derivatives(arr, input_type, derivatives, rcond):
         inverse = inverse.view(numpy.matrix)
     yield inverse
 
-    # It is mathematically convenient to work with matrices:
-    inverse_mat = numpy.asmatrix(inverse)
-
-    # Formula (4.12) from The Differentiation of Pseudo-Inverses and
-    # Nonlinear Least Squares Problems Whose Variables
+    # Perturbation of the singular value decomposition arr = U*S*V_H (the
+    # pseudo-inverse is V*S_inv*U_H, where the singular values above the
+    # cutoff are inverted, and where the other ones are replaced by zero).
+    #
+    # This generalizes formula (4.12) from The Differentiation of
+    # Pseudo-Inverses and Nonlinear Least Squares Problems Whose Variables
     # Separate. Author(s): G. H. Golub and V. Pereyra. Source: SIAM
     # Journal on Numerical Analysis, Vol. 10, No. 2 (Apr., 1973),
-    # pp. 413-432
+    # pp. 413-432, to the case of singular values below the cutoff that are
+    # not zero (they change the derivatives, through the singular vectors).
 
     # See also
     # http://mathoverflow.net/questions/25778/analytical-formula-for-numerical-derivative-of-the-matrix-pseudo-inverse
 
-    # Shortcuts.  All the following factors should be numpy.matrix objects:
-    PA = arr*inverse_mat
-    AP = inverse_mat*arr
-    factor21 = inverse_mat*inverse_mat.H
-    factor22 = numpy.eye(arr.shape[0])-PA
-    factor31 = numpy.eye(arr.shape[1])-AP
-    factor32 = inverse_mat.H*inverse_mat
+    (U, sing_values, V_H) = numpy.linalg.svd(numpy.asarray(arr))
+    # It is mathematically convenient to work with matrices:
+    U = numpy.asmatrix(U)
+    V = numpy.asmatrix(V_H).H
+    (num_rows, num_cols) = arr.shape
+
+    # Calculations are done with square matrices:
+    size = max(arr.shape)
+    s = numpy.zeros(size)
+    s[:sing_values.size] = sing_values
+    inverted = s > rcond*s.max()  # Like in numpy.linalg.pinv
+
+    # Largest and smallest singular value of each pair of singular vectors:
+    large = numpy.maximum.outer(s, s)
+    small = numpy.minimum.outer(s, s)
+    both = numpy.logical_and.outer(inverted, inverted)
+    one = numpy.logical_xor.outer(inverted, inverted)
+
+    # Coefficients of the derivative of arr, and of its Hermitian
+    # transpose, in the bases of the singular vectors:
+    coef = numpy.zeros((size, size))
+    coef_H = numpy.zeros((size, size))
+    coef[both] = -1/large[both]/small[both]
+    coef_H[one] = 1/(large[one]-small[one])/(large[one]+small[one])
+    coef[one] = coef_H[one]*(small[one]/large[one])
 
     # Successive derivatives of the inverse:
     for derivative in derivatives:
-        derivative_mat = numpy.asmatrix(derivative)
-        term1 = -inverse_mat*derivative_mat*inverse_mat
-        derivative_mat_H = derivative_mat.H
-        term2 = factor21*derivative_mat_H*factor22
-        term3 = factor31*derivative_mat_H*factor32
-        yield term1+term2+term3
+        rotated = numpy.zeros(
+            (size, size), dtype=numpy.result_type(arr, derivative))
+        rotated[:num_rows, :num_cols] = U.H*numpy.asmatrix(derivative)*V
+        result = coef*rotated + coef_H*rotated.conj().T
+        yield V*numpy.asmatrix(result[:num_cols, :num_rows])*U.H
 
 # Default rcond argument for the generalization of numpy.linalg.pinv:
 #
-- 
2.43.0


From 95c9ebd4cb1a8628f4527d8f8d03a97915183512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 42/44] fix: operations between a numpy.matrix and a
 unumpy.matrix return a unumpy.matrix in both orders

---
 uncertainties/unumpy/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 6896b61..a4a1240 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -623,6 +623,10 @@ class matrix(numpy.matrix):
     matrix contains numbers with uncertainties.
     """
 
+    # Operations with a numpy.matrix return an object of this class,
+    # whatever the order of the operands:
+    __array_priority__ = numpy.matrix.__array_priority__ + 1
+
     def __mul__(self, other):
         # ! NumPy's matrix __mul__ only handles the scalars from Python
         # and NumPy, and leaves the other ones to their __rmul__():
-- 
2.43.0


From 79fa660e5e6ff50cec44c8a730a892711ec8800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 43/44] fix: 1to2 produced invalid code for set_std_dev() with
 an argument on several lines

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index d6ce831..dd78134 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign, syms
+from lib2to3.fixer_util import Name, Assign, parenthesize, syms
 
 class FixStdDev(BaseFix):
     
@@ -35,8 +35,15 @@ class FixStdDev(BaseFix):
             # Call "(arg)": removed
             node.children[-1].remove()
 
+            # New value: outside of the parentheses of the call, it can
+            # only be on more than one line if it has its own parentheses:
+            value = results['set_arg'].clone()
+            value.prefix = ''
+            if '\n' in str(value):
+                value = parenthesize(value)
+
             # Replacement by an assignment:
-            node.replace(Assign(node.clone(), results['set_arg'].clone()))
+            node.replace(Assign(node.clone(), value))
             
         else:
             # '.std_dev' is followed by a call with no argument: the call
-- 
2.43.0


From c0784ef9255bf3b318a90ec8fedb536ddcc60e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 44/44] fix: wrong derivatives for keyword arguments of wrapped
 classes and callable objects, and with positional-only parameters

---
 uncertainties/core.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2bb7ec3..5d4c27a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -450,6 +450,29 @@ class IndexableIter(object):
             self.__class__.__name__,
             ', '.join(map(str, self.returned_elements)))
 
+def positional_or_keyword(f):
+    """
+    Returns the (index, name) pairs of the parameters of callable f
+    that can be given both by position and by keyword. They do not
+    include the object implicitly given to f (bound methods, classes,
+    callable objects).
+
+    Raises TypeError or ValueError if the parameters of f are not
+    available.
+    """
+    if sys.version_info < (3, 5):  # !! Could be removed with Python 3 only
+        names = getargspec(f).args
+        if inspect.ismethod(f) and f.__self__ is not None:
+            names = names[1:]
+        return list(enumerate(names))
+
+    # Positional-only parameters are excluded: a keyword argument with
+    # the name of one of them is for a var-keyword parameter.
+    parameters = inspect.signature(f, follow_wrapped=False).parameters
+    return [(index, param.name)
+            for (index, param) in enumerate(parameters.values())
+            if param.kind == param.POSITIONAL_OR_KEYWORD]
+
 def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     """
     Wraps a function f into a function that also accepts numbers with
@@ -595,8 +618,8 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
     # additional derivatives:
 
     try:
-        argspec = getargspec(f)
-    except TypeError:
+        indexed_names = positional_or_keyword(f)
+    except (TypeError, ValueError):
         # Some functions do not provide meta-data about their
         # arguments (see PEP 362). One cannot use keyword arguments
         # for positional-or-keyword parameters with them: nothing has
@@ -607,14 +630,7 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        arg_names = argspec.args
-
-        # The object of a bound method is not one of the arguments given
-        # to the wrapped function:
-        if inspect.ismethod(f) and f.__self__ is not None:
-            arg_names = arg_names[1:]
-
-        for (index, name) in enumerate(arg_names):
+        for (index, name) in indexed_names:
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0

