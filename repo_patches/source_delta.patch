From 82e4f4aa54b466cab69547d5429a56577c997c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 01/53] fix: safe_inverse and safe_sqrt work on the mpf values
 they are given

---
 postprocfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..bf1cc44 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
@@ -57,7 +57,7 @@ def dec_sin(x):
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
-- 
2.43.0


From e6b1b949de5a2f599984e7f0f422bbd4d9d65815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 02/53] fix: the trigonometric, exp and ln post functions can
 be evaluated

---
 postprocfuncs.py | 82 +++++++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 53 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index bf1cc44..71f5e2a 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,59 +1,35 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
+import mpmath
 from mpmath import mpf as dec
 
 def dec_cos(x):
-    """Return the cosine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
-    >>> print(cos(0.5))
-    0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
-
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+    """Return the cosine of x as measured in radians, in the current precision."""
+    return mpmath.cos(x)
 
 def dec_sin(x):
-    """Return the sine of x as measured in radians.
+    """Return the sine of x as measured in radians, in the current precision."""
+    return mpmath.sin(x)
 
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
+def dec_tan(x):
+    """Return the tangent of x as measured in radians, in the current precision."""
+    return mpmath.tan(x)
 
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
-    >>> print(sin(0.5))
-    0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
+def dec_cot(x):
+    """Returns the cotangent of x as measured in radians if sin(x) != 0, otherwise returns infinity."""
+    return safe_inverse(dec_tan(x))
 
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+def dec_exp(x):
+    """Returns e to the power of x, in the current precision."""
+    return mpmath.exp(x)
+
+def dec_ln(x):
+    """Returns the natural logarithm of x if x > 0, otherwise returns NaN"""
+    if x <= 0:
+        return dec('NaN')
+    else:
+        return mpmath.ln(x)
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
@@ -92,10 +68,10 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -134,10 +110,10 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From f96110d0ec32a8c72c16088c975d367666012185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 03/53] fix: DecimalHashTable accepts the mpf keys it was
 ported to

---
 decimal_hashtable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..46f5d9c 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -4,6 +4,7 @@
  serialization by dill/pickle and (perhaps) more."""
 
 # from decimal import Decimal as dec
+import mpmath
 from mpmath import mpf as dec
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
@@ -28,7 +29,8 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            # all the digits of the current precision, in a fixed-point notation
+            key_str = mpmath.nstr(key, mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
-- 
2.43.0


From 6bab2e4f92596ac8fed3c1a1732b58ea20ec8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 04/53] fix: DecimalHashTable.get and setdefault use the
 truncated keys

---
 decimal_hashtable.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 46f5d9c..7aa56ce 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -62,6 +62,16 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        """dict.get bypasses __getitem__, and therefore wouldn't use the truncated keys."""
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        """dict.setdefault bypasses __getitem__/__setitem__, and therefore wouldn't use the truncated keys."""
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From 8d39a7eb73a310220e46df90680af62e945f5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 05/53] fix: deleting a key of the current accuracy from a
 DecimalHashTable deletes it

---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 7aa56ce..633cc0a 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -53,7 +53,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From dd9178809a6cf15e29a415c3ebbc732beaa6b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 06/53] fix: textual keys of a DecimalHashTable aren't
 truncated to its accuracy

---
 decimal_hashtable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 633cc0a..b345540 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -27,6 +27,9 @@ class DecimalHashTable(dict):
         if not isinstance(key, dec) and not isinstance(key, str):
             raise TypeError('Only Decimal is supported')
         if isinstance(key, str):
+            # textual keys (e.g. 'parameters') aren't decimals, and have no digits to be truncated
+            if key.isalpha():
+                return [], key
             key_str = key
         else:
             # all the digits of the current precision, in a fixed-point notation
-- 
2.43.0


From e76ad643cea66ad2c102945fa544c91ec698282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 07/53] fix: the LHS evaluators work on the mpf constants they
 are given

---
 lhs_evaluators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..753e622 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,6 +1,6 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), str(self.val))
 
     def __repr__(self):
         return self.__str__()
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From 63ac8f8e17e82d16283a27d195a9d1ef8cfc8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/53] fix: refining clicks and exporting to csv work on mpf
 values

---
 enum_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 43cfc37..00f5633 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, mp, nstr, inf
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    str(postproc_res), str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +505,6 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        d1_str, d2_str = [ nstr(d, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf) for d in (d1, d2) ]
+        return d1_str[:accuracy+1] == d2_str[:accuracy+1]
 
-- 
2.43.0


From 01bb1dabf8c978ae88607a1ec23619a821a08299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 09/53] fix: post functions already stored for an (a, b) pair
 are skipped when extending a hashtable

---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 00f5633..d5d34d6 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -155,7 +155,8 @@ class MITM:
         #         cont_frac, pa, pb = iter_element
         for pa, pb in progressbar.progressbar(itr, max_value=itr_len):
             if (pa, pb) in ab_blacklist:
-                postproc_funcs_to_eval = filtered_postproc_funcs - ab_blacklist[(pa, pb)]
+                postproc_funcs_to_eval = { (i, f) for i, f in filtered_postproc_funcs
+                                           if i not in ab_blacklist[(pa, pb)] }
                 # if no new postproc functions to evaluate for this pa, pb, skip
                 if not postproc_funcs_to_eval:
                     continue
-- 
2.43.0


From 312ad21cafeaada28fd06c685c972f533b8c4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 10/53] fix: the integer that a refined click adds to its LHS
 is rounded and not truncated

---
 enum_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index d5d34d6..e5b29c9 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal, mp, nstr, inf
+from mpmath import mpf as dec, isnormal, mp, nstr, inf, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -300,10 +300,10 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
-                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
-                                       (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
+                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, nint(signed_rhs-signed_lhs)=%s' %
+                                       (signed_rhs, signed_lhs, nint(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
                 # p' = p/gcd(p, q)  ,  q' = q/gcd(p, q)
                 lhs_res_obj.canonalize_params()
-- 
2.43.0


From 1574fd2d368716f524f88fcdbfc597a49528f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 11/53] fix: a root just above half an integer isn't taken for
 an integer root

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index e5b29c9..fdd931b 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -335,7 +335,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From 3d7bfb84d16c68a04714c1fe73e3c3407ed00117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 12/53] fix: the latex equations of the sqrt, exp and ln post
 functions state f(contfrac) = lhs

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 71f5e2a..3351a14 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -100,8 +100,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sqrt{{ {0} }} }}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -110,9 +110,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 6f30d0892d9290b2c556d63b96f24c0d95b53098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 13/53] fix: the index of a zeta, feig or percolation constant
 isn't taken for a precision

---
 gen_consts.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gen_consts.py b/gen_consts.py
index d6f00d7..de0d922 100644
--- a/gen_consts.py
+++ b/gen_consts.py
@@ -76,12 +76,22 @@ def set_precision_decor(func):
     return wrapper
 
 
+def set_indexed_precision_decor(func):
+    """Same as set_precision_decor, for indexed constants: the index is the first argument, the precision follows it."""
+    @wraps(func)
+    def wrapper(i, prec=None):
+        set_precision(prec)
+        return func(i)
+
+    return wrapper
+
+
 @set_precision_decor
 def gen_pi_const():
     return pi_const * dec(1)
 
 
-@set_precision_decor
+@set_indexed_precision_decor
 def gen_percolation_consts(i):
     return percolation_consts[i] * dec(1)
 
@@ -91,7 +101,7 @@ def gen_e_const():
     return e_const * dec(1)
 
 
-@set_precision_decor
+@set_indexed_precision_decor
 def gen_feig_consts(i):
     return feig_consts[i] * dec(1)
 
@@ -101,7 +111,7 @@ def gen_euler_masch_const():
     return euler_masch_const * dec(1)
 
 
-@set_precision_decor
+@set_indexed_precision_decor
 def gen_zeta_consts(i):
     # if i not in zeta_consts.keys():
     #     raise ValueError('Invalid argument for zeta')
-- 
2.43.0


From 7a8be190c9cca061188657e61555331cecd5a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 14/53] fix: searches for the feig and percolation constants
 start

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index a73c2d2..8dbd70a 100644
--- a/main.py
+++ b/main.py
@@ -70,9 +70,9 @@ def main(config_file='config.ini'):
 
     measure_runtime = MeasureRuntime()
     if params.const == 'feig':
-        params.const = 'feig, %d' % i
+        params.const = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+        params.const = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
-- 
2.43.0


From 56a5dfcefd46a6843f379f795eb8e606afcc3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 15/53] fix: the optional configuration parameters get their
 default values

---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..d9f5329 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From 4073752683ff424a1e63a8e15de2cb6b1016f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 16/53] fix: a configured path keeps its letter case

---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index d9f5329..51b25bd 100644
--- a/configfile.py
+++ b/configfile.py
@@ -145,7 +145,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From 3360325ee8eb1d52cd8f38d8b338a42c4dfaa746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 17/53] fix: the hashtable's versions are ordered by number,
 and only its own files count

---
 configfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/configfile.py b/configfile.py
index 51b25bd..c846711 100644
--- a/configfile.py
+++ b/configfile.py
@@ -94,13 +94,15 @@ class ConfigParser(configparser.ConfigParser):
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        old_versions = [ fn for fn in os.listdir(dir_path)
+                         if re.match('(%s)(_v[0-9]+)?(\\.pkl)$' % re.escape(stripped_filename), fn) ]
+        # sort by the version number (v10 is newer than v9). A file with no version is the oldest.
+        old_versions.sort(key=lambda fn: int((re.findall('_v([0-9]+)\\.pkl$', fn) or [-1])[0]))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
+            filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', old_versions[-1])[0]
             v = v.replace('_v', '')
             if not v:
                 v = 0
-- 
2.43.0


From c4777901e46b683b7c0445ecc533248375a2c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 18/53] fix: saved and distributed configuration files can be
 loaded again

---
 configfile.py     | 10 ++++++++++
 distribute_run.py |  3 ++-
 main.py           | 13 +++++++------
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/configfile.py b/configfile.py
index c846711..55180eb 100644
--- a/configfile.py
+++ b/configfile.py
@@ -198,6 +198,16 @@ class ConfigParser(configparser.ConfigParser):
             value = '[%s]' % (', '.join(funcs_names_list))
         return super().set(section=section, option=option, value=value)
 
+    @staticmethod
+    def param_to_string(value):
+        """Converts a parsed parameter's value to the string that is parsed back (by _cast_param_val) to this value."""
+        # lhs_type, see lhs_type_parser
+        if isinstance(value, dict):
+            return str(value['eval'])
+        if isinstance(value, (list, tuple)):
+            return json.dumps(value)
+        return str(value)
+
     def get_config(self):
         """Returns the parsed config dictionary."""
         return self._config
diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..40ae437 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -42,7 +42,8 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable,
+                                   ConfigParser.param_to_string(getattr(params, config_variable)))
         results_config_filename = os.path.splitext(configfile)
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index 8dbd70a..e4ebb93 100644
--- a/main.py
+++ b/main.py
@@ -69,10 +69,11 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
+    target_name = params.const
     if params.const == 'feig':
-        params.const = 'feig, %d' % params.i
+        target_name = 'feig, %d' % params.i
     if params.const == 'percolation':
-        params.const = 'percolation, %d' % params.i
+        target_name = 'percolation, %d' % params.i
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +83,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +93,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +109,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
@@ -176,7 +177,7 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable, ConfigParser.param_to_string(getattr(params, config_variable)))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From 7370f6defa0d9684e030f1fe58cbffc22b954dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 19/53] fix: joining hashtables doesn't overwrite an existing
 file after announcing it aborts

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From 14ccd71c0c1eed9bf3237e138db9d27b65d13dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 20/53] fix: the distributed configuration files are written to
 their directory wherever the original one is

---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index 40ae437..540b5dd 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -44,7 +44,7 @@ def main(split_num=4, configfile='config.ini'):
             else:
                 results_config.set('Setup', config_variable,
                                    ConfigParser.param_to_string(getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From 9105b3bc5e34110ae5423f2b2c009c0f600d7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 21/53] fix: ContFrac.is_result_valid can be evaluated

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..f8f33d6 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From 75f7c6795aa391f68db7236f3aaf05d38ed1ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 22/53] fix: the number of iterations for a required accuracy
 is evaluated for mpf convergence parameters

---
 basic_representation_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..7eb42b9 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+import mpmath
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(mpmath.ln(accuracy / power_base) / mpmath.ln(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From c98d4f546a6dac75a643e55de91a48986b568fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 23/53] fix: ContFrac.get_p_q returns the latest numerator and
 denominator and not the previous ones

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f8f33d6..cf1d1c0 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From f74b8497d5bf9297cd08d5c894cb3b92b6f4e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 24/53] fix: eval_contfrac of equal length lists is the
 documented b[0]/(a[0]+b[1]/...)

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index cf1d1c0..6eef277 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,7 +386,7 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
+        return b[0] / eval_contfrac(a, b[1:])
     elif len(a) == len(b) + 1:
         res = a[-1]
         a = a[:-1]
-- 
2.43.0


From 9e09d67ac4fd6caf44b3c1412eb527c6fae0db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 25/53] fix: the integer roots of linear and quadratic b
 polynomials are found

---
 enum_poly_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..c296712 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -161,9 +161,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
                 return False
             discrim **= 0.5
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
@@ -182,7 +182,8 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        return poly[:BasicEnumPolyParams._polynom_degree(poly)+1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 6c4d29cd48c9aef485eecb043a7a5e0fc758c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 26/53] fix: the length estimate of interlaced sparse
 enumerations isn't too short

---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index c296712..7797fce 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -242,8 +242,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
+                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From 6a266fed82c09585a58b9aa684d4274304f0a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 27/53] fix: the polynomials enumerator is recreated for a
 different class or special parameters

---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index fdd931b..f205f64 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -98,7 +98,8 @@ class MITM:
                different one.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        # the classes inherit from each other, isinstance can't tell whether they're different
+        if type(self.rhs_polys_enumer) is not ab_poly_class or ab_poly_special_params is not None:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From a499620d8f82ede278ada4d46f63fa4871120c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 28/53] fix: powers of 10 and above are grouped in the latex of
 rational functions

---
 lhs_evaluators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 753e622..210ccd6 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -417,10 +417,9 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
-            poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
             latex_exp = latex_exp_parts[0]
-- 
2.43.0


From 2e1f54984aab2011c5ff41e9528faaac5c17bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 29/53] fix: the exported csv tells the post function of each
 result

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index f205f64..a58d19b 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -475,7 +475,7 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
                                     str(postproc_res), str(lhs_res_obj.get_val())])
             # Saves the results
-- 
2.43.0


From 484138361fbdaf31e4e853f92726859489821fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 30/53] fix: a logging ContFrac has a result before its first
 iteration too

---
 basic_representation_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 7eb42b9..2f243ab 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -69,6 +69,9 @@ class BasicRecursiveConstRepresenter:
                 #     break
         if hasattr(self, 'finalize_iterations') and exec_finalize:
             params, state_mat = self.finalize_iterations(params, state_mat, num_of_iters)
+            if self._logging:
+                for p in params:
+                    self._params_log[p][-1] = params[p]
         if print_calc:
             print('\n', end='')
 
-- 
2.43.0


From f0cf5487b52405fbbb154448428ebf432384e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 31/53] fix: results aren't lost if another run was saved, or a
 minute passes, while saving them

---
 main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index e4ebb93..a80521b 100644
--- a/main.py
+++ b/main.py
@@ -162,8 +162,12 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    results_dir = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    # another run may have already been saved during the same minute
+    while os.path.exists(results_dir):
+        results_dir += '_'
+    os.mkdir(results_dir)
+    export_filename = os.path.join(results_dir, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From e25a0efebf873c3ce4feb2c19381533219424392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 32/53] fix: a search in a loaded hashtable seeks the
 configured constant

---
 main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.py b/main.py
index a80521b..776d7e2 100644
--- a/main.py
+++ b/main.py
@@ -92,6 +92,9 @@ def main(config_file='config.ini'):
                                    postproc_funcs_latex=POSTPROC_FUNCS_LATEX)
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
+        else:
+            # the hashtable may have been generated for another constant
+            mitm.target_generator, mitm.target_name = target_generator, target_name
     elif params.hashtable_file_operation == 'generate':
         mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 9ae5755c87be9761e31c04c603bf4780921dd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 33/53] fix: an expanded hashtable is saved as a new version,
 as documented, and not over the loaded one

---
 configfile.py | 17 +++++++++++------
 main.py       |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/configfile.py b/configfile.py
index 55180eb..99bf428 100644
--- a/configfile.py
+++ b/configfile.py
@@ -102,16 +102,21 @@ class ConfigParser(configparser.ConfigParser):
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', old_versions[-1])[0]
-            v = v.replace('_v', '')
-            if not v:
-                v = 0
-            v = int(v) + 1
-            filename = '%s_v%d.pkl' % (filename_base, v)
+            filename = self.next_hashtable_version(old_versions[-1])
         else:
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
 
+    @staticmethod
+    def next_hashtable_version(filename):
+        """Returns the filename of the version following the one of 'filename'."""
+        filename_base, v, _ = re.findall('(.*?)(_v[0-9]+)?(\\.pkl)$', filename)[0]
+        v = v.replace('_v', '')
+        if not v:
+            v = 0
+        v = int(v) + 1
+        return '%s_v%d.pkl' % (filename_base, v)
+
     def _gen_postproc_funcs_filter(self):
         """Converts the postproc functions to their indices in POSTPROC_FUNCS"""
         try:
diff --git a/main.py b/main.py
index 776d7e2..85947db 100644
--- a/main.py
+++ b/main.py
@@ -114,6 +114,9 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
+        if params.hashtable_file_operation == 'expand':
+            # the loaded version is kept
+            params.hashtable_file = ConfigParser.next_hashtable_version(params.hashtable_file)
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
         print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
-- 
2.43.0


From b3b860bac30e4318ba96b6c66f1df674bc85a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 34/53] fix: rational functions are equivalent only if equal up
 to sign and an added integer

---
 lhs_evaluators.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 210ccd6..dbc1de2 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -342,7 +342,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         ab = (a_poly, b_poly)
 
         Validates that both are RationalFuncEvaluator, with the same postproc_func or inverse (1/...) ones, and checks
-        if p1/q1 == p2/q2 up to a constant, and a1 == +-a2, b1 == b2"""
+        if p1/q1 == +-p2/q2 up to an added integer, and a1 == +-a2, b1 == b2"""
         ab1, ratio_func1_obj, post_func_ind1, convergence_info1 = params1
         ab2, ratio_func2_obj, post_func_ind2, convergence_info2 = params2
         # Make sure both LHSs are RationalFuncEvaluator instances
@@ -360,24 +360,23 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         ratio_func1_obj.canonalize_params()
         ratio_func2_obj.canonalize_params()
 
-        # find the reduced form, and check if p1/q1==p2/q2 in the reduced form up to a constant, and if b1==b2, a1==+-a2
-        numerator1_p = ratio_func1_obj.numerator_p_symbolic
+        # take the whole functions (with the added integer) in the reduced form
         denominator1_p = ratio_func1_obj.denominator_p_symbolic
-        # auto=False keeps the polynoial over Z instead of over Q
-        quotient1, rem1 = numerator1_p.div(denominator1_p, auto=False)
-        quotient1 -= quotient1(0)
-        numerator2_p = ratio_func2_obj.numerator_p_symbolic
+        numerator1_p = ratio_func1_obj.numerator_p_symbolic + denominator1_p * ratio_func1_obj.added_int
         denominator2_p = ratio_func2_obj.denominator_p_symbolic
+        numerator2_p = ratio_func2_obj.numerator_p_symbolic + denominator2_p * ratio_func2_obj.added_int
         if is_inverse:
             numerator2_p, denominator2_p = denominator2_p, numerator2_p
-        quotient2, rem2 = numerator2_p.div(denominator2_p, auto=False)
-        quotient2 -= quotient2(0)
-        # if ab1 == ab2 and f1/g1 = f2/g2 + C
+        # if ab1 == ab2 (up to the sign of a) and f1/g1 = +-f2/g2 + C, for an integer C
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
-                return True
+            for sign in [1, -1]:
+                difference_p = numerator1_p * denominator2_p - numerator2_p * denominator1_p * sign
+                # auto=False keeps the polynomial over Z instead of over Q
+                quotient, rem = difference_p.div(denominator1_p * denominator2_p, auto=False)
+                if rem.is_zero and quotient.degree() <= 0:
+                    return True
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
         # a2_ps, b2_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab2 ]
-- 
2.43.0


From 29f1d3b54f5a65c6293158a2af0172dc0bbef44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 35/53] fix: search states with refined rational functions can
 be loaded after saving

---
 lhs_evaluators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index dbc1de2..df5b520 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -275,6 +275,12 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
             raise TypeError('added_int has to be an integer')
         self._calc_val()
 
+    def __getstate__(self):
+        """Used by pickle for serializing. The symbolic polynomials are left out, as sympy can't unpickle constant ones.
+        They are recreated from the coefficients when needed."""
+        return { k: v for k, v in self.__dict__.items()
+                 if k not in ('_numerator_p_symbolic', '_denominator_p_symbolic') }
+
     @property
     def numerator_p_symbolic(self):
         if not hasattr(self, '_numerator_p_symbolic') or self._should_update_numerator_p_symbolic:
-- 
2.43.0


From fce4d811e850ff0699d811731624e147e7482321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 36/53] fix: a reinitialized rational function tells its new
 parameters

---
 lhs_evaluators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index df5b520..b2a87e3 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -267,6 +267,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
             params - (numerator_poly, denominator_poly, added_int) the added int is an integer to be added to the result
                      and the polynomials are of the format: [a_0, a_1, a_2, ...] <=> a_0 + a_1*x + a_2*x^2 + ..."""
         # WARNING: as far as I see, only the first two arguments will be fed to params from the config file. Bug?
+        self.params = params
         self.numerator_p, self.denominator_p, self.added_int = params
         self._should_update_numerator_p_symbolic = True
         self._should_update_denominator_p_symbolic = True
-- 
2.43.0


From bcfbd6af5db1becdc255ce1a16aaac9665707fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 37/53] fix: a finite continued fraction is dropped by the
 convergence filter instead of ending the run

---
 enum_params.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index a58d19b..0679e8e 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -352,7 +352,13 @@ class MITM:
         for cf_params in progressbar.progressbar(params_list):
             ab, lhs_res_obj, post_func_ind, convergence_info = cf_params
             cont_frac = cont_fracs.ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
-            if cont_frac.is_convergence_fast():
+            try:
+                is_fast = cont_frac.is_convergence_fast()
+            except cont_fracs.ZeroB:
+                # a finite continued fraction: it doesn't converge at all
+                print('ZeroB exception', ab)
+                continue
+            if is_fast:
                 filtered_params_list.append(cf_params)
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
-- 
2.43.0


From 2d670fe9c9da5d2776a64f4e1ae1c58072ec9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 38/53] fix: very large and very small values neither end a run
 nor exhaust the memory

---
 decimal_hashtable.py | 17 +++++++++++++++--
 enum_params.py       | 14 +++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b345540..31470ed 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -7,6 +7,20 @@
 import mpmath
 from mpmath import mpf as dec
 
+
+def fixed_point_str(d, length):
+    """The fixed-point notation of d, in all the digits of the current precision. Of very small and very large numbers
+    only (at least) the first 'length' characters are written, not all of their zeros."""
+    if mpmath.isinf(d) or mpmath.isnan(d):
+        return str(d)
+    if 0 < abs(d) < dec(10) ** -length:
+        return ('-' if d < 0 else '') + '0.' + '0' * length
+    if abs(d) >= dec(10) ** (length + mpmath.mp.dps):
+        mantissa = mpmath.nstr(d, mpmath.mp.dps, strip_zeros=False, min_fixed=0, max_fixed=0).split('e')[0]
+        return mantissa.replace('.', '').ljust(length + 1, '0')
+    return mpmath.nstr(d, mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+
+
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
 class DecimalHashTable(dict):
@@ -32,8 +46,7 @@ class DecimalHashTable(dict):
                 return [], key
             key_str = key
         else:
-            # all the digits of the current precision, in a fixed-point notation
-            key_str = mpmath.nstr(key, mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+            key_str = fixed_point_str(key, max(self.accuracy_history + [self.accuracy]) + 1)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/enum_params.py b/enum_params.py
index 0679e8e..9e360b6 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -4,9 +4,9 @@ finding 'clicks', filter unique ones and ones that converge fast enough and then
 with the continued fractions up to an arbitrary decimal precision."""
 
 import cont_fracs
-from decimal_hashtable import DecimalHashTable
+from decimal_hashtable import DecimalHashTable, fixed_point_str
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal, mp, nstr, inf, nint
+from mpmath import mpf as dec, isnormal, floor, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -193,7 +193,7 @@ class MITM:
                     continue
                 k = abs(k)
                 if self.trunc_integer:
-                    k -= int(k)
+                    k -= floor(k)
                 if ((pa, pb), post_func_ind) not in self.dec_hashtable.get(k, []):
                     self.dec_hashtable.setdefault(k, []).append(((pa, pb), post_func_ind))
         print()
@@ -215,7 +215,7 @@ class MITM:
         for enum_res_obj in progressbar.progressbar(lhs_generator, max_value=len(lhs_enumerator)):
             r = abs(enum_res_obj.get_val())
             if self.trunc_integer:
-                r -= int(r)
+                r -= floor(r)
             if r in self.dec_hashtable:
                 # if the lhs is degenerate (i.e. (3x+12x^4) / (x+4x^4)) then skip.
                 # this is checked here, because this check may require a major additional runtime, and checking it only
@@ -287,8 +287,8 @@ class MITM:
             signed_lhs = lhs_res_obj.get_val()
             lhs = abs(signed_lhs)
             if self.trunc_integer:
-                rhs -= int(rhs)
-                lhs -= int(lhs)
+                rhs -= floor(rhs)
+                lhs -= floor(lhs)
             if self.compare_dec_with_accuracy(rhs, lhs, accuracy):
                 if print_clicks:
                     print(ab)
@@ -513,6 +513,6 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        d1_str, d2_str = [ nstr(d, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf) for d in (d1, d2) ]
+        d1_str, d2_str = [ fixed_point_str(d, accuracy + 1) for d in (d1, d2) ]
         return d1_str[:accuracy+1] == d2_str[:accuracy+1]
 
-- 
2.43.0


From 2e88a2726cd56ae678f055e76018237d632af4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 39/53] fix: the canonical form of a rational function is exact
 for large coefficients

---
 lhs_evaluators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index b2a87e3..27cc784 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -440,7 +440,6 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         with the free coefficient k_0 set to k_0 - ceil(k_0)."""
         if self._is_canonalized:
             return
-        from math import ceil
         numerator_p, denominator_p, added_int = self.params
         gcd = self.numerator_p_symbolic.gcd(self.denominator_p_symbolic)
         numerator_p_symbolic = self.numerator_p_symbolic.div(gcd, auto=False)[0]
@@ -448,8 +447,10 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
 
         quotient, remainder = numerator_p_symbolic.div(denominator_p_symbolic)
         # params[2] = added int
-        self.added_int += ceil(quotient.all_coeffs()[-1])
-        quotient -= ceil(quotient.all_coeffs()[-1])
+        # math.ceil would go through a float, and isn't exact for large coefficients
+        quotient_int = int(sympy.ceiling(quotient.all_coeffs()[-1]))
+        self.added_int += quotient_int
+        quotient -= quotient_int
         # params[0] = numerator , params[1] = denominator
         self.old_numerator_denominator_p = (self.numerator_p, self.denominator_p)
         self.numerator_p = sympoly2poly(quotient * denominator_p_symbolic + remainder)
-- 
2.43.0


From 0bbba372961de599f2a6a1d0918568132be9a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 40/53] fix: entries that two joined tables share aren't
 duplicated

---
 decimal_hashtable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 31470ed..5c20b6f 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -116,7 +116,9 @@ class DecimalHashTable(dict):
                         orig_items = [orig_items]
                     if not isinstance(appended_items, list):
                         appended_items = [appended_items]
-                    super().__setitem__(k, orig_items + appended_items)
+                    # different ranges may give the same polynomials (e.g. sparse ones)
+                    new_items = [ item for item in appended_items if item not in orig_items ]
+                    super().__setitem__(k, orig_items + new_items)
                 except TypeError:
                     type_orig = str(type(super().__getitem__(k)))
                     type_appended = str(type(super(DecimalHashTable, appended_dict).__getitem__(k)))
-- 
2.43.0


From bb2c2cb05422a71b5b7b28fb0a89ea413b18e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 41/53] fix: a progress bar of something of unknown length is
 refused with the intended error

---
 utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/utils.py b/utils.py
index 785abe4..764c86a 100644
--- a/utils.py
+++ b/utils.py
@@ -88,16 +88,12 @@ class ProgressBar(enumerate):
                           iteration takes longer then update_freq. Default: 1."""
         should_enum = kwargs.pop('enumerate', False)
         update_frequency = kwargs.pop('update_freq', 1)
-        try:
-            estimated_length = kwargs.pop('est_len')
-        except KeyError as exc:
-            estimated_length = None
+        estimated_length = kwargs.pop('est_len', None)
 
         self = super().__new__(cls, *args, **kwargs)
         if estimated_length is None:
             if not hasattr(args[0], '__len__'):
-                raise ValueError("est_len=... must be supplied to ProgressBar(itr) if itr.__len__ doesn't exist.") \
-                    from exc
+                raise ValueError("est_len=... must be supplied to ProgressBar(itr) if itr.__len__ doesn't exist.")
             estimated_length = len(args[0])
 
         self._should_enum = should_enum
-- 
2.43.0


From 6cc20c005a2dff085503700296fcc5f594087e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 42/53] fix: a progress bar can wrap an empty sequence

---
 utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.py b/utils.py
index 764c86a..fb3c641 100644
--- a/utils.py
+++ b/utils.py
@@ -114,6 +114,8 @@ class ProgressBar(enumerate):
         try:
             i, v = super().__next__()
         except StopIteration:
+            if not self._time_stopper.is_started():
+                self._time_stopper.start_measure()
             time_passed_formatted = self._secs_to_days_hrs_mins_secs(self._time_stopper.get_total_runtime())
             print(self._progressbar_template.format(100, '00', '00', '00', '00', *time_passed_formatted), end='')
             raise
-- 
2.43.0


From 765ad3949d200770f97883b40484f37badb68cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 43/53] fix: a table name with .pkl or a version inside is
 completed and versioned as any other

---
 configfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfile.py b/configfile.py
index 99bf428..fedf584 100644
--- a/configfile.py
+++ b/configfile.py
@@ -85,11 +85,11 @@ class ConfigParser(configparser.ConfigParser):
             return
 
         # validate filename's extension .pkl is specified, or add it
-        if not re.match('(.*?)(\\.pkl)', filename):
+        if not re.match('(.*?)(\\.pkl)$', filename):
             filename += '.pkl'
 
         # if filename is given without a version indication, set a default version v1
-        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)', filename):
+        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)$', filename):
             filename = '%s_v1.pkl' % filename[:-len('.pkl')]
 
         # find the oldest version
-- 
2.43.0


From 4ff3d02c364eee79c5fa05b4066c0daf23046b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 44/53] fix: the exported csv tells the type of the LHS

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 9e360b6..70dce65 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -473,7 +473,7 @@ class MITM:
             for ab, lhs_res_obj, post_func_ind, convergence_info in self.filtered_params:
                 pa, pb = ab
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
-                lhs_type =str(lhs_res_obj)
+                lhs_type = str(type(lhs_res_obj))
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
                 cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
                                                                                         post_func_ind,
-- 
2.43.0


From 7f51eba5d2a173b6da71b55eebab8ce7b8b8fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 45/53] fix: printing surprising results doesn't fail if their
 convergence can't be estimated

---
 enum_params.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 70dce65..c45c3fb 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -363,8 +363,12 @@ class MITM:
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
                 print(cf_params)
-                cont_frac.estimate_approach_type_and_params()
-                print(cont_frac.get_approach_type_and_params())
+                try:
+                    cont_frac.estimate_approach_type_and_params()
+                    print(cont_frac.get_approach_type_and_params())
+                except Exception as e:
+                    # e.g. one that takes turns between values
+                    print('The convergence type can not be estimated:', e)
         self.filtered_params = filtered_params_list
 
     def filter_clicks_by_approach_type(self, whitelist=['exp', 'super_exp', 'fast'], blacklist=None):     # , filter_uniq_list=True):
-- 
2.43.0


From 4c3b0ee3e863e03785c458a1161f33af24a4bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 46/53] fix: rounding errors aren't taken for convergence when
 its type is estimated

---
 cont_fracs.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 6eef277..4b70d8a 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -248,8 +248,6 @@ False if it's sub exponential (e.g. linear)."""
         # See the "convergence_analysis.pdf" file for further details about theory behind this function.
         # It evaluates and categorizes by computing linear fitting to the error/iterations plot. Regular or logarithmic.
 
-        effective_zero = dec(10)**-mp.dps
-
         if iters_step < 6:
             ValueError('iters_step should be at least 4')
 
@@ -294,6 +292,9 @@ False if it's sub exponential (e.g. linear)."""
             delta_odd.append((i + 1, abs(res_3 - res_1)))
             delta_odd.append((i + 3, abs(res_5 - res_3)))
 
+        # differences below the rounding errors of the results (which grow with the results) tell nothing
+        effective_zero = dec(10)**(3 - mp.dps) * max(1, abs(res_5))
+
         pair_diminish = False
         odd_diminish = False
         if len(delta_pair) > 3 and all([ abs(p[1]) < effective_zero  for p in delta_pair[-3:] ]):
@@ -310,10 +311,12 @@ False if it's sub exponential (e.g. linear)."""
         #     return (approach_type, approach_parameter)
 
         pair_ratio = [ (delta_pair[i][0], delta_pair[i][1] / delta_pair[i+1][1])
-                       for i in range(0, len(delta_pair), 2) if delta_pair[i][1] != 0 and delta_pair[i+1][1] != 0 and
+                       for i in range(0, len(delta_pair), 2) if delta_pair[i][1] > effective_zero and
+                       delta_pair[i+1][1] > effective_zero and
                        not isnan(delta_pair[i][1]) and not isnan(delta_pair[i+1][1]) ]
         odd_ratio = [ (delta_odd[i][0], delta_odd[i][1] / delta_odd[i+1][1])
-                      for i in range(0, len(delta_odd), 2) if delta_odd[i][1] != 0 and delta_odd[i+1][1] != 0 and
+                      for i in range(0, len(delta_odd), 2) if delta_odd[i][1] > effective_zero and
+                      delta_odd[i+1][1] > effective_zero and
                       not isnan(delta_odd[i][1]) and not isnan(delta_odd[i+1][1]) ]
 
         if len(pair_ratio) < 6:
@@ -346,11 +349,11 @@ False if it's sub exponential (e.g. linear)."""
                 approach_parameter = min(approach_parameter_pair, approach_parameter_odd)
                 approach_coeff_pair_list = [ abs(delta_pair[i][1] * approach_parameter**(delta_pair[i][0]) /
                                         (1 - approach_parameter**(-2))) for i in range(0, len(delta_pair))
-                                         if delta_pair[i][1] != 0 and not isnan(delta_pair[i][1]) ]
+                                         if delta_pair[i][1] > effective_zero and not isnan(delta_pair[i][1]) ]
                 approach_coeff_pair = sum(approach_coeff_pair_list) / len(approach_coeff_pair_list)
                 approach_coeff_odd_list = [ abs(delta_odd[i][1] * approach_parameter**(delta_odd[i][0]) /
                                        (1 - approach_parameter**(-2))) for i in range(0, len(delta_odd))
-                                       if delta_odd[i][1] != 0 and not isnan(delta_odd[i][1]) ]
+                                       if delta_odd[i][1] > effective_zero and not isnan(delta_odd[i][1]) ]
                 approach_coeff_odd = sum(approach_coeff_odd_list) / len(approach_coeff_odd_list)
                 approach_coeff = min(approach_coeff_pair, approach_coeff_odd)
                 approach_parameter = (approach_parameter, approach_coeff)
-- 
2.43.0


From 6ac266bbde0c63c85718a0494a71c6e5422d79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 47/53] fix: the convergence of very fast continued fractions
 is estimated from their own iterations

---
 cont_fracs.py | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 4b70d8a..76fc675 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -257,36 +257,13 @@ False if it's sub exponential (e.g. linear)."""
         delta_pair = []
         delta_odd = []
         self.gen_iterations(initial_cutoff)
-        res_0 = self.get_result()
-        self.add_iterations(1)
-        res_1 = self.get_result()
-        self.add_iterations(1)
-        res_2 = self.get_result()
-        self.add_iterations(1)
-        res_3 = self.get_result()
-        self.add_iterations(1)
-        res_4 = self.get_result()
-        self.add_iterations(1)
-        res_5 = self.get_result()
-        delta_pair.append((initial_cutoff, abs(res_2 - res_0)))
-        delta_pair.append((initial_cutoff + 2, abs(res_4 - res_2)))
-        delta_odd.append((initial_cutoff + 1, abs(res_3 - res_1)))
-        delta_odd.append((initial_cutoff + 3, abs(res_5 - res_3)))
-
-        for i in range(initial_cutoff+iters_step, iters+1, iters_step):
-            # -3 for the iterations of res_1, res_2, res_3 that were already executed
-            self.add_iterations(iters_step - 5)
-            res_0 = self.get_result()
-            self.add_iterations(1)
-            res_1 = self.get_result()
-            self.add_iterations(1)
-            res_2 = self.get_result()
-            self.add_iterations(1)
-            res_3 = self.get_result()
-            self.add_iterations(1)
-            res_4 = self.get_result()
-            self.add_iterations(1)
-            res_5 = self.get_result()
+        results = [self.get_result()]
+        for i in range(initial_cutoff, iters+1, iters_step):
+            # subsequent samples share results if iters_step is smaller than 5
+            while len(results) < i - initial_cutoff + 6:
+                self.add_iterations(1)
+                results.append(self.get_result())
+            res_0, res_1, res_2, res_3, res_4, res_5 = results[i - initial_cutoff:i - initial_cutoff + 6]
             delta_pair.append((i, abs(res_2 - res_0)))
             delta_pair.append((i + 2, abs(res_4 - res_2)))
             delta_odd.append((i + 1, abs(res_3 - res_1)))
-- 
2.43.0


From 3bc0bb9fb6a9b8898b543af120e9ff399ec2b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 48/53] fix: the coefficient of the convergence is considered
 in the number of iterations for an accuracy

---
 basic_representation_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 2f243ab..682aa5b 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -142,7 +142,9 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs(mpmath.ln(accuracy / power_base) / mpmath.ln(power_base)))
+            # the error is about coeff * power_base**(-number of iterations)
+            required_num_of_iters = math.ceil(abs(mpmath.ln(accuracy / max(power_base, coeff)) /
+                                                  mpmath.ln(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From ff79babd9300c5be0800db44fb2bc61d32a03b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 49/53] fix: cancelling the refinement while a left-hand side
 is adjusted lost the results

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index c45c3fb..7d90e29 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -302,7 +302,7 @@ class MITM:
                     signed_lhs *= -1
                 try:
                     lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
-                except:
+                except Exception:
                     raise RuntimeError('signed_rhs=%s, signed_lhs=%s, nint(signed_rhs-signed_lhs)=%s' %
                                        (signed_rhs, signed_lhs, nint(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
-- 
2.43.0


From 0c0d0379c03439ce1c790e64752dad9a516b77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 50/53] fix: large b polynomials were taken to have integer
 roots, as floats round

---
 enum_poly_params.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 7797fce..18cb27c 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -1,12 +1,12 @@
 """Implementation of enumeration over different polynomials types, for the a, b polynomials of a continued fractions."""
 
 import itertools
+import math
 from functools import wraps
 import cont_fracs
 ## # from decimal import Decimal as dec
 ## # import decimal
-from mpmath import mpf as dec, isint
-from mpmath import isint
+from mpmath import mpf as dec
 import mpmath
 from scipy.special import binom
 
@@ -153,17 +153,20 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
         elif len(poly) == 1:
             return False
         ## # elif len(poly) == 2 and (poly[0] / poly[1]).is_integer() and (poly[0] > 0) != (poly[1] > 0):
-        elif len(poly) == 2 and isint(poly[0] / poly[1]) and (poly[0] > 0) != (poly[1] > 0):
+        elif len(poly) == 2 and poly[0] % poly[1] == 0 and (poly[0] > 0) != (poly[1] > 0):
             return True
         elif len(poly) == 3:
             discrim = (poly[1]**2-4*poly[0]*poly[2])
             if discrim < 0:
                 return False
-            discrim **= 0.5
+            # floats aren't exact for large coefficients
+            discrim_root = math.isqrt(discrim)
+            if discrim_root**2 != discrim:
+                return False
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[2])):
+            if (discrim_root - poly[1]) % (2*poly[2]) == 0:
                 return True
-            if isint((-discrim - poly[1])/(2*poly[2])):
+            if (-discrim_root - poly[1]) % (2*poly[2]) == 0:
                 return True
 
         return False
-- 
2.43.0


From 64c636d185e16958931360c87a72f61365bbd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 51/53] fix: integer roots of high multiplicity are filtered
 too

---
 enum_params.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 7d90e29..b3c2b7a 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -335,9 +335,12 @@ class MITM:
         valid_params = []
         for params in self.filtered_params:
             b = params[0][1]
-            roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
-                               for r in roots ]
+            roots = itertools.chain([ (b_p, r) for b_p in b for r in numpy.roots(b_p[::-1]) ])
+            # multiple roots (of order 5 and up) are found less accurately, the nearest integer is tried instead
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001)) or
+                               (r.real > 0.5 and
+                                MathOperations.subs_in_polynom(b_p, int(r.real.round())) == 0)
+                               for b_p, r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
         self.filtered_params = valid_params
-- 
2.43.0


From d0662e7f2dd6b63c9d6cb56cbcb096d8ad8b50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 52/53] fix: zero is stored under as many digits as any other
 key

---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 5c20b6f..78c03ec 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -13,7 +13,7 @@ def fixed_point_str(d, length):
     only (at least) the first 'length' characters are written, not all of their zeros."""
     if mpmath.isinf(d) or mpmath.isnan(d):
         return str(d)
-    if 0 < abs(d) < dec(10) ** -length:
+    if abs(d) < dec(10) ** -length:
         return ('-' if d < 0 else '') + '0.' + '0' * length
     if abs(d) >= dec(10) ** (length + mpmath.mp.dps):
         mantissa = mpmath.nstr(d, mpmath.mp.dps, strip_zeros=False, min_fixed=0, max_fixed=0).split('e')[0]
-- 
2.43.0


From 73cb22399cd512d17e3bae317155f2dbffbf0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 53/53] fix: items of joined tables aren't hidden by older,
 shorter keys

---
 decimal_hashtable.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 78c03ec..928d545 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -125,4 +125,20 @@ class DecimalHashTable(dict):
                     print('types are: original dict: %s, appended dict: %s' % (type_orig, type_appended))
                     raise
             else:
-                super().__setitem__(k, super(DecimalHashTable, appended_dict).__getitem__(k))
\ No newline at end of file
+                super().__setitem__(k, super(DecimalHashTable, appended_dict).__getitem__(k))
+        self._reveal_hidden_items()
+
+    def _reveal_hidden_items(self):
+        """Joins items whose keys begin with an older, shorter key (from another table) to the items of this key, as only
+        these are found (see __getitem__)."""
+        for k in list(super().keys()):
+            old_keys, _ = self._manipulate_key(k)
+            found_key = next((old_k for old_k in old_keys if old_k in super(DecimalHashTable, self).keys()), k)
+            if found_key == k:
+                continue
+            items, found_items = super().pop(k), super().__getitem__(found_key)
+            if not isinstance(items, list):
+                items = [items]
+            if not isinstance(found_items, list):
+                found_items = [found_items]
+            super().__setitem__(found_key, found_items + [ item for item in items if item not in found_items ])
\ No newline at end of file
-- 
2.43.0

