From 23844b8385732a272217e03949bb018a7ac6a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 01/45] fix: ContFrac.get_p_q returns the latest convergent,
 not the previous one

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..3fcd617 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -151,7 +151,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def get_p_q(self):
         """Returns the latest numerator and denominator of the representation of the partial contfrac = p/q"""
         p_vec, q_vec = self.iter_matrices[-1]
-        return p_vec[-1], q_vec[-1]
+        return p_vec[0], q_vec[0]
 
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
-- 
2.43.0


From ce32ab2857ce20f0859471a933bbd3e3ef194543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 02/45] fix: eval_contfrac evaluates b0/(a0+b1/(...)) for lists
 of equal length, as documented

---
 cont_fracs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 3fcd617..28659c7 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -386,8 +386,9 @@ def eval_contfrac(a, b=None):
     if b is None:
         b = [1] * (len(a)-1)
     if len(a) == len(b):
-        res = 1
-    elif len(a) == len(b) + 1:
+        # no additive constant
+        a = [0] + list(a)
+    if len(a) == len(b) + 1:
         res = a[-1]
         a = a[:-1]
     else:
-- 
2.43.0


From fde96dd3e9866c8ca9b835b4b994cfc4a37f1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 03/45] fix: ContFrac.is_result_valid used mpmath without
 importing it

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 28659c7..9c3051b 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
-- 
2.43.0


From 2bf1ee55388b43fadd8e02fbd856a304d417441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 04/45] fix: finalized result is kept when logging and no
 iteration was executed

---
 basic_representation_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..283ae86 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -75,6 +75,10 @@ class BasicRecursiveConstRepresenter:
             for p in params:
                 self._params_log[p] = [params[p]]
             self.iter_matrices = [state_mat]
+        else:
+            # the latest log entry holds the finalized parameters (also if no iteration was executed)
+            for p in params:
+                self._params_log[p][-1] = params[p]
         self.num_of_executed_iters += num_of_iters
 
     def get_num_of_executed_iters(self):
-- 
2.43.0


From c3957e221110bba773487307f571b675e8726143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 05/45] fix: gen_iterations called ln() on mpf numbers, which
 have no such method

---
 basic_representation_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 283ae86..706f8e9 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+from mpmath import log
 
 
 class BasicRecursiveConstRepresenter:
@@ -142,7 +143,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(log(accuracy / power_base) / log(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
-- 
2.43.0


From fa020744132a26eef7194867205d6e966a68024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 06/45] fix: gcd keeps the sign of its second argument also
 when it is the bigger one

---
 utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils.py b/utils.py
index 785abe4..d2cff96 100644
--- a/utils.py
+++ b/utils.py
@@ -60,8 +60,6 @@ class MathOperations:
         b is divided by it, the result comes out positive).
         (Implemented here to be used with Decimal/other types that math doesn't support.)
         """
-        if b > a:
-            return cls.gcd(b, a)
         while b:
             a, b = b, a % b
         return a
-- 
2.43.0


From c3ac149f06719ec616f7a94e40de9eee93723d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 07/45] fix: _factor_out_polynom keeps the coefficients behind
 an inner zero

---
 enum_poly_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..545ccfa 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -182,7 +182,8 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        return list(itertools.dropwhile(lambda x: x == 0, poly[::-1]))[::-1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 5685efc35125b6896842faba0aea8a0eb45eee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 08/45] fix: integer roots of a quadratic are found with its
 leading coefficient

---
 enum_poly_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 545ccfa..df7763d 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -161,9 +161,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
                 return False
             discrim **= 0.5
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
-- 
2.43.0


From 8cbd0c14b452407d08966ad3d54c23852df54738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 09/45] fix: estimated length of sparse enumeration takes all
 interlace polynomials into account

---
 enum_poly_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index df7763d..1f3eb71 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -242,8 +242,9 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
+        # (the positions are chosen independently for each of the interlace polynomials)
+        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
+                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From c27fa87515b6f4fc76f88d172811f6f7361b36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 10/45] fix: reinitialize starts over, so that add_iterations
 does not go on with the old polynomials

---
 basic_representation_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 706f8e9..db95b6f 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -38,6 +38,11 @@ class BasicRecursiveConstRepresenter:
         if first_iter_matrix is not None:
             self._first_iter_matrix = first_iter_matrix
 
+        # Back to 0 iterations. The results of the old parameters are obsolete.
+        self._params_log = {p : [self._params[p]] for p in self._params}
+        self.num_of_executed_iters = 0
+        self.iter_matrices = [self._first_iter_matrix]
+
     def gen_iterations(self, num_of_iters, iteration_algorithm, exec_finalize=True, print_calc=False):
         """Resets the current state to 0 iterations and generates 'num_of_iters' iterations FROM SCRATCH,
         using 'iteration_algorithm' method for each iteration.
-- 
2.43.0


From 427c7b8548dbabf46a953e712a3d5a746517bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 11/45] fix: hash table keys were made with to_eng_string,
 which mpf numbers do not have

---
 decimal_hashtable.py | 3 ++-
 utils.py             | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..65d66e0 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -5,6 +5,7 @@
 
 # from decimal import Decimal as dec
 from mpmath import mpf as dec
+from utils import dec2str
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
@@ -28,7 +29,7 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            key_str = dec2str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/utils.py b/utils.py
index d2cff96..24defc1 100644
--- a/utils.py
+++ b/utils.py
@@ -3,6 +3,7 @@
 import time
 import sys
 from itertools import zip_longest
+import mpmath
 
 class MeasureRuntime():
     """"Stopper" class for timing execution. Example:
@@ -167,6 +168,13 @@ class ProgressBar(enumerate):
         return days, hours, minutes, seconds
 
 
+def dec2str(x):
+    """Converts an mpf to a fixed point string (never an exponent) with all the digits of the working precision.
+    E.g. 0.00012 --> '0.00012000...'"""
+    s = mpmath.nstr(x, mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+    return s if x else s.ljust(mpmath.mp.dps + 1, '0')
+
+
 def grouper(iterable, n, fillvalue=None):
     "Collect data into fixed-length chunks or blocks"
     # grouper('ABCDEFG', 3, 'x') --> ABC DEF Gxx"
-- 
2.43.0


From e740a1a88eddf916c1c4a6d0c86fc4dcda615be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 12/45] fix: deleting an entry of the current accuracy from the
 hash table only read it

---
 decimal_hashtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 65d66e0..d1cc441 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -52,7 +52,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
-- 
2.43.0


From ac7b603d51abe8edc248cdd5c75d8219d9bd42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 13/45] fix: get and setdefault of the hash table did not
 convert the key

---
 decimal_hashtable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index d1cc441..6cd5365 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -61,6 +61,14 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From f8716d7ef81690a353ec4977647835ee5e82a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 14/45] fix: the 'parameters' key was truncated in hash tables
 of a low accuracy

---
 decimal_hashtable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 6cd5365..cfe4a25 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -27,6 +27,9 @@ class DecimalHashTable(dict):
         if not isinstance(key, dec) and not isinstance(key, str):
             raise TypeError('Only Decimal is supported')
         if isinstance(key, str):
+            # textual keys (e.g. 'parameters') are not numbers, and are kept as they are
+            if key.isalpha():
+                return [], key
             key_str = key
         else:
             key_str = dec2str(key)
-- 
2.43.0


From b562973fd6faee009fc03afb44a2c5843bee38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 15/45] fix: comparison of clicks used to_eng_string, which mpf
 numbers do not have

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 43cfc37..712e533 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,7 @@ import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
-from utils import MathOperations, grouper
+from utils import MathOperations, dec2str, grouper
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
 # converts #
@@ -505,5 +505,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec2str(d1)[:accuracy+1] == dec2str(d2)[:accuracy+1]
 
-- 
2.43.0


From 3e51b3801be1ed9f170c2b6660a46418e1fc826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 16/45] fix: csv export used to_eng_string, which mpf numbers
 do not have

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 712e533..242d0f7 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    str(postproc_res), str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
-- 
2.43.0


From 63df4b82cad4e45b6ea7c3c6fc97f23fade65780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 17/45] fix: refined clicks were off by one when the difference
 was slightly below an integer

---
 enum_params.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 242d0f7..3b1bf36 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -299,10 +299,11 @@ class MITM:
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
                 try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
+                    # the difference is an integer up to the accuracy, possibly slightly below it
+                    lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 except:
-                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
-                                       (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
+                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, nint(signed_rhs-signed_lhs)=%s' %
+                                       (signed_rhs, signed_lhs, nint(signed_rhs-signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
                 # p' = p/gcd(p, q)  ,  q' = q/gcd(p, q)
                 lhs_res_obj.canonalize_params()
-- 
2.43.0


From 72f3f59c98786adebd78fc7b869bbc419c68286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 18/45] fix: roots far below the nearest integer were taken for
 integer roots

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 3b1bf36..36a3519 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -335,7 +335,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From f6ea88d5918af2cba6e0068647e50546c4d2bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 19/45] fix: rational left-hand sides used is_normal, which mpf
 numbers do not have

---
 lhs_evaluators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..bef6941 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,6 +1,6 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
-- 
2.43.0


From aa34b49f47900785fdf7d3ab399d1cb0ff3ae089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 20/45] fix: printing a left-hand side used to_eng_string,
 which mpf numbers do not have

---
 lhs_evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index bef6941..753e622 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), str(self.val))
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From c01fc10fce2b56587d2b2529a2de5255c69c889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 21/45] fix: rational results with different denominators were
 declared equivalent

---
 lhs_evaluators.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 753e622..e7cf4eb 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -363,20 +363,18 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         # find the reduced form, and check if p1/q1==p2/q2 in the reduced form up to a constant, and if b1==b2, a1==+-a2
         numerator1_p = ratio_func1_obj.numerator_p_symbolic
         denominator1_p = ratio_func1_obj.denominator_p_symbolic
-        # auto=False keeps the polynoial over Z instead of over Q
-        quotient1, rem1 = numerator1_p.div(denominator1_p, auto=False)
-        quotient1 -= quotient1(0)
         numerator2_p = ratio_func2_obj.numerator_p_symbolic
         denominator2_p = ratio_func2_obj.denominator_p_symbolic
         if is_inverse:
             numerator2_p, denominator2_p = denominator2_p, numerator2_p
-        quotient2, rem2 = numerator2_p.div(denominator2_p, auto=False)
-        quotient2 -= quotient2(0)
+        # f1/g1 - f2/g2 = quotient + remainder/(g1*g2)
+        quotient, remainder = (numerator1_p * denominator2_p - numerator2_p * denominator1_p).div(
+            denominator1_p * denominator2_p)
         # if ab1 == ab2 and f1/g1 = f2/g2 + C
         pa1, pb1 = ab1
         pa2, pb2 = ab2
         if pb1 == pb2 and (pa1 == pa2 or pa1 == tuple(( tuple(( -k for k in p )) for p in pa2 ))):
-            if quotient1 == quotient2 and rem1 == rem2:
+            if quotient.is_ground and remainder.is_zero:
                 return True
         return False
         # a1_ps, b1_ps = [ [ poly2sympoly(list(k)) for k in cf_polys ] for cf_polys in ab1 ]
-- 
2.43.0


From 6bfe446080636ba9efd90f64a2f33a1500998904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 22/45] fix: trigonometric postproc functions used undefined
 functions

---
 postprocfuncs.py | 59 ++++++++++--------------------------------------
 1 file changed, 12 insertions(+), 47 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..8c19148 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,59 +1,24 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+import mpmath
+from mpmath import mpf as dec
 
 def dec_cos(x):
-    """Return the cosine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
-    >>> print(cos(0.5))
-    0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
-
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+    """Return the cosine of x as measured in radians."""
+    return mpmath.cos(x)
 
 def dec_sin(x):
-    """Return the sine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
+    """Return the sine of x as measured in radians."""
+    return mpmath.sin(x)
 
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
-    >>> print(sin(0.5))
-    0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
+def dec_tan(x):
+    """Return the tangent of x as measured in radians."""
+    return mpmath.sin(x) / mpmath.cos(x)
 
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+def dec_cot(x):
+    """Return the cotangent of x as measured in radians. Infinity for x = 0."""
+    return safe_inverse(dec_tan(x))
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-- 
2.43.0


From 4fc29faf3aac15eb96af6ce925fb2c8a2deb1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 23/45] fix: safe_inverse used is_zero, which mpf numbers do
 not have

---
 postprocfuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 8c19148..d873386 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -22,7 +22,7 @@ def dec_cot(x):
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
-- 
2.43.0


From 4d854e26c15ae18021833f2b244ac80c9bfc52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 24/45] fix: exp and ln postproc functions called methods that
 mpf numbers do not have

---
 postprocfuncs.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index d873386..03e88c7 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -20,6 +20,16 @@ def dec_cot(x):
     """Return the cotangent of x as measured in radians. Infinity for x = 0."""
     return safe_inverse(dec_tan(x))
 
+def dec_exp(x):
+    """Return e**x."""
+    return mpmath.exp(x)
+
+def dec_ln(x):
+    """Return the natural logarithm of x if x > 0, -infinity for x = 0, otherwise NaN."""
+    if x < 0:
+        return dec('NaN')
+    return mpmath.log(x)
+
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
     if x == 0:
@@ -57,10 +67,10 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -99,10 +109,10 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 81143463304976b12812df378f5dffa55a241352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 25/45] fix: latex of sqrt, exp and ln applies the function to
 the continued fraction

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index 03e88c7..e631b06 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -99,8 +99,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sqrt{{ {0} }} }}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -109,9 +109,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From bec4a12c94a34c82bbb76c2319bb109f111ca95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 26/45] fix: the documented default values of optional config
 parameters were overwritten

The dictionary with the defaults was replaced by an empty one before reading the
file, so that omitted optional parameters were set to None.
---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..d9f5329 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From 367b80c7f153dde026217bacad547e9691aea1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 27/45] fix: newest version of a hash table was found by text
 order and also in tables of other names

v10 was taken to be older than v9, so that generating wrote over the existing v10,
and names were matched as an unanchored regular expression.
---
 configfile.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/configfile.py b/configfile.py
index d9f5329..1b9492c 100644
--- a/configfile.py
+++ b/configfile.py
@@ -94,18 +94,16 @@ class ConfigParser(configparser.ConfigParser):
 
         # find the oldest version
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
-        old_versions.sort()
+        # versions are of the exact same base name, and are ordered by their number (v9 < v10). No suffix counts as v0
+        version_regex = re.compile('%s(?:_v([0-9]+))?\\.pkl' % re.escape(stripped_filename))
+        old_versions = [ fn for fn in os.listdir(dir_path) if version_regex.fullmatch(fn) ]
+        old_versions.sort(key=lambda fn: int(version_regex.fullmatch(fn).group(1) or 0))
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
-            v = v.replace('_v', '')
-            if not v:
-                v = 0
-            v = int(v) + 1
-            filename = '%s_v%d.pkl' % (filename_base, v)
+            v = int(version_regex.fullmatch(old_versions[-1]).group(1) or 0) + 1
+            filename = '%s_v%d.pkl' % (stripped_filename, v)
         else:
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
-- 
2.43.0


From e592d205f4b408cf457fa500a8d7266a05819e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 28/45] fix: paths in the configuration were turned to lower
 case

On case sensitive file systems another file was read or written.
---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index 1b9492c..70e54f6 100644
--- a/configfile.py
+++ b/configfile.py
@@ -143,7 +143,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From 9d3e430b42f11e38f722861fbe8766d61760f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 29/45] fix: saved config files could not be loaded

The left-hand side type was written as a dictionary of classes, and booleans in
lhs_params as python's True/False instead of json's, so that neither the config
saved with the results nor any config of a distributed run could be loaded.
---
 configfile.py     | 12 ++++++++++++
 distribute_run.py |  3 ++-
 main.py           |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/configfile.py b/configfile.py
index 70e54f6..a8b5639 100644
--- a/configfile.py
+++ b/configfile.py
@@ -194,6 +194,18 @@ class ConfigParser(configparser.ConfigParser):
             value = '[%s]' % (', '.join(funcs_names_list))
         return super().set(section=section, option=option, value=value)
 
+    @staticmethod
+    def param_to_str(param_key, param_val):
+        """Converts a parsed parameter back to its textual representation in a config file."""
+        if param_val is None:
+            return 'none'
+        if param_key == 'lhs_type':
+            # {'eval': ..., 'enum': ...} --> 'ulcd', 'rationalfunc', ...
+            return str(param_val['enum'])
+        if CONFIG_PARAMS_TYPES.get(param_key) is json.loads:
+            return json.dumps(param_val)
+        return str(param_val)
+
     def get_config(self):
         """Returns the parsed config dictionary."""
         return self._config
diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..b9c015c 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -42,7 +42,8 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable,
+                                   ConfigParser.param_to_str(config_variable, getattr(params, config_variable)))
         results_config_filename = os.path.splitext(configfile)
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index a73c2d2..a09f8bf 100644
--- a/main.py
+++ b/main.py
@@ -176,7 +176,8 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable,
+                           ConfigParser.param_to_str(config_variable, getattr(params, config_variable)))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From 99b26b86bfcae651799b920528da8961cec2eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 30/45] fix: splitting a config file of another directory
 failed

The directory of the config file was added to the path of the part configs twice.
---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index b9c015c..19fc022 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -44,7 +44,7 @@ def main(split_num=4, configfile='config.ini'):
             else:
                 results_config.set('Setup', config_variable,
                                    ConfigParser.param_to_str(config_variable, getattr(params, config_variable)))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From 3ae4fac3eb78d2850fa200adac6a1f39830b0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 31/45] fix: the index of the constant was passed as its
 precision

The generators take the precision as first positional argument (see
set_precision_decor), so feig, percolation and zeta failed.
---
 main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index a09f8bf..2cfb316 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, i=params.i)
+    gen_percolation_const = partial(gen_percolation_consts, i=params.i)
+    gen_zeta_const = partial(gen_zeta_consts, i=params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
-- 
2.43.0


From 205f8bf2e2aa88f8e3dc67a9f24326060de24fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 32/45] fix: searching for feig and percolation constants
 failed with a NameError

The undefined variable i was used for the name of the target.
---
 main.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/main.py b/main.py
index 2cfb316..a4114ff 100644
--- a/main.py
+++ b/main.py
@@ -69,10 +69,10 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
-    if params.const == 'feig':
-        params.const = 'feig, %d' % i
-    if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+    # params.const is left as it is, to be saved with the results and loaded again
+    target_name = params.const
+    if params.const in ['feig', 'percolation']:
+        target_name = '%s, %d' % (params.const, params.i)
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +82,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +92,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +108,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 5b1172089cd34787a3c5559ffaa0f80a9ba67229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 33/45] fix: searching with an existing table ignored the
 configured constant

The constant for which the table was generated was sought instead.
---
 main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.py b/main.py
index a4114ff..deee515 100644
--- a/main.py
+++ b/main.py
@@ -91,6 +91,9 @@ def main(config_file='config.ini'):
                                    postproc_funcs_latex=POSTPROC_FUNCS_LATEX)
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
+        else:
+            # the table holds continued fractions only, and may have been generated for a different constant
+            mitm.target_generator, mitm.target_name = target_generator, target_name
     elif params.hashtable_file_operation == 'generate':
         mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 5591efb72d723f75c6145efab4735cf353b8e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 34/45] fix: results were lost if the minute changed while
 creating their directory

The time was read twice, for creating the directory and for the files in it.
---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index deee515..156ced9 100644
--- a/main.py
+++ b/main.py
@@ -164,8 +164,9 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    results_dirname = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    os.mkdir(results_dirname)
+    export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From da56dc379a1913f385c1605650e2a2462b1d5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 35/45] fix: joining tables wrote over an existing file in
 spite of the warning

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..2d48e2e 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -6,6 +6,7 @@ import dill as pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From b0b740fbcdf17053f27291364aa192edf07c65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 36/45] fix: ProgressBar failed for empty iterables and with a
 NameError for a missing length

---
 utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils.py b/utils.py
index 24defc1..4c44319 100644
--- a/utils.py
+++ b/utils.py
@@ -89,14 +89,13 @@ class ProgressBar(enumerate):
         update_frequency = kwargs.pop('update_freq', 1)
         try:
             estimated_length = kwargs.pop('est_len')
-        except KeyError as exc:
+        except KeyError:
             estimated_length = None
 
         self = super().__new__(cls, *args, **kwargs)
         if estimated_length is None:
             if not hasattr(args[0], '__len__'):
-                raise ValueError("est_len=... must be supplied to ProgressBar(itr) if itr.__len__ doesn't exist.") \
-                    from exc
+                raise ValueError("est_len=... must be supplied to ProgressBar(itr) if itr.__len__ doesn't exist.")
             estimated_length = len(args[0])
 
         self._should_enum = should_enum
@@ -117,7 +116,9 @@ class ProgressBar(enumerate):
         try:
             i, v = super().__next__()
         except StopIteration:
-            time_passed_formatted = self._secs_to_days_hrs_mins_secs(self._time_stopper.get_total_runtime())
+            # no time is measured if there were no items at all
+            total_time_passed = self._time_stopper.get_total_runtime() if self._time_stopper.is_started() else 0
+            time_passed_formatted = self._secs_to_days_hrs_mins_secs(total_time_passed)
             print(self._progressbar_template.format(100, '00', '00', '00', '00', *time_passed_formatted), end='')
             raise
 
-- 
2.43.0


From 06ef8627b15591b958b4da998246edd55fb4afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 37/45] fix: latex exponents of two digits were written without
 braces

---
 lhs_evaluators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index e7cf4eb..7720fa1 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -415,9 +415,9 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
                         poly_elements.append(r'{0} {1}'.format(c, target_constant_name))
                     continue
                 if c == 1:
-                    poly_elements.append(r'{0}^{1}'.format(target_constant_name, i))
+                    poly_elements.append(r'{0}^{{{1}}}'.format(target_constant_name, i))
                 else:
-                    poly_elements.append(r'{0} {1}^{2}'.format(c, target_constant_name, i))
+                    poly_elements.append(r'{0} {1}^{{{2}}}'.format(c, target_constant_name, i))
             poly_elements[0] = poly_elements[0].replace('{0}^{1}'.format(target_constant_name, 0), '')
             latex_exp_parts.append( '+'.join(poly_elements))
         if latex_exp_parts[1].strip() == '1':
-- 
2.43.0


From 9e830f010a942429e2f768ac3fc54ad98486fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 38/45] fix: indexed polynomials of more than 31 coefficients
 were rounded by the float binomial

---
 enum_poly_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index 1f3eb71..59fd2ad 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -8,7 +8,7 @@ import cont_fracs
 from mpmath import mpf as dec, isint
 from mpmath import isint
 import mpmath
-from scipy.special import binom
+from scipy.special import comb
 
 def set_precision(prec):
     """Sets the precision of the current decimal context"""
@@ -220,7 +220,7 @@ class IndexedParameterEnumPolyParams(BasicEnumPolyParams, metaclass=IndexedMetaC
                     continue
                 # p_new += (x+i)**deg_p
                 for j in range(deg_p+1):
-                    p_new[j] += a_i * int(binom(deg_p, j)) * i**(deg_p-j)
+                    p_new[j] += a_i * comb(deg_p, j, exact=True) * i**(deg_p-j)
             poly_new.append(tuple(p_new))
         yield tuple(poly_new)
 
@@ -243,8 +243,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         self.n_a, self.n_b = special_params
         # give a product factor of the length, for given ranges of a, b
         # (the positions are chosen independently for each of the interlace polynomials)
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) ** len(range_a) *
-                                                            binom(self.n_b, len(range_b[0])) ** len(range_b))
+        self.len_factor_func = lambda range_a, range_b: (comb(self.n_a, len(range_a[0]), exact=True) ** len(range_a) *
+                                                        comb(self.n_b, len(range_b[0]), exact=True) ** len(range_b))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
-- 
2.43.0


From e1a7f3fb5ae8c528fd32b41521aa9f2803638a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 39/45] fix: re-parametrised rational functions kept reporting
 (and copying) their old parameters

---
 lhs_evaluators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 7720fa1..f0494cf 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -267,6 +267,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
             params - (numerator_poly, denominator_poly, added_int) the added int is an integer to be added to the result
                      and the polynomials are of the format: [a_0, a_1, a_2, ...] <=> a_0 + a_1*x + a_2*x^2 + ..."""
         # WARNING: as far as I see, only the first two arguments will be fed to params from the config file. Bug?
+        self.params = params
         self.numerator_p, self.denominator_p, self.added_int = params
         self._should_update_numerator_p_symbolic = True
         self._should_update_denominator_p_symbolic = True
-- 
2.43.0


From 9adb6fa9aee317720ccb44253f90e7f6d6d8dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 40/45] fix: expanding a table enumerates the configured type
 of polynomials

The enumerator was kept if it was of the new class or of a subclass of it (normal is
the base of all others), and whenever only the special parameters had changed, so
the table was expanded with other polynomials than the configured ones.
---
 enum_params.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 36a3519..e2f22c6 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -94,17 +94,15 @@ class MITM:
                           postproc_funcs_latex=POSTPROC_FUNCS_LATEX):
         """Redefines the class's settings. See the help of '__init__' for more info.
         Two important differences are:
-            1) The contfrac's a,b enumerator is recreated if ab_poly_class is changed to a
-               different one.
+            1) The contfrac's a,b enumerator is recreated, as ab_poly_class or its special parameters may be changed.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
-            self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
-                                                  enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
-                                                  avoid_int_roots=True,
-                                                  should_gen_contfrac=False,
-                                                  num_of_iterations=self._polys_enumer_num_of_iterations,
-                                                  threshold=None, special_params=ab_poly_special_params)
+        self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
+                                              enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
+                                              avoid_int_roots=True,
+                                              should_gen_contfrac=False,
+                                              num_of_iterations=self._polys_enumer_num_of_iterations,
+                                              threshold=None, special_params=ab_poly_special_params)
 
         set_precision(prec)
         self.target_generator = target_generator
-- 
2.43.0


From a9386f376259e0987ae73b7643a7f224d13fbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 41/45] fix: expanding a table uses the configured number of
 iterations

New entries were evaluated with the number of iterations of the run that generated
the table, whatever hashtable_num_of_iterations said.
---
 enum_params.py | 7 +++++--
 main.py        | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index e2f22c6..33b6d5b 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -91,12 +91,15 @@ class MITM:
                           trunc_integer=True, hashtable_prec=15, ab_poly_class=BasicEnumPolyParams,
                           ab_poly_special_params=None, prec=50, postproc_funcs=EVALUATED_POSTPROC_FUNCS,
                           postproc_funcs_text=POSTPROC_FUNCS, postproc_funcs_text_inverse=INVERSE_POSTPROC_PAIRS,
-                          postproc_funcs_latex=POSTPROC_FUNCS_LATEX):
-        """Redefines the class's settings. See the help of '__init__' for more info.
+                          postproc_funcs_latex=POSTPROC_FUNCS_LATEX, num_of_iterations=None):
+        """Redefines the class's settings. See the help of '__init__' for more info. num_of_iterations is left as it is
+        if it isn't given.
         Two important differences are:
             1) The contfrac's a,b enumerator is recreated, as ab_poly_class or its special parameters may be changed.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
+        if num_of_iterations is not None:
+            self._polys_enumer_num_of_iterations = num_of_iterations
         self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                               enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                               avoid_int_roots=True,
diff --git a/main.py b/main.py
index 156ced9..976afe4 100644
--- a/main.py
+++ b/main.py
@@ -85,7 +85,8 @@ def main(config_file='config.ini'):
             mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
-                                   ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
+                                   ab_poly_special_params=params.ab_polys_special_params,
+                                   num_of_iterations=params.hashtable_num_of_iterations, prec=DECIMAL_PREC,
                                    postproc_funcs=EVALUATED_POSTPROC_FUNCS, postproc_funcs_text=POSTPROC_FUNCS,
                                    postproc_funcs_text_inverse=INVERSE_POSTPROC_PAIRS,
                                    postproc_funcs_latex=POSTPROC_FUNCS_LATEX)
-- 
2.43.0


From 41e30c17b07d7f10aed8e12ec0d739f8eae9564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 42/45] fix: results of a second search in the same minute are
 not lost

The results directory is named by the minute; a search that ended in the minute of
another one raised FileExistsError before exporting anything.
---
 main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 976afe4..df48aff 100644
--- a/main.py
+++ b/main.py
@@ -165,7 +165,12 @@ def main(config_file='config.ini'):
 
     if not os.path.isdir('results'):
         os.mkdir('results')
-    results_dirname = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    results_dirname = base_dirname = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    # results of another search may have been saved during the same minute
+    same_minute_runs = 0
+    while os.path.exists(results_dirname):
+        same_minute_runs += 1
+        results_dirname = '%s_%d' % (base_dirname, same_minute_runs)
     os.mkdir(results_dirname)
     export_filename = os.path.join(results_dirname, 'results')
     mitm.export_to_csv(export_filename + '.csv')
-- 
2.43.0


From 2bb76570b708b8eaa44fc97a69a5b8a376657ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 43/45] fix: redefined settings kept the old precision for the
 enumeration

Resetting the precision of the enumeration (and reading it from the search object)
went back to the precision used before the settings were redefined.
---
 enum_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 33b6d5b..e9b95f2 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -100,7 +100,7 @@ class MITM:
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
         if num_of_iterations is not None:
             self._polys_enumer_num_of_iterations = num_of_iterations
-        self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
+        self.rhs_polys_enumer = ab_poly_class(prec=prec,
                                               enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                               avoid_int_roots=True,
                                               should_gen_contfrac=False,
@@ -113,6 +113,7 @@ class MITM:
         self.postproc_funcs_filter = postproc_funcs_filter
         self.trunc_integer = trunc_integer
         self.hashtable_prec = hashtable_prec
+        self.prec = prec
         self.dec_hashtable.update_accuracy(self.hashtable_prec)
         self.postproc_funcs = postproc_funcs
         self.postproc_funcs_text = postproc_funcs_text
-- 
2.43.0


From 5be971bf192ebc1f4672872d18319f121fd734dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 44/45] fix: expanding a table saves a new version instead of
 overwriting the loaded one

As documented in the configuration files, the expanded table is saved as v_latest+1; it
was written over v_latest, which was lost if the run was stopped while saving.
---
 configfile.py | 6 ++++++
 main.py       | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/configfile.py b/configfile.py
index a8b5639..3679816 100644
--- a/configfile.py
+++ b/configfile.py
@@ -108,6 +108,12 @@ class ConfigParser(configparser.ConfigParser):
             filename = old_versions[-1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
 
+    @staticmethod
+    def next_hashtable_filename(filename):
+        """Returns the name of the version after the hash table filename(_v[xx]).pkl. No suffix counts as v0."""
+        base, version = re.fullmatch('(.*?)(?:_v([0-9]+))?\\.pkl', filename, re.DOTALL).groups()
+        return '%s_v%d.pkl' % (base, int(version or 0) + 1)
+
     def _gen_postproc_funcs_filter(self):
         """Converts the postproc functions to their indices in POSTPROC_FUNCS"""
         try:
diff --git a/main.py b/main.py
index df48aff..9043528 100644
--- a/main.py
+++ b/main.py
@@ -114,9 +114,13 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
-        with open(params.hashtable_file, 'wb') as output_file:
+        output_filename = params.hashtable_file
+        if params.hashtable_file_operation == 'expand':
+            # an expanded table is a new version, the loaded one is left as it is
+            output_filename = ConfigParser.next_hashtable_filename(params.hashtable_file)
+        with open(output_filename, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-        print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
+        print('Stored hashtable as %s. Runtime: %s' % (output_filename,
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
         return
-- 
2.43.0


From fa32ad76c290e8c974658fe2700c87bfaeff8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:54 +0000
Subject: [PATCH 45/45] fix: no division by zero when the odd convergents do
 not move

---
 cont_fracs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index 9c3051b..493375c 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -316,7 +316,7 @@ False if it's sub exponential (e.g. linear)."""
                       for i in range(0, len(delta_odd), 2) if delta_odd[i][1] != 0 and delta_odd[i+1][1] != 0 and
                       not isnan(delta_odd[i][1]) and not isnan(delta_odd[i+1][1]) ]
 
-        if len(pair_ratio) < 6:
+        if len(pair_ratio) < 6 or len(odd_ratio) < 6:
             return (approach_type, approach_parameter)
 
         mean_pair_ratio = sum([ p for i, p in pair_ratio] ) / len(pair_ratio)
-- 
2.43.0

