From 57e34c680972efd1c1254a75805661772a8d438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 01/53] fix: debug output of base_expansion_dict no longer
 recurses into its own getter

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..cc52da4 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1536,7 +1536,7 @@ class Ga(metric.Metric):
                 base_expansion_dict[base] = expand(tmp)
 
         if self.debug:
-            print('base_expansion_dict =', self.base_expansion_dict)
+            print('base_expansion_dict =', base_expansion_dict)
 
         return base_expansion_dict
 
-- 
2.43.0


From c455983e6514a51e016f266857cf80543afe5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 02/53] fix: shirokov_inverse keeps exact arithmetic instead of
 float coefficients

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..87456e5 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1429,7 +1429,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From 8efe08b7d106a8120f4bab1a6bda494918fec235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 03/53] fix: a scalar multivector made from a plain python
 number holds a sympy expression

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 87456e5..9216286 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -219,7 +219,7 @@ class Mv(printer.GaPrintable):
             return Mv._make_grade(ga, name, 0, **kwargs)
         else:
             value = __name_or_value
-            return value
+            return S(value)
 
     @staticmethod
     def _make_vector(ga: 'Ga', __name_or_coeffs: Union[str, list, tuple], **kwargs) -> Expr:
-- 
2.43.0


From c54d3f8ba3af94e394a7331e7db53f3372063c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 04/53] fix: one-dimensional Cl algebras get one basis vector
 with the documented index

---
 galgebra/interop/_cl.py     | 5 ++++-
 galgebra/interop/kingdon.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..7e50b99 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -68,7 +68,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
+    if n == 1:
+        # 'e*1' would mean "one vector, numbered from 0" rather than an index list
+        basis = root + '_1,'
+    elif n <= 9:
         basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..3d9ce51 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -77,7 +77,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
+    if n == 1:
+        # 'e*1' would mean "one vector, numbered from 0" rather than an index list
+        basis = root + '_0,'
+    elif n <= 10:
         basis = root + '*' + '|'.join(str(i) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
-- 
2.43.0


From aae4286e049e44f9dcdb87800bbabe522cb5f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 05/53] fix: Mlt slot derivatives no longer switch off the
 connection of the algebra

pdiff() and contract() set Ga.dslot and never restored it, so every later
derivative in that (curvilinear) algebra silently dropped the derivatives of the
basis vectors.  They also differentiated with respect to the coordinates instead
of the components of the slot vector, so both returned 0 for constant tensors.
---
 galgebra/lt.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..ceb1fc5 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -5,13 +5,14 @@ Multivector Linear Transformation
 import inspect
 import types
 import itertools
+import operator
 import warnings
 from copy import copy
 from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, diff, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -927,8 +928,18 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        return Mlt._slot_grad(self.fvalue, slot, self.Ga, operator.mul)
+
+    @staticmethod
+    def _slot_grad(value, slot, ga, product):
+        # Sum of product(e^i, derivative of value with respect to component i
+        # of the slot vector), where e^i are the reciprocal basis vectors.
+        if isinstance(value, mv.Mv):
+            value = value.obj
+        grad = ga.mv(S.Zero)
+        for r_base, aij in zip(ga.mvr(), ga._mlt_pdiffs[slot - 1]):
+            grad += product(r_base, ga.mv(diff(expand(value), aij)))
+        return grad
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -952,13 +963,11 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
+        grad_self = Mlt._slot_grad(self.fvalue, min_slot, self.Ga, operator.mul)
         grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        div_grad_self = Mlt._slot_grad(grad_self, max_slot - 1, self.Ga, operator.or_)
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
-        return Mlt(div_grad_self, self.Ga, cnargs)
+        return Mlt(expand(div_grad_self), self.Ga, cnargs)
 
     def cderiv(self):
         """
-- 
2.43.0


From 732074fc18e0a9fdab2ae2328bd800030919eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 06/53] fix: evaluate a Mlt with normalized reciprocal vectors
 in non-orthogonal bases

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index ceb1fc5..ef365d6 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -864,7 +864,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
+                for r_base, aij in zip(self.Ga.mvr(), ai):
                     sub_lst.append((aij, (r_base | x).scalar()))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
-- 
2.43.0


From d0fa5707e6c1e15903abd1d9b4c2f352bd4fc6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 07/53] fix: Ga.connection returns the cached value on a
 repeated call

---
 galgebra/ga.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index cc52da4..17627c8 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2120,21 +2120,21 @@ class Ga(metric.Metric):
         :math:`e^{j}` are reciprocal basis vectors.
         """
         mode_key = (mode, left)
-        keys = [i for i, j in self.connect[mode_key]]
         if left:
             key = rbase * key_base
         else:
             key = key_base * rbase
-        if key not in keys:
-            keys.append(key)
-            C = S.Zero
-            for ib in self.n_range:
-                x = self.blade_derivation(key_base, ib)
-                if self.norm:
-                    x /= self.e_norm[ib]
-                C += self.er_blade(self.r_basis[ib], x, mode, left)
-            # Update connection dictionaries
-            self.connect[mode_key].append((key, C))
+        for known_key, C in self.connect[mode_key]:
+            if known_key == key:
+                return C
+        C = S.Zero
+        for ib in self.n_range:
+            x = self.blade_derivation(key_base, ib)
+            if self.norm:
+                x /= self.e_norm[ib]
+            C += self.er_blade(self.r_basis[ib], x, mode, left)
+        # Update connection dictionaries
+        self.connect[mode_key].append((key, C))
         return C
 
     def ReciprocalFrame(self, basis: Sequence[_mv.Mv], mode: str = 'norm') -> Tuple[_mv.Mv, ...]:
-- 
2.43.0


From c474b2afaae6fde0ba97c069b0d1fa28d25c4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 08/53] fix: set_coef forgets what was cached about the old
 value

The grade list, the pure grade and the blade and versor flags of the multivector
kept describing the value before set_coef, so is_blade(), is_versor(),
pure_grade() and the products that branch on them were wrong afterwards.  The
test for the representation looked at a bound method, which is always true.
---
 galgebra/mv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 9216286..8cd541b 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1270,7 +1270,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1280,6 +1280,12 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # everything known about the old value is out of date
+        self.char_Mv = False
+        self.i_grade = None
+        self.grades = None
+        self.blade_flg = None
+        self.versor_flg = None
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From c041f8e1d5e970157aecc1c6cd5d961bec9a338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 09/53] fix: a normalized algebra no longer overwrites the
 caller's metric matrix

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..6233ed6 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -788,7 +788,7 @@ class Metric(object):
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
                 if isinstance(g, Matrix):
-                    self.g = g
+                    self.g = g.copy()  # normalize_metric() writes to self.g
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 2fc0b9c56c8f9ac5a1bb67b441b90f65fe152633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 10/53] fix: latex names of symbols do not depend on the hash
 seed

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..b9f41a5 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -497,7 +497,7 @@ class GaLatexPrinter(LatexPrinter):
     # Used by _print_Symbol
     greek_translated = {'lamda': 'lambda', 'Lamda': 'Lambda'}
     other = other_symbols | {'infty'}
-    special_alphabet = list(reversed(sorted(list(greeks) + list(other), key=len)))
+    special_alphabet = list(reversed(sorted(list(greeks) + sorted(other), key=len)))
 
     @staticmethod
     def redirect():
-- 
2.43.0


From 32dc479eab8c809c1682d180a1096aaced9d1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 11/53] fix: a refused interop Cl() call leaves the dual mode
 as it was

---
 galgebra/interop/_cl.py     |  9 +++++----
 galgebra/interop/kingdon.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 7e50b99..0bfa413 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -61,9 +61,6 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
 
-    # Reset to galgebra default dual convention
-    Ga.dual_mode('I+')
-
     # Build diagonal metric: p ones, q negative ones, r zeros
     g = [1] * p + [-1] * q + [0] * r
 
@@ -76,4 +73,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
 
-    return Ga.build(basis, g=g, **kwargs)
+    algebra = Ga.build(basis, g=g, **kwargs)
+
+    # Reset to galgebra default dual convention
+    Ga.dual_mode('I+')
+    return algebra
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index 3d9ce51..00a74c6 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -23,7 +23,7 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     .. note::
 
         This function sets the session-wide dual mode to ``'Iinv+'``
-        before building the algebra.  ``galgebra.interop.Cl`` resets it
+        once the algebra is built.  ``galgebra.interop.Cl`` resets it
         back to ``'I+'``.  This means any algebra built under ``'Iinv+'``
         will compute duals with ``'I+'`` once a subsequent
         ``galgebra.interop.Cl`` call is made.  For full isolation over a
@@ -70,9 +70,6 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
 
-    # Set kingdon dual convention
-    Ga.dual_mode('Iinv+')
-
     # Build diagonal metric: p ones, q negative ones, r zeros
     g = [1] * p + [-1] * q + [0] * r
 
@@ -85,4 +82,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
 
-    return Ga.build(basis, g=g, **kwargs)
+    algebra = Ga.build(basis, g=g, **kwargs)
+
+    # Set kingdon dual convention
+    Ga.dual_mode('Iinv+')
+    return algebra
-- 
2.43.0


From 098ea16a38281e2298ed93e0c6cbd0e1413c5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 12/53] fix: an interrupted Mlt slot creation no longer leaves
 a slot without coefficients

---
 galgebra/lt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index ef365d6..6650984 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -687,11 +687,10 @@ class Mlt(printer.GaPrintable):
             for i in range(n_a, nargs):
                 #  New slot variable with coefficients a_{n_a}__k
                 a = Ga.mv('a_' + str(i + 1), 'vector')
-                #  Append new slot variable a_j
-                Ga._mlt_a.append(a)
-                #  Append slot variable coefficients a_j__k for purpose
-                #  of differentiation
+                #  Slot variable coefficients a_j__k for purpose of differentiation
                 coefs = a.get_coefs(1)
+                #  Append new slot variable a_j and its coefficients
+                Ga._mlt_a.append(a)
                 Ga._mlt_pdiffs.append(coefs)
                 Ga._mlt_acoefs += coefs
 
-- 
2.43.0


From 0fc3d39fc44766f28418090cd87438cf2ff72281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 13/53] fix: Lt.tr() no longer switches the connection of the
 algebra off and on

tr() differentiated L(x) with Ga.connect_flg cleared for the whole algebra: a
derivative taken by another thread meanwhile, or any derivative after an
exception in tr(), silently lost the derivatives of the basis vectors.  It also
differentiated the entries of a transformation that depends on the coordinates
and divided by the norms of a normalized basis.  The trace needs no derivative.
---
 galgebra/lt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 6650984..a85596a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -509,12 +509,11 @@ class Lt(printer.GaPrintable):
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        tr_F = sum(
+            (er | mv.Mv(expand(self(e, obj=True)), ga=self.Ga) for er, e in zip(self.Ga.mvr(), self.Ga.basis)),
+            mv.Mv(S.Zero, ga=self.Ga)
+        )
+        return tr_F.scalar()
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From e604396ef128b6c987648d1cd4a45e9b44f803bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 14/53] fix: every captured LaTeX report holds its own output,
 once, and stdout comes back

Switching the capture on twice forgot the real stdout for ever.  A second
Format() in the same process did nothing because the counter was never reset, so
that report went to the terminal and its tex() failed.  tex() left its own
output behind in the buffer, so the next report started with a copy of it, and
it dropped the output when the program listing could not be read.
---
 galgebra/printer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index b9f41a5..432db20 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -444,6 +444,8 @@ class GaLatexPrinter(LatexPrinter):
     latex_flg = False
     latex_str = ''
     ipy = False
+    stdout = None   # the real sys.stdout while printing is captured
+    capture = None  # the stream that captures it
 
     preamble = \
 """
@@ -504,18 +506,21 @@ class GaLatexPrinter(LatexPrinter):
         GaLatexPrinter.latex_flg = True
         if GaLatexPrinter.ipy:
             pass
-        else:
+        elif GaLatexPrinter.capture is None:
             GaLatexPrinter.stdout = sys.stdout
-            sys.stdout = io.StringIO()
+            sys.stdout = GaLatexPrinter.capture = io.StringIO()
 
     @staticmethod
     def restore():
+        global Format_cnt
+
         if GaLatexPrinter.latex_flg:
-            if not GaLatexPrinter.ipy:
-                GaLatexPrinter.latex_str += sys.stdout.getvalue()
             GaLatexPrinter.latex_flg = False
-            if not GaLatexPrinter.ipy:
+            Format_cnt = 0
+            if GaLatexPrinter.capture is not None:
                 sys.stdout = GaLatexPrinter.stdout
+                GaLatexPrinter.latex_str += GaLatexPrinter.capture.getvalue()
+                GaLatexPrinter.stdout = GaLatexPrinter.capture = None
 
     def _print_Pow(self, expr):
         base = self._print(expr.base)
@@ -895,9 +900,8 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
@@ -978,6 +982,7 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     paper_size = paper_size.replace('@10pt@', pt)
     latex_str = paper_size + GaLatexPrinter.preamble + latex_str + GaLatexPrinter.postscript
 
+    GaLatexPrinter.latex_str = ''
     return latex_str
 
 
-- 
2.43.0


From a89ce4e61faa2f4f6ce239d024eec71dd7973802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 15/53] fix: xpdf() does not lose the report when writing it,
 pdflatex or pdfcrop fails

The captured output was gone when the tex file could not be written, the tex
file was deleted even if no pdf file had been made from it, and the pdf file was
deleted even if pdfcrop had not made another one.
---
 galgebra/printer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 432db20..0aa7f50 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1003,6 +1003,8 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
 
     sys_cmd = SYS_CMD[sys.platform]
 
+    GaLatexPrinter.restore()
+    captured = GaLatexPrinter.latex_str
     latex_str = tex(paper=paper, debug=debug, prog=prog, pt=pt)
 
     if filename is None:
@@ -1013,9 +1015,13 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
     if debug:
         print('latex file =', filename)
 
-    latex_file = open(filename, 'w')
-    latex_file.write(latex_str)
-    latex_file.close()
+    try:
+        with open(filename, 'w') as latex_file:
+            latex_file.write(latex_str)
+    except BaseException:
+        # nothing was saved, keep the output for another attempt
+        GaLatexPrinter.latex_str = captured
+        raise
 
     latex_str = None
 
@@ -1029,9 +1035,9 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
 
     if pdfprog is not None:
         if debug:  # Display latex excution output for debugging purposes
-            os.system(pdfprog + ' ' + filename[:-4])
+            status = os.system(pdfprog + ' ' + filename[:-4])
         else:  # Works for Linux don't know about Windows
-            os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
+            status = os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
 
         print_cmd = sys_cmd['evince'] + ' ' + filename[:-4] + '.pdf ' + sys_cmd['&']
         print(print_cmd)
@@ -1039,14 +1045,14 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
         os.system(print_cmd)
         eval(input('!!!!Return to continue!!!!\n'))
 
-        if debug:
+        if debug or status != 0:  # keep the tex file if there is no pdf file
             os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log')
         else:
             os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log ' + filename[:-4] + '.tex')
         if crop:
-            os.system('pdfcrop ' + filename[:-4] + '.pdf')
-            os.remove(filename[:-4] + '.pdf')
-            os.rename(filename[:-4] + '-crop.pdf', filename[:-4] + '.pdf')
+            if os.system('pdfcrop ' + filename[:-4] + '.pdf') == 0:
+                os.remove(filename[:-4] + '.pdf')
+                os.rename(filename[:-4] + '-crop.pdf', filename[:-4] + '.pdf')
         if png:
             os.system('Pdf2Png ' + filename[:-4])
     return
-- 
2.43.0


From b532bc1308809956602fb4656f94dabb2253802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 16/53] fix: xpdf() accepts Return at its prompt

eval() of the empty answer raised SyntaxError, so xpdf() never got past the prompt.
---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 0aa7f50..b5a5ee2 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1043,7 +1043,7 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
         print(print_cmd)
 
         os.system(print_cmd)
-        eval(input('!!!!Return to continue!!!!\n'))
+        input('!!!!Return to continue!!!!\n')
 
         if debug or status != 0:  # keep the tex file if there is no pdf file
             os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log')
-- 
2.43.0


From 40159a9ad5b559c9dae19578e80b94394be390dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 17/53] fix: gxpdf() does not lose the report when writing it,
 pdflatex or pdfcrop fails

The collected output was dropped before the tex file was written, the tex file
was deleted even if no pdf file had been made from it, and the pdf file was
deleted even if pdfcrop had not made another one.  The aux and log files were
never removed because their names had a trailing blank.
---
 galgebra/gprinter.py | 601 ++++++++++++++++++++++---------------------
 1 file changed, 301 insertions(+), 300 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d26aff6..4298f76 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -1,300 +1,301 @@
-from .printer import GaLatexPrinter, isinteractive, Format_cnt, latex
-import subprocess
-import sys
-import shutil
-import inspect
-
-from sympy import init_printing
-
-try:
-    from IPython.display import display, Math
-except ImportError:
-    pass
-
-SYS_CMD = {'linux2': {'rm': 'rm', 'evince': 'evince', 'null': ' > /dev/null', '&': '&'},
-           'linux': {'rm': 'rm', 'evince': 'evince', 'null': ' > /dev/null', '&': '&'},
-           'win32': {'rm': 'del', 'evince': 'start', 'null': ' > NUL', '&': ''},
-           'darwin': {'rm': 'rm', 'evince': 'open', 'null': ' > /dev/null', '&': '&'}}
-
-
-class LaTeX:
-    # LaTeX data
-    line_sep = """
-************************************************************************
-"""
-    latex_flg = False
-    latex_str = ''
-
-    latex_preamble = """
-\\pagestyle{empty}
-\\usepackage[utf8]{inputenc}
-\\usepackage{amsmath}
-\\usepackage{amsfonts}
-\\usepackage{amssymb}
-\\usepackage{amsbsy}
-\\usepackage{tensor}
-\\usepackage{listings}
-\\usepackage{color}
-\\usepackage{xcolor}
-\\usepackage{bm}
-\\usepackage{breqn}
-\\definecolor{gray}{rgb}{0.95,0.95,0.95}
-\\setlength{\\parindent}{0pt}
-\\DeclareMathOperator{\\Tr}{Tr}
-\\DeclareMathOperator{\\Adj}{Adj}
-\\newcommand{\\bfrac}[2]{\\displaystyle\\frac{#1}{#2}}
-\\newcommand{\\lp}{\\left (}
-\\newcommand{\\rp}{\\right )}
-\\newcommand{\\paren}[1]{\\lp {#1} \\rp}
-\\newcommand{\\half}{\\frac{1}{2}}
-\\newcommand{\\llt}{\\left <}
-\\newcommand{\\rgt}{\\right >}
-\\newcommand{\\abs}[1]{\\left |{#1}\\right | }
-\\newcommand{\\pdiff}[2]{\\bfrac{\\partial {#1}}{\\partial {#2}}}
-\\newcommand{\\lbrc}{\\left \\{}
-\\newcommand{\\rbrc}{\\right \\}}
-\\newcommand{\\W}{\\wedge}
-\\newcommand{\\prm}[1]{{#1}^{\\prime}}
-\\newcommand{\\ddt}[1]{\\bfrac{d{#1}}{dt}}
-\\newcommand{\\R}{\\dagger}
-\\newcommand{\\deriv}[3]{\\bfrac{d^{#3}#1}{d{#2}^{#3}}}
-\\newcommand{\\grade}[2]{\\left < {#1} \\right >_{#2}}
-\\newcommand{\\f}[2]{{#1}\\lp{#2}\\rp}
-\\newcommand{\\eval}[2]{\\left . {#1} \\right |_{#2}}
-\\newcommand{\\Nabla}{\\boldsymbol{\\nabla}}
-\\newcommand{\\eb}{\\boldsymbol{e}}
-\\newcommand{\\bs}[1]{\\boldsymbol{#1}}
-\\newcommand{\\grad}{\\bs{\\nabla}}
-\\usepackage{float}
-\\floatstyle{plain} % optionally change the style of the new float
-\\newfloat{Code}{H}{myc}
-\\lstloadlanguages{Python}
-\\begin{document}
-
-"""
-
-    ip_cmds = \
-        [r'$$\DeclareMathOperator{\Tr}{Tr}$$',
-            r'$$\DeclareMathOperator{\Adj}{Adj}$$',
-            r'$$\newcommand{\bfrac}[2]{\displaystyle\frac{#1}{#2}}$$',
-            r'$$\newcommand{\lp}{\left (}$$',
-            r'$$\newcommand{\rp}{\right )}$$',
-            r'$$\newcommand{\paren}[1]{\lp {#1} \rp}$$',
-            r'$$\newcommand{\half}{\frac{1}{2}}$$',
-            r'$$\newcommand{\llt}{\left <}$$',
-            r'$$\newcommand{\rgt}{\right >}$$',
-            r'$$\newcommand{\abs}[1]{\left |{#1}\right | }$$',
-            r'$$\newcommand{\pdiff}[2]{\bfrac{\partial {#1}}{\partial {#2}}}$$',
-            r'$$\newcommand{\npdiff}[3]{\bfrac{\partial^{#3} {#1}}{\partial {#2}^{#3}}}$$',
-            r'$$\newcommand{\lbrc}{\left \{}$$',
-            r'$$\newcommand{\rbrc}{\right \}}$$',
-            r'$$\newcommand{\W}{\wedge}$$',
-            r'$$\newcommand{\prm}[1]{{#1}^{\prime}}$$',
-            r'$$\newcommand{\ddt}[1]{\bfrac{d{#1}}{dt}}$$',
-            r'$$\newcommand{\R}{\dagger}$$',
-            r'$$\newcommand{\deriv}[3]{\bfrac{d^{#3}#1}{d{#2}^{#3}}}$$',
-            r'$$\newcommand{\grade}[2]{\left < {#1} \right >_{#2}}$$',
-            r'$$\newcommand{\f}[2]{{#1}\lp {#2} \rp}$$',
-            r'$$\newcommand{\eval}[2]{\left . {#1} \right |_{#2}}$$',
-            r'$$\newcommand{\bs}[1]{\boldsymbol{#1}}$$',
-            r'$$\newcommand{\grad}{\bs{\nabla}}$$']
-
-# ***********************************************************************
-
-
-def gFormat(Fmode: bool = True, Dmode: bool = True, inverse='full'):
-    r"""
-    Turns on latex printing with configurable options.
-
-    This redirects printer output so that latex compiler can capture it.
-
-    ``Format()`` is also required for printing from *ipython notebook* (note that ``xpdf()`` is not needed to print from *ipython notebook*).
-
-    Parameters
-    ----------
-    Fmode:
-        Value for the ``omit_function_args`` setting of
-        :class:`GaLatexPrinter`.
-    Dmode:
-        Value for the ``omit_partial_derivative_fraction`` setting of
-        :class:`GaLatexPrinter`.
-    """
-    global Format_cnt
-
-    GaLatexPrinter.set_global_settings(
-        omit_partial_derivative_fraction=Dmode,
-        omit_function_args=Fmode,
-        inv_trig_style=inverse,
-    )
-
-    if Format_cnt == 0:
-        Format_cnt += 1
-
-        LaTeX.latex_flg = True
-
-        if isinteractive():
-            init_printing(use_latex='mathjax')
-            from IPython.display import Math, display
-            cmds = '\n'.join(LaTeX.ip_cmds)
-            display(Math(cmds))
-
-    return
-
-
-def gprint(*xargs):
-    """
-    Print latex or text from python script or latex from Jupyter Notebook/Lab
-
-    """
-    x = []
-    fstr = ''
-    new_eq_flg = False
-    i = 0
-    for xi in xargs:
-        if isinstance(xi, str):
-            if r'\\' in xi and i > 0:
-                if isinteractive():
-                    xi_rep = xi.replace(r'\\', r'\end{equation*}@\begin{equation*} ')
-                else:
-                    xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\n'+r'\begin{equation*} ')
-                new_eq_flg = True
-                fstr += xi_rep
-            else:
-                fstr += xi
-        elif isinstance(xi, type):
-            if LaTeX.latex_flg:
-                fstr += r' \text{'+str(xi)+'} '
-            else:
-                fstr += str(xi)
-        else:
-            if LaTeX.latex_flg:
-                x.append(latex(xi))
-                if new_eq_flg:
-                    new_eq_flg = False
-                fstr += r' %s '
-            else:
-                x.append(str(xi))
-                fstr += r' %s '
-
-        i += 1
-
-    if LaTeX.latex_flg:
-        if isinteractive():
-            lstr = fstr % tuple(x)
-            if '@' in lstr:
-                lines = lstr.split('@')
-                lines[0] = r'\begin{equation*} '+lines[0]
-                lines[-1] += r'\end{equation*}'
-                for line in lines:
-                    display(Math(line))
-            else:
-                display(Math(lstr))
-        else:
-            LaTeX.latex_str += r'\begin{equation*} ' + (fstr % tuple(x)) + r'\end{equation*} '+'\n'
-    else:
-        print(fstr % tuple(x))
-
-    return
-
-
-def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug=False, pt='10pt', pdfprog='pdflatex', evince=True, rm=True, null=True, documentclass='book'):
-
-    """
-    Post processes LaTeX output (see comments below), adds preamble and
-    postscript, generates tex file, inputs file to latex, displays resulting
-    pdf file.
-
-    Arg         Value       Result
-    pdfprog    'pdflatex'   Use pdfprog to generate pdf output, only generate tex if pdfprog is None
-    crop        True        Use "pdfcrop" to crop output file (pdfcrop must be installed, linux only)
-    png         True        Use "convert" to produce png output (imagemagick must be installed, linux only)
-
-    We assume that if gxpdf() is called then gFormat() has been called at the beginning of the program.
-    """
-
-    latex_str = paper_format(paper, pt, documentclass)+LaTeX.latex_preamble+LaTeX.latex_str+r'\end{document}'
-    # Clean up the latex string after printing
-    LaTeX.latex_str = ''
-
-    if filename is None:
-        pyfilename = sys.argv[0]
-        rootfilename = pyfilename.replace('.py', '')
-        tex_filename = rootfilename + '.tex'
-        pdf_filename = rootfilename + '.pdf'
-    else:
-        tex_filename = filename
-        pdf_filename = tex_filename.replace('.tex', '.pdf')
-        rootfilename = tex_filename.replace('.tex', '')
-
-    if debug:
-        print('latex file =', filename)
-
-    with open(tex_filename, 'w') as latex_file:
-        latex_file.write(latex_str)
-
-    if pdfprog is not None:
-        sys_cmd = SYS_CMD[sys.platform]
-        pdflatex = shutil.which(pdfprog)
-
-        if debug:  # Display latex excution output for debugging purposes
-            print('pdflatex path =', pdflatex)
-            # os.system(pdfprog + ' ' + filename[:-4])
-        else:  # Works for Linux don't know about Windows
-            if null:
-                subprocess.call([pdfprog, tex_filename, sys_cmd['null']])
-            else:
-                subprocess.call([pdfprog, tex_filename])
-            # os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
-
-        if evince:
-            subprocess.call([sys_cmd['evince'], pdf_filename])
-
-        # eval(input('!!!!Return to continue!!!!\n'))
-
-        if rm:
-            if debug:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log'])
-            else:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log ', rootfilename+'.tex'])
-        if crop:
-            subprocess.call(['pdfcrop', pdf_filename])
-            subprocess.call(['rm', pdf_filename])
-            subprocess.call(['mv', rootfilename+'-crop.pdf', pdf_filename])
-        if png:
-            subprocess.call(['Pdf2Png', rootfilename])
-    return
-
-
-def paper_format(paper, pt, documentclass='book'):  # Set size of paper and font size
-
-    if paper == 'letter':
-        paper_size = """
-\\documentclass[@10pt@,fleqn]{%s}
-""" % documentclass
-    else:
-        paper_size = """
-\\documentclass[@10pt@,fleqn]{%s}
-\\usepackage[vcentering]{geometry}
-""" % documentclass
-        if paper == 'landscape':
-            paper = [11, 8.5]
-        paper_size += '\\geometry{papersize={' + str(paper[0]) + \
-                      'in,' + str(paper[1]) + 'in},total={' + str(paper[0] - 1) + \
-                      'in,' + str(paper[1] - 1) + 'in}}\n'
-
-    paper_size = paper_size.replace('@10pt@', pt)
-
-    return paper_size
-
-
-def gPrint_Function():
-    """ Print out the source of the current function """
-
-    tmp_str = inspect.getsource(inspect.currentframe().f_back)
-    if LaTeX.latex_flg:
-        LaTeX.latex_str += r'\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,backgroundcolor=\color{gray},frame=single]%s\end{lstlisting}\text{Code Output:}' % tmp_str
-    else:
-        print('\n' + 80 * '*')
-        print(tmp_str)
-        print('Code output:\n')
-    return
+from .printer import GaLatexPrinter, isinteractive, Format_cnt, latex
+import subprocess
+import sys
+import shutil
+import inspect
+
+from sympy import init_printing
+
+try:
+    from IPython.display import display, Math
+except ImportError:
+    pass
+
+SYS_CMD = {'linux2': {'rm': 'rm', 'evince': 'evince', 'null': ' > /dev/null', '&': '&'},
+           'linux': {'rm': 'rm', 'evince': 'evince', 'null': ' > /dev/null', '&': '&'},
+           'win32': {'rm': 'del', 'evince': 'start', 'null': ' > NUL', '&': ''},
+           'darwin': {'rm': 'rm', 'evince': 'open', 'null': ' > /dev/null', '&': '&'}}
+
+
+class LaTeX:
+    # LaTeX data
+    line_sep = """
+************************************************************************
+"""
+    latex_flg = False
+    latex_str = ''
+
+    latex_preamble = """
+\\pagestyle{empty}
+\\usepackage[utf8]{inputenc}
+\\usepackage{amsmath}
+\\usepackage{amsfonts}
+\\usepackage{amssymb}
+\\usepackage{amsbsy}
+\\usepackage{tensor}
+\\usepackage{listings}
+\\usepackage{color}
+\\usepackage{xcolor}
+\\usepackage{bm}
+\\usepackage{breqn}
+\\definecolor{gray}{rgb}{0.95,0.95,0.95}
+\\setlength{\\parindent}{0pt}
+\\DeclareMathOperator{\\Tr}{Tr}
+\\DeclareMathOperator{\\Adj}{Adj}
+\\newcommand{\\bfrac}[2]{\\displaystyle\\frac{#1}{#2}}
+\\newcommand{\\lp}{\\left (}
+\\newcommand{\\rp}{\\right )}
+\\newcommand{\\paren}[1]{\\lp {#1} \\rp}
+\\newcommand{\\half}{\\frac{1}{2}}
+\\newcommand{\\llt}{\\left <}
+\\newcommand{\\rgt}{\\right >}
+\\newcommand{\\abs}[1]{\\left |{#1}\\right | }
+\\newcommand{\\pdiff}[2]{\\bfrac{\\partial {#1}}{\\partial {#2}}}
+\\newcommand{\\lbrc}{\\left \\{}
+\\newcommand{\\rbrc}{\\right \\}}
+\\newcommand{\\W}{\\wedge}
+\\newcommand{\\prm}[1]{{#1}^{\\prime}}
+\\newcommand{\\ddt}[1]{\\bfrac{d{#1}}{dt}}
+\\newcommand{\\R}{\\dagger}
+\\newcommand{\\deriv}[3]{\\bfrac{d^{#3}#1}{d{#2}^{#3}}}
+\\newcommand{\\grade}[2]{\\left < {#1} \\right >_{#2}}
+\\newcommand{\\f}[2]{{#1}\\lp{#2}\\rp}
+\\newcommand{\\eval}[2]{\\left . {#1} \\right |_{#2}}
+\\newcommand{\\Nabla}{\\boldsymbol{\\nabla}}
+\\newcommand{\\eb}{\\boldsymbol{e}}
+\\newcommand{\\bs}[1]{\\boldsymbol{#1}}
+\\newcommand{\\grad}{\\bs{\\nabla}}
+\\usepackage{float}
+\\floatstyle{plain} % optionally change the style of the new float
+\\newfloat{Code}{H}{myc}
+\\lstloadlanguages{Python}
+\\begin{document}
+
+"""
+
+    ip_cmds = \
+        [r'$$\DeclareMathOperator{\Tr}{Tr}$$',
+            r'$$\DeclareMathOperator{\Adj}{Adj}$$',
+            r'$$\newcommand{\bfrac}[2]{\displaystyle\frac{#1}{#2}}$$',
+            r'$$\newcommand{\lp}{\left (}$$',
+            r'$$\newcommand{\rp}{\right )}$$',
+            r'$$\newcommand{\paren}[1]{\lp {#1} \rp}$$',
+            r'$$\newcommand{\half}{\frac{1}{2}}$$',
+            r'$$\newcommand{\llt}{\left <}$$',
+            r'$$\newcommand{\rgt}{\right >}$$',
+            r'$$\newcommand{\abs}[1]{\left |{#1}\right | }$$',
+            r'$$\newcommand{\pdiff}[2]{\bfrac{\partial {#1}}{\partial {#2}}}$$',
+            r'$$\newcommand{\npdiff}[3]{\bfrac{\partial^{#3} {#1}}{\partial {#2}^{#3}}}$$',
+            r'$$\newcommand{\lbrc}{\left \{}$$',
+            r'$$\newcommand{\rbrc}{\right \}}$$',
+            r'$$\newcommand{\W}{\wedge}$$',
+            r'$$\newcommand{\prm}[1]{{#1}^{\prime}}$$',
+            r'$$\newcommand{\ddt}[1]{\bfrac{d{#1}}{dt}}$$',
+            r'$$\newcommand{\R}{\dagger}$$',
+            r'$$\newcommand{\deriv}[3]{\bfrac{d^{#3}#1}{d{#2}^{#3}}}$$',
+            r'$$\newcommand{\grade}[2]{\left < {#1} \right >_{#2}}$$',
+            r'$$\newcommand{\f}[2]{{#1}\lp {#2} \rp}$$',
+            r'$$\newcommand{\eval}[2]{\left . {#1} \right |_{#2}}$$',
+            r'$$\newcommand{\bs}[1]{\boldsymbol{#1}}$$',
+            r'$$\newcommand{\grad}{\bs{\nabla}}$$']
+
+# ***********************************************************************
+
+
+def gFormat(Fmode: bool = True, Dmode: bool = True, inverse='full'):
+    r"""
+    Turns on latex printing with configurable options.
+
+    This redirects printer output so that latex compiler can capture it.
+
+    ``Format()`` is also required for printing from *ipython notebook* (note that ``xpdf()`` is not needed to print from *ipython notebook*).
+
+    Parameters
+    ----------
+    Fmode:
+        Value for the ``omit_function_args`` setting of
+        :class:`GaLatexPrinter`.
+    Dmode:
+        Value for the ``omit_partial_derivative_fraction`` setting of
+        :class:`GaLatexPrinter`.
+    """
+    global Format_cnt
+
+    GaLatexPrinter.set_global_settings(
+        omit_partial_derivative_fraction=Dmode,
+        omit_function_args=Fmode,
+        inv_trig_style=inverse,
+    )
+
+    if Format_cnt == 0:
+        Format_cnt += 1
+
+        LaTeX.latex_flg = True
+
+        if isinteractive():
+            init_printing(use_latex='mathjax')
+            from IPython.display import Math, display
+            cmds = '\n'.join(LaTeX.ip_cmds)
+            display(Math(cmds))
+
+    return
+
+
+def gprint(*xargs):
+    """
+    Print latex or text from python script or latex from Jupyter Notebook/Lab
+
+    """
+    x = []
+    fstr = ''
+    new_eq_flg = False
+    i = 0
+    for xi in xargs:
+        if isinstance(xi, str):
+            if r'\\' in xi and i > 0:
+                if isinteractive():
+                    xi_rep = xi.replace(r'\\', r'\end{equation*}@\begin{equation*} ')
+                else:
+                    xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\n'+r'\begin{equation*} ')
+                new_eq_flg = True
+                fstr += xi_rep
+            else:
+                fstr += xi
+        elif isinstance(xi, type):
+            if LaTeX.latex_flg:
+                fstr += r' \text{'+str(xi)+'} '
+            else:
+                fstr += str(xi)
+        else:
+            if LaTeX.latex_flg:
+                x.append(latex(xi))
+                if new_eq_flg:
+                    new_eq_flg = False
+                fstr += r' %s '
+            else:
+                x.append(str(xi))
+                fstr += r' %s '
+
+        i += 1
+
+    if LaTeX.latex_flg:
+        if isinteractive():
+            lstr = fstr % tuple(x)
+            if '@' in lstr:
+                lines = lstr.split('@')
+                lines[0] = r'\begin{equation*} '+lines[0]
+                lines[-1] += r'\end{equation*}'
+                for line in lines:
+                    display(Math(line))
+            else:
+                display(Math(lstr))
+        else:
+            LaTeX.latex_str += r'\begin{equation*} ' + (fstr % tuple(x)) + r'\end{equation*} '+'\n'
+    else:
+        print(fstr % tuple(x))
+
+    return
+
+
+def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug=False, pt='10pt', pdfprog='pdflatex', evince=True, rm=True, null=True, documentclass='book'):
+
+    """
+    Post processes LaTeX output (see comments below), adds preamble and
+    postscript, generates tex file, inputs file to latex, displays resulting
+    pdf file.
+
+    Arg         Value       Result
+    pdfprog    'pdflatex'   Use pdfprog to generate pdf output, only generate tex if pdfprog is None
+    crop        True        Use "pdfcrop" to crop output file (pdfcrop must be installed, linux only)
+    png         True        Use "convert" to produce png output (imagemagick must be installed, linux only)
+
+    We assume that if gxpdf() is called then gFormat() has been called at the beginning of the program.
+    """
+
+    latex_str = paper_format(paper, pt, documentclass)+LaTeX.latex_preamble+LaTeX.latex_str+r'\end{document}'
+    if filename is None:
+        pyfilename = sys.argv[0]
+        rootfilename = pyfilename.replace('.py', '')
+        tex_filename = rootfilename + '.tex'
+        pdf_filename = rootfilename + '.pdf'
+    else:
+        tex_filename = filename
+        pdf_filename = tex_filename.replace('.tex', '.pdf')
+        rootfilename = tex_filename.replace('.tex', '')
+
+    if debug:
+        print('latex file =', filename)
+
+    with open(tex_filename, 'w') as latex_file:
+        latex_file.write(latex_str)
+
+    # Clean up the latex string after printing
+    LaTeX.latex_str = ''
+
+    if pdfprog is not None:
+        sys_cmd = SYS_CMD[sys.platform]
+        pdflatex = shutil.which(pdfprog)
+
+        status = 0
+        if debug:  # Display latex excution output for debugging purposes
+            print('pdflatex path =', pdflatex)
+            # os.system(pdfprog + ' ' + filename[:-4])
+        else:  # Works for Linux don't know about Windows
+            if null:
+                status = subprocess.call([pdfprog, tex_filename, sys_cmd['null']])
+            else:
+                status = subprocess.call([pdfprog, tex_filename])
+            # os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
+
+        if evince:
+            subprocess.call([sys_cmd['evince'], pdf_filename])
+
+        # eval(input('!!!!Return to continue!!!!\n'))
+
+        if rm:
+            if debug or status != 0:  # keep the tex file if there is no pdf file
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log'])
+            else:
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log', rootfilename+'.tex'])
+        if crop:
+            if subprocess.call(['pdfcrop', pdf_filename]) == 0:
+                subprocess.call(['rm', pdf_filename])
+                subprocess.call(['mv', rootfilename+'-crop.pdf', pdf_filename])
+        if png:
+            subprocess.call(['Pdf2Png', rootfilename])
+    return
+
+
+def paper_format(paper, pt, documentclass='book'):  # Set size of paper and font size
+
+    if paper == 'letter':
+        paper_size = """
+\\documentclass[@10pt@,fleqn]{%s}
+""" % documentclass
+    else:
+        paper_size = """
+\\documentclass[@10pt@,fleqn]{%s}
+\\usepackage[vcentering]{geometry}
+""" % documentclass
+        if paper == 'landscape':
+            paper = [11, 8.5]
+        paper_size += '\\geometry{papersize={' + str(paper[0]) + \
+                      'in,' + str(paper[1]) + 'in},total={' + str(paper[0] - 1) + \
+                      'in,' + str(paper[1] - 1) + 'in}}\n'
+
+    paper_size = paper_size.replace('@10pt@', pt)
+
+    return paper_size
+
+
+def gPrint_Function():
+    """ Print out the source of the current function """
+
+    tmp_str = inspect.getsource(inspect.currentframe().f_back)
+    if LaTeX.latex_flg:
+        LaTeX.latex_str += r'\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,backgroundcolor=\color{gray},frame=single]%s\end{lstlisting}\text{Code Output:}' % tmp_str
+    else:
+        print('\n' + 80 * '*')
+        print(tmp_str)
+        print('Code output:\n')
+    return
-- 
2.43.0


From fc26814f92f592337d03c6c6cbb13b26e48cbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 18/53] fix: grade parts, scalar part and coefficients of a
 multivector in base representation

scalar() and blade_coefs() silently answered for the geometric-product symbols
(`b.scalar()` differed from `b.blade_rep().scalar()`), grade(), even(), odd(),
g_invol(), get_coefs(), components() and reflections raised KeyError.
---
 galgebra/ga.py |  2 +-
 galgebra/mv.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 17627c8..cc29042 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,7 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
+            A = A.blade_rep()
             A.characterise_Mv()
             Aobj = expand(A.obj)
         else:
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 8cd541b..10e2117 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1030,14 +1030,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
-        cb = metric.linear_expand_terms(self.obj)
+        cb = metric.linear_expand_terms(self.blade_rep().obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
 
@@ -1053,7 +1053,7 @@ class Mv(printer.GaPrintable):
         """
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
-        for coef, blade in metric.linear_expand_terms(self.obj):
+        for coef, blade in metric.linear_expand_terms(self.blade_rep().obj):
             if coef == S.Zero:
                 continue  # TODO: why does expansion return this?
             try:
@@ -1080,7 +1080,7 @@ class Mv(printer.GaPrintable):
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         blade_lst = [x.obj for x in blade_lst]
-        coefs, bases = metric.linear_expand(self.obj)
+        coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
             if blade in bases:
@@ -1096,7 +1096,7 @@ class Mv(printer.GaPrintable):
         """
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
-        for coef, base in metric.linear_expand_terms(self.obj):
+        for coef, base in metric.linear_expand_terms(self.blade_rep().obj):
             if base in bases_lst:
                 obj += coef * base
         return Mv(obj, ga=self.Ga)
@@ -1126,11 +1126,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
-- 
2.43.0


From 2b9b323fd7d5097b84cfdaf6435ea1325deb3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 19/53] fix: apply a linear transformation to a multivector in
 base representation

The symbols of geometric products were left unmapped.
---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index a85596a..0a2e68d 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -428,7 +428,7 @@ class Lt(printer.GaPrintable):
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From e640d5ed91a20826c1d1dd23e372ef7aea22d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 20/53] fix: Simp.applymv() applies the profile instead of
 raising NameError

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 6233ed6..056c983 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -314,7 +314,7 @@ class Simp:
 
     @staticmethod
     def applymv(mv):
-        return Mv(Simp.apply(mv.obj), ga=mv.Ga)
+        return type(mv)(Simp.apply(mv.obj), ga=mv.Ga)
 
 
 class Metric(object):
-- 
2.43.0


From 6067fa3557e1646ef7e3ce2bb48bac0b604269af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 21/53] fix: Dop.TSimplify() accepts multivector coefficients
 and keeps the side it acts on

---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 10e2117..fb55559 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1809,8 +1809,8 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (metric.Simp.applymv(coef), pdiff) for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
-- 
2.43.0


From a9acbf7a5535d0745e55278a69d67605c4afaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 22/53] fix: adding a Dop and a multivector of another algebra
 is refused

It was silently accepted with the foreign coefficients reinterpreted, while
Dop + Dop and Dop * Mv of different algebras are refused.
---
 galgebra/mv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index fb55559..1ac827b 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1723,10 +1723,14 @@ class Dop(dop._BaseDop):
             if isinstance(dop1, Dop):
                 if not isinstance(dop2, Mv):
                     dop2 = dop1.Ga.mv(dop2)
+                elif dop1.Ga != dop2.Ga:
+                    raise ValueError('In Dop.Add Dop and Mv arguments are not from same geometric algebra')
                 dop2 = Dop([(dop2, dop.Pdop({}))], cmpflg=dop1.cmpflg, ga=dop1.Ga)
             elif isinstance(dop2, Dop):
                 if not isinstance(dop1, Mv):
                     dop1 = dop2.Ga.mv(dop1)
+                elif dop1.Ga != dop2.Ga:
+                    raise ValueError('In Dop.Add Dop and Mv arguments are not from same geometric algebra')
                 dop1 = Dop([(dop1, dop.Pdop({}))], cmpflg=dop2.cmpflg, ga=dop2.Ga)
             else:
                 raise TypeError("Neither argument is a Dop instance")
-- 
2.43.0


From ca508dae56713df49512a7c046bb33a810cda333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 23/53] fix: algebras created by different threads at the same
 time get different names

---
 galgebra/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 056c983..888e981 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -3,6 +3,7 @@ Metric Tensor and Derivatives of Basis Vectors.
 """
 
 import copy
+import itertools
 import warnings
 from typing import List, Optional
 
@@ -366,7 +367,7 @@ class Metric(object):
         systems or for calculations with general metric.
     """
 
-    count = 1
+    count = itertools.count(1)  # next() on it is atomic, also between threads
 
     @staticmethod
     def dot_orthogonal(V1, V2, g=None):
@@ -707,8 +708,7 @@ class Metric(object):
             Sign of square of pseudo-scalar, default is '-'
         """
 
-        self.name = 'GA' + str(Metric.count)
-        Metric.count += 1
+        self.name = 'GA' + str(next(Metric.count))
 
         if not isinstance(basis, str):
             raise TypeError('"' + str(basis) + '" must be string')
-- 
2.43.0


From b0aed4f2b651d08b259602f2d619339cdb39ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 24/53] fix: GAeval() parenthesises every expression in the
 declared order

---
 galgebra/_utils/parser.py | 213 ++++++++++----------------------------
 1 file changed, 56 insertions(+), 157 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..392c389 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -1,168 +1,67 @@
 """ A private module to parse multivector expressions """
 import re
-from typing import List
-
-
-# The `#` character is included because we generate tokens containing it in
-# _parse_paren.
-_operand_re = r"([A-Za-z0-9\_\#]+)"
-
-_operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
-    '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
-    '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
-}
-
-
-def _contains_interval(interval1, interval2):  # interval1 inside interval2
-    if interval1[0] > interval2[0] and interval1[1] < interval2[1]:
-        return True
-    else:
-        return False
-
-
-# counter to generate unique tokens
-_parse_paren_calls = 0
-
-
-def _parse_paren(line):
-    global _parse_paren_calls
-    _parse_paren_calls += 1
-
-    if ('(' not in line) or (')' not in line):
-        return [[[line]]]
-    level = 0
-    max_level = 0
-    ich = 0
-    paren_lst = []
-    for ch in line:
-        if ch == '(':
-            level += 1
-            paren_lst.append([level, ich])
-        if ch == ')':
-            if level < 1:
-                raise ValueError('Mismathed Parenthesis in: ' + line + '\n')
-            paren_lst.reverse()
-            iparen = 0
-            for elem in paren_lst:
-                if elem[0] == level:
-                    paren_lst[iparen].append(ich)
-                    break
-                iparen += 1
-            paren_lst.reverse()
-            level -= 1
-        max_level = max(max_level, level)
-        ich += 1
-    if level != 0:
-        raise ValueError('Mismatched Parenthesis in: ' + line + '\n')
-    if max_level > 0:
-        level_lst = []
-        for _x in range(max_level + 1):
-            level_lst.append([])
-        for group in paren_lst:
-            level_lst[group[0]].append(group[1:])
-        ilevel = max_level
-        while ilevel > 1:
-            level = level_lst[ilevel]
-            level_down = level_lst[ilevel - 1]
-            igroup = 0
-            for group in level:
-                igroup_down = 0
-                for group_down in level_down:
-                    if _contains_interval(group, group_down):
-                        level_lst[ilevel][igroup].append(igroup_down)
-                    igroup_down += 1
-                igroup += 1
-            ilevel -= 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                token = '#' + str(_parse_paren_calls) + '_' + str(ilevel) + '_' + str(igroup) + '#'
-                level_lst[ilevel][igroup].append(line[group[0]:group[1] + 1])
-                level_lst[ilevel][igroup].append(token)
-                igroup += 1
-            ilevel += 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                group.append(group[-2])
-                level_lst[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        ilevel = max_level
-        while ilevel > 1:
-            igroup = 0
-            for group in level_lst[ilevel]:
-                group_down = level_lst[ilevel - 1][group[2]]
-                replace_text = group_down[-1].replace(group[-3], group[-2])
-                level_lst[ilevel - 1][group[2]][-1] = replace_text
-                igroup += 1
-            ilevel -= 1
-        for group in level_lst[1]:
-            line = line.replace(group[2], group[3])
-        ilevel = 1
-        level_lst[0] = [[line]]
-    return level_lst
-
-
-def _unparse_paren(level_lst):
-    line = level_lst[0][0][0]
-    for level in level_lst[1:]:
-        for group in level:
-            new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
-                new_string = new_string[1:-1]
-            line = line.replace(group[-2], new_string)
-    return line
-
-
-def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
-
-
-def _add_paren(line, re_exprs):
-    paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
-        paren_flg = True
-        line = line[1:-1]
-    if ('(' in line) or (')' in line):
-        line_levels = _parse_paren(line)
-        ilevel = 0
-        for level in line_levels:
-            igroup = 0
-            for group in level:
-                group[-1] = re.sub(re_exprs, _sub_paren, group[-1])
-                line_levels[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        line = _unparse_paren(line_levels)
+from typing import Iterator, List
+
+
+_operators = ('<>|', '^', '*')
+
+_closing = {'(': ')', '[': ']'}
+
+_token_re = re.compile(r'[A-Za-z0-9_.]+|\*\*|<<|>>|[<>]=|.', re.DOTALL)
+
+
+def _add_paren(run: List[str], op_order: List[str]) -> str:
+    """
+    Parenthesize ``[operand, operator, operand, ...]``.
+
+    Operators of equal precedence are applied from left to right.
+    """
+    for op_group in op_order:
+        merged = run[:1]
+        for op, operand in zip(run[1::2], run[2::2]):
+            if op in op_group:
+                merged[-1] = '(%s%s%s)' % (merged[-1], op, operand)
+            else:
+                merged += [op, operand]
+        run = merged
+    return ''.join(run)
+
+
+def _parse_group(tokens: Iterator[str], op_order: List[str], line: str, closing: str = '') -> str:
+    """ Parenthesize up to the end of the line, or to the closing parenthesis """
+    text = ''
+    run = ['']
+    for token in tokens:
+        if token in _closing:
+            run[-1] += token + _parse_group(tokens, op_order, line, _closing[token]) + _closing[token]
+        elif token in _closing.values():
+            if token != closing:
+                break
+            return text + _add_paren(run, op_order)
+        elif token in ('<', '>', '|', '^', '*') and run[-1]:
+            run += [token, '']
+        elif (
+            re.match('[A-Za-z0-9_.]', token)
+            # these bind tighter than any of the operators above
+            or token in ('**', '/', '~')
+            # a sign after an operator
+            or token in ('+', '-') and run != [''] and run[-1][-1:] in ('', '*', '/')
+        ):
+            run[-1] += token
+        else:
+            text += _add_paren(run, op_order) + token
+            run = ['']
     else:
-        line = re.sub(re_exprs, _sub_paren, line)
-    if paren_flg:
-        line = '(' + line + ')'
-    return line
+        if not closing:
+            return text + _add_paren(run, op_order)
+    raise ValueError('Mismatched Parenthesis in: ' + line + '\n')
 
 
 def validate_op_order(op_order: List[str]) -> None:
-    if not all(op in _operator_res for op in op_order):
+    if not all(op in _operators for op in op_order):
         raise ValueError("Illegal operator")
 
 
 def parse_line(line: str, op_order: List[str]) -> str:
     line = line.replace(' ', '')
-    level_lst = _parse_paren(line)
-    ilevel = 0
-    for level in level_lst:
-        igroup = 0
-        for group in level:
-            string = group[-1]
-            for op in op_order:
-                string = _add_paren(string, _operator_res[op])
-            level_lst[ilevel][igroup][-1] = string
-            igroup += 1
-        ilevel += 1
-    line = _unparse_paren(level_lst)
-    return line
+    return _parse_group(iter(_token_re.findall(line)), op_order, line)
-- 
2.43.0


From 7c4eaeb7c121cc7ae8973d0b1e4e91dab0ace3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 25/53] fix: set_coef() accepts a base-representation
 multivector of an orthogonal algebra

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 1ac827b..2951b70 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1270,7 +1270,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.is_blade_rep:
+        if self.is_blade_rep or self.Ga.is_ortho:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
-- 
2.43.0


From a1965752f59eedc168761be776f0e6030512b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 26/53] fix: pure_grade() of a mixed multivector is minus its
 maximum grade

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 2951b70..9ae2607 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1544,7 +1544,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 2d4aa41d9f49e0764a400bf0d90c25c10be5a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 27/53] fix: base_rep() and blade_rep() return a multivector of
 their own

---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 9ae2607..d939c61 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -452,7 +452,7 @@ class Mv(printer.GaPrintable):
     def base_rep(self) -> 'Mv':
         """ Express as a linear combination of geometric products """
         if not self.is_blade_rep:
-            return self
+            return copy.copy(self)
 
         b = copy.copy(self)
         b.obj = self.Ga.blade_to_base_rep(self.obj)
@@ -462,7 +462,7 @@ class Mv(printer.GaPrintable):
     def blade_rep(self) -> 'Mv':
         """ Express as a linear combination of blades """
         if self.is_blade_rep:
-            return self
+            return copy.copy(self)
 
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
-- 
2.43.0


From 9987245fc3a730ebc53f89ba254bf9653681cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 28/53] fix: is_blade() and pure_grade() answer for
 multivectors in base representation

---
 galgebra/mv.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index d939c61..44ca00b 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -114,6 +114,14 @@ class Mv(printer.GaPrintable):
         else:
             raise ValueError('Operation ' + op + 'not allowed in Mv.Mul!')
 
+    def _forget(self) -> None:
+        # everything known about the old value is out of date
+        self.char_Mv = False
+        self.i_grade = None
+        self.grades = None
+        self.blade_flg = None
+        self.versor_flg = None
+
     def characterise_Mv(self) -> None:
         if self.char_Mv:
             return
@@ -466,7 +474,10 @@ class Mv(printer.GaPrintable):
 
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
+        # what was known about the base representation does not include grades
+        b._forget()
         b.is_blade_rep = True
+        b.characterise_Mv()
         return b
 
     def __hash__(self) -> int:
@@ -951,6 +962,9 @@ class Mv(printer.GaPrintable):
         if self.blade_flg is not None:
             return self.blade_flg
         self.characterise_Mv()
+        if self.grades is None:  # not known for a base representation
+            self.blade_flg = self.blade_rep().is_blade()
+            return self.blade_flg
         # Not grade-homogeneous → not a blade
         if self.i_grade is None:
             self.blade_flg = False
@@ -1280,12 +1294,7 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
-        # everything known about the old value is out of date
-        self.char_Mv = False
-        self.i_grade = None
-        self.grades = None
-        self.blade_flg = None
-        self.versor_flg = None
+        self._forget()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
@@ -1544,6 +1553,8 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
+        if self.grades is None:  # not known for a base representation
+            return self.blade_rep().pure_grade()
         return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
-- 
2.43.0


From 821242f24137ed981992015f66d5f4ff8f7fe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 29/53] fix: diff(), pdiff() and pDiff() answer on
 coordinate-dependent bases for every representation of the field

---
 galgebra/ga.py | 5 +++--
 galgebra/mv.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index cc29042..64efc88 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2040,10 +2040,11 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        A = self.mv(A).blade_rep()
+        dA = self.mv(expand(diff(A.obj, coord)))
 
         if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
-            B = self.remove_scalar_part(A)
+            B = self.remove_scalar_part(expand(A.obj))
             if B != S.Zero:
                 if isinstance(B, Add):
                     args = B.args
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 44ca00b..b963d33 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1192,6 +1192,7 @@ class Mv(printer.GaPrintable):
     # ## GSG code ends ###
 
     def diff(self, coord) -> 'Mv':
+        self = self.blade_rep()
         if self.Ga.coords is None:
             obj = diff(self.obj, coord)
         elif coord not in self.Ga.coords:
@@ -1204,15 +1205,15 @@ class Mv(printer.GaPrintable):
                 for x_coord in self.Ga.coords:
                     f = self.Ga.par_coords[x_coord]
                     if f != S.Zero:
-                        tmp1 = self.Ga.pDiff(self.obj, x_coord)
+                        tmp1 = self.Ga.pDiff(self, x_coord)
                         tmp2 = diff(f, coord)
                         obj += tmp1 * tmp2
         else:
-            obj = self.Ga.pDiff(self.obj, coord)
+            obj = self.Ga.pDiff(self, coord)
         return Mv(obj, ga=self.Ga)
 
     def pdiff(self, var) -> 'Mv':
-        return Mv(self.Ga.pDiff(self.obj, var), ga=self.Ga)
+        return Mv(self.Ga.pDiff(self, var), ga=self.Ga)
 
     def Grad(self, coords, mode: str = '*', left: bool = True) -> 'Mv':
         """
-- 
2.43.0


From 6a9e2f7dd557f933e4315d69e2f424789f0bc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 30/53] fix: the components of a left-acting differential
 operator act to the left

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index b963d33..5be195f 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1877,7 +1877,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From 72ccfbc0763ae5b2916094b3105450b9d369300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 31/53] fix: a submanifold can be defined by a vector function

---
 galgebra/ga.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 64efc88..8e54b9a 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2287,13 +2287,9 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
-                # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+            # Metric tensor from dot products of basis vectors
+            g = Matrix([[trigsimp((b1 | b2).scalar()) for b2 in self.ebasis]
+                        for b1 in self.ebasis])
 
         else:
 
-- 
2.43.0


From 1fce6d37376e526dcf51b4baf95543317b241984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 32/53] fix: a submanifold map may reuse the coordinate names
 of the base manifold

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 8e54b9a..5d6c480 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2315,7 +2315,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From 02475cfea08600888b6e19ae38d9b0f08a2cb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 33/53] fix: a multivector differential operator equals itself

---
 galgebra/mv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5be195f..0ae2709 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1865,7 +1865,8 @@ class Dop(dop._BaseDop):
                 return NotImplemented
 
             diff = self - other
-            return len(diff.terms) == 0
+            zero = self.Ga.mv(S.Zero)
+            return all(self.Ga.mv(coef) == zero for coef, pdiff in diff.terms)
         else:
             return NotImplemented
 
-- 
2.43.0


From 796e9d4a3e648c3ac1e2714db65a8f1df57b7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 34/53] fix: products combine negative rational coefficients

---
 galgebra/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 5d6c480..b8e7708 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -113,6 +113,9 @@ def update_and_substitute(expr1, expr2, mul_dict):
     """
     coefs1, bases1 = metric.linear_expand(expr1)
     coefs2, bases2 = metric.linear_expand(expr2)
+    # linear_expand splits a coefficient -x/2 into the unevaluated -1*(1/2)*x
+    coefs1 = [Mul(*coef.args) if coef.is_Mul else coef for coef in coefs1]
+    coefs2 = [Mul(*coef.args) if coef.is_Mul else coef for coef in coefs2]
     expr = S.Zero
     for coef1, base1 in zip(coefs1, bases1):
         for coef2, base2 in zip(coefs2, bases2):
-- 
2.43.0


From 535ef289a794b696072a19082647dcca91d0fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 35/53] fix: a dictionary defining a linear transformation
 accepts multivectors and omitted (zero) images

---
 galgebra/lt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 0a2e68d..d1f1ca8 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -307,8 +307,12 @@ class Lt(printer.GaPrintable):
         self.Vqform = None
 
         if isinstance(mat_rep, dict):         # Dictionary input
-            for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+            for key, image in mat_rep.items():
+                if isinstance(key, mv.Mv):
+                    key = key.obj
+                self.lt_dict[key] = image.obj if isinstance(image, mv.Mv) else image
+            for base in self.Ga.basis:
+                self.lt_dict.setdefault(base, S.Zero)
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 50d7868a444fbc4dc479d6a0a840c24731ca1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 36/53] fix: a named Mlt has its own number of slots whatever
 slots exist already

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index d1f1ca8..4b9306a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -831,7 +831,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From 65892017373ee8cdf84a17f29d21441dc6623909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 37/53] fix: vector-valued multilinear functions keep their
 value in sums and products

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 4b9306a..9119c37 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -811,7 +811,7 @@ class Mlt(printer.GaPrintable):
         #  symbols are sympy real scalar symbols
         self.Ga = Ga
         if isinstance(f, mv.Mv):
-            if f.is_vector():  # f is vector T = f | a1
+            if f.is_vector() and not f.obj.has(*Ga._mlt_acoefs):  # f is vector T = f | a1
                 self.nargs = 1
                 Mlt.increment_slots(1, Ga)
                 self.fvalue = (f | Ga._mlt_a[0]).obj
-- 
2.43.0


From b789872b967e4820f6a35d457b21096a82768875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 38/53] fix: outer and inner products of scalar-valued Mlt

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 9119c37..404f1b3 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -903,7 +903,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
@@ -912,7 +912,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
-- 
2.43.0


From 1168ff506a021363e1efa2ee9f9ac13e752483bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 39/53] fix: print and expand every Mlt (single terms, zero,
 multivector values)

---
 galgebra/lt.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 404f1b3..2b7b6bd 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -12,7 +12,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, diff, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, diff, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -709,9 +709,12 @@ class Mlt(printer.GaPrintable):
         return print_obj._print(self.fvalue)
 
     def _latex(self, print_obj):
-        if self.nargs <= 1:
-            return print_obj._print(self.fvalue)
-        expr_lst = Mlt.expand_expr(self.fvalue, self.Ga)
+        fvalue = self.fvalue
+        if isinstance(fvalue, mv.Mv) and fvalue.is_scalar():
+            fvalue = fvalue.obj
+        if self.nargs <= 1 or isinstance(fvalue, mv.Mv):
+            return print_obj._print(fvalue)
+        expr_lst = Mlt.expand_expr(fvalue, self.Ga)
         latex_str = '\\begin{aligned} '
         first = True
         lcnt = print_obj._settings['galgebra_mlt_lcnt']
@@ -772,10 +775,10 @@ class Mlt(printer.GaPrintable):
     def expand_expr(expr, ga):
         lst_expr = []
         expr = expand(expr)
-        for term in expr.args:
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
@@ -994,7 +997,7 @@ class Mlt(printer.GaPrintable):
         return CD
 
     def expand(self):
-        self.fvalue = expand(self.fvalue)
+        self.fvalue = self.fvalue.expand() if isinstance(self.fvalue, mv.Mv) else expand(self.fvalue)
         return self
 
     def comps(self):
-- 
2.43.0


From 8dc4552ed7bce94b502142c9e37fa1c98ba69c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 40/53] fix: linear transformations given by a versor can be
 added and subtracted

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 2b7b6bd..99747d1 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -346,7 +346,7 @@ class Lt(printer.GaPrintable):
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From 4279e01181f3b4040651fb04f6103a39fd5fa022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 41/53] fix: a linear function whose images are vectors after
 simplification defines a linear transformation

---
 galgebra/lt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 99747d1..29df59c 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -368,6 +368,8 @@ class Lt(printer.GaPrintable):
             self.lt_dict = {}
             for base in self.Ga.basis:
                 out = F(mv.Mv(base, ga=self.Ga))
+                if not out.is_vector():     # other grades may cancel
+                    out = out.simplify()
                 if not out.is_vector() and not out.is_zero():
                     raise ValueError('{} must return vectors'.format(F))
                 self.lt_dict[base] = out.obj
-- 
2.43.0


From 309b999c1b92bdd1ecd24d15e1acf461c5256cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 42/53] fix: enhance_print(None) disables coloring again

---
 galgebra/printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index b5a5ee2..02c917f 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,11 +248,16 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    colors = dict(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
     )
+    GaPrinter.set_global_settings(**colors)
+    # sympy ignores settings that are None
+    for name, color in colors.items():
+        if color is None:
+            GaPrinter._global_settings.pop(name, None)
 
 
 # patch the docstring using our known color names
-- 
2.43.0


From 13a6725acca27e98bf2a2f9e23a11a03fa47c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 43/53] fix: xpdf(debug=True) keeps the captured output when
 its messages cannot be printed

---
 galgebra/printer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 02c917f..3003cb6 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1008,19 +1008,19 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
 
     sys_cmd = SYS_CMD[sys.platform]
 
-    GaLatexPrinter.restore()
-    captured = GaLatexPrinter.latex_str
-    latex_str = tex(paper=paper, debug=debug, prog=prog, pt=pt)
-
     if filename is None:
         pyfilename = sys.argv[0]
         rootfilename = pyfilename.replace('.py', '')
         filename = rootfilename + '.tex'
 
-    if debug:
-        print('latex file =', filename)
+    GaLatexPrinter.restore()
+    captured = GaLatexPrinter.latex_str
+    latex_str = tex(paper=paper, debug=debug, prog=prog, pt=pt)
 
     try:
+        if debug:
+            print('latex file =', filename)
+
         with open(filename, 'w') as latex_file:
             latex_file.write(latex_str)
     except BaseException:
-- 
2.43.0


From b2654b09255a51ac2be71ade1cfb6355d67e5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 44/53] fix: xpdf and gxpdf touch only the files of their own
 report, whatever its name

---
 galgebra/gprinter.py | 12 +++++-------
 galgebra/printer.py  | 39 +++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index 4298f76..5c61fb3 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -1,4 +1,4 @@
-from .printer import GaLatexPrinter, isinteractive, Format_cnt, latex
+from .printer import GaLatexPrinter, isinteractive, Format_cnt, latex, _without_ext
 import subprocess
 import sys
 import shutil
@@ -214,14 +214,12 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
 
     latex_str = paper_format(paper, pt, documentclass)+LaTeX.latex_preamble+LaTeX.latex_str+r'\end{document}'
     if filename is None:
-        pyfilename = sys.argv[0]
-        rootfilename = pyfilename.replace('.py', '')
+        rootfilename = _without_ext(sys.argv[0], '.py')
         tex_filename = rootfilename + '.tex'
-        pdf_filename = rootfilename + '.pdf'
     else:
         tex_filename = filename
-        pdf_filename = tex_filename.replace('.tex', '.pdf')
-        rootfilename = tex_filename.replace('.tex', '')
+        rootfilename = _without_ext(tex_filename, '.tex')
+    pdf_filename = rootfilename + '.pdf'
 
     if debug:
         print('latex file =', filename)
@@ -256,7 +254,7 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
             if debug or status != 0:  # keep the tex file if there is no pdf file
                 subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log'])
             else:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log', rootfilename+'.tex'])
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log', tex_filename])
         if crop:
             if subprocess.call(['pdfcrop', pdf_filename]) == 0:
                 subprocess.call(['rm', pdf_filename])
diff --git a/galgebra/printer.py b/galgebra/printer.py
index 3003cb6..adf5750 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -85,7 +85,9 @@ import builtins
 import functools
 import inspect
 import re
+import shlex
 import shutil
+import subprocess
 import warnings
 from collections import ChainMap
 
@@ -991,6 +993,16 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     return latex_str
 
 
+def _without_ext(filename: str, ext: str) -> str:
+    """ Remove the extension ``ext``, if ``filename`` has it """
+    return filename[:-len(ext)] if filename.endswith(ext) else filename
+
+
+def _shell_quote(filename: str) -> str:
+    """ Quote a file name for use in a command line """
+    return shlex.quote(filename) if os.name == 'posix' else subprocess.list2cmdline([filename])
+
+
 def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug=False, pt='10pt', pdfprog='pdflatex'):
 
     """
@@ -1009,9 +1021,8 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
     sys_cmd = SYS_CMD[sys.platform]
 
     if filename is None:
-        pyfilename = sys.argv[0]
-        rootfilename = pyfilename.replace('.py', '')
-        filename = rootfilename + '.tex'
+        filename = _without_ext(sys.argv[0], '.py') + '.tex'
+    rootfilename = _without_ext(filename, '.tex')
 
     GaLatexPrinter.restore()
     captured = GaLatexPrinter.latex_str
@@ -1039,27 +1050,31 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
         print('pdflatex path =', pdflatex)
 
     if pdfprog is not None:
+        root = _shell_quote(rootfilename)
+        pdf = _shell_quote(rootfilename + '.pdf')
+        aux_log = _shell_quote(rootfilename + '.aux') + ' ' + _shell_quote(rootfilename + '.log')
+
         if debug:  # Display latex excution output for debugging purposes
-            status = os.system(pdfprog + ' ' + filename[:-4])
+            status = os.system(pdfprog + ' ' + root)
         else:  # Works for Linux don't know about Windows
-            status = os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
+            status = os.system(pdfprog + ' ' + root + sys_cmd['null'])
 
-        print_cmd = sys_cmd['evince'] + ' ' + filename[:-4] + '.pdf ' + sys_cmd['&']
+        print_cmd = sys_cmd['evince'] + ' ' + pdf + ' ' + sys_cmd['&']
         print(print_cmd)
 
         os.system(print_cmd)
         input('!!!!Return to continue!!!!\n')
 
         if debug or status != 0:  # keep the tex file if there is no pdf file
-            os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log')
+            os.system(sys_cmd['rm'] + ' ' + aux_log)
         else:
-            os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log ' + filename[:-4] + '.tex')
+            os.system(sys_cmd['rm'] + ' ' + aux_log + ' ' + _shell_quote(filename))
         if crop:
-            if os.system('pdfcrop ' + filename[:-4] + '.pdf') == 0:
-                os.remove(filename[:-4] + '.pdf')
-                os.rename(filename[:-4] + '-crop.pdf', filename[:-4] + '.pdf')
+            if os.system('pdfcrop ' + pdf) == 0:
+                os.remove(rootfilename + '.pdf')
+                os.rename(rootfilename + '-crop.pdf', rootfilename + '.pdf')
         if png:
-            os.system('Pdf2Png ' + filename[:-4])
+            os.system('Pdf2Png ' + root)
     return
 
 
-- 
2.43.0


From b5fb67b4c3f49330e3f00166115cc191395e170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 45/53] fix: refuse multilinear maps and Lt * Mv of another
 algebra

---
 galgebra/lt.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 29df59c..09b8ef1 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -483,6 +483,8 @@ class Lt(printer.GaPrintable):
                 self_mul_LT[key] = metric.collect(expand(self_mul_LT[key]), self.Ga.basis)
             return Lt(self_mul_LT, ga=self.Ga)
         else:
+            if isinstance(LT, mv.Mv) and self.Ga != LT.Ga:
+                raise ValueError("Attempting multiplication of Lt and Mv from different geometric algebras")
             self_mul_LT = {}
             for key in self.lt_dict:
                 self_mul_LT[key] = LT * self.lt_dict[key]
@@ -875,7 +877,13 @@ class Mlt(printer.GaPrintable):
                     sub_lst.append((aij, (r_base | x).scalar()))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
+    def _check_same_ga(self, X, operation):
+        if isinstance(X, (Mlt, mv.Mv)) and self.Ga != X.Ga:
+            raise ValueError('Attempting {} of Mlt and {} from different geometric algebras'.format(
+                operation, type(X).__name__))
+
     def __add__(self, X):
+        self._check_same_ga(X, 'addition')
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
                 return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
@@ -885,6 +893,7 @@ class Mlt(printer.GaPrintable):
             raise TypeError('In Mlt add second argument not an Mkt\n')
 
     def __sub__(self, X):
+        self._check_same_ga(X, 'subtraction')
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
                 return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
@@ -894,6 +903,7 @@ class Mlt(printer.GaPrintable):
             raise TypeError('In Mlt sub second argument not an Mlt\n')
 
     def __mul__(self, X):
+        self._check_same_ga(X, 'multiplication')
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
@@ -905,6 +915,7 @@ class Mlt(printer.GaPrintable):
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
+        self._check_same_ga(X, 'outer product')
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
@@ -914,6 +925,7 @@ class Mlt(printer.GaPrintable):
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
+        self._check_same_ga(X, 'inner product')
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-- 
2.43.0


From bf738301918c39cf43c7f44b766c9686dff1c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 46/53] fix: keep the slot variables of multilinear maps
 consistent when threads or an interrupt meet in increment_slots

---
 galgebra/lt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 09b8ef1..34e0209 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -696,10 +696,13 @@ class Mlt(printer.GaPrintable):
                 a = Ga.mv('a_' + str(i + 1), 'vector')
                 #  Slot variable coefficients a_j__k for purpose of differentiation
                 coefs = a.get_coefs(1)
-                #  Append new slot variable a_j and its coefficients
-                Ga._mlt_a.append(a)
-                Ga._mlt_pdiffs.append(coefs)
-                Ga._mlt_acoefs += coefs
+                #  Store new slot variable a_j and its coefficients. Assigning at
+                #  a fixed position, with the slot variable last, keeps the lists
+                #  consistent if another thread creates the same slot at the same
+                #  time or if a previous attempt was interrupted.
+                Ga._mlt_acoefs[i * Ga.n:(i + 1) * Ga.n] = coefs
+                Ga._mlt_pdiffs[i:i + 1] = [coefs]
+                Ga._mlt_a[i:i + 1] = [a]
 
     @staticmethod
     def extact_basis_indexes(Ga):
-- 
2.43.0


From c8b473959a883a0c542f5779dda53dd0e5fb6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 47/53] fix: accept immutable and sparse matrices as metric

---
 galgebra/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 888e981..7620f67 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -10,7 +10,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol
+    Add, simplify, Expr, MatrixBase, Abs, Function, MatrixSymbol
 )
 
 from . import printer
@@ -787,8 +787,8 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g.copy()  # normalize_metric() writes to self.g
+                if isinstance(g, MatrixBase):  # also immutable and sparse matrices
+                    self.g = Matrix(g)  # a copy, normalize_metric() writes to self.g
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 3c30c7444d399875158b85c2787d72fca6e4ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 48/53] fix: Pdop keeps a copy of the dictionary it is given

---
 galgebra/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 19f3226..c2fd59d 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -325,7 +325,7 @@ class Pdop(_BaseDop):
             __arg = {}
 
         if isinstance(__arg, dict):  # Pdop defined by dictionary
-            self.pdiffs = __arg
+            self.pdiffs = dict(__arg)  # the caller may change its own
         elif isinstance(__arg, Symbol):  # First order derivative with respect to symbol
             self.pdiffs = {__arg: 1}
         else:
-- 
2.43.0


From aed22cc54cdd0fe0ab54782c71c099dea4c660eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 49/53] fix: LaTeX of a differential operator printed a bare
 basis blade twice

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 0ae2709..972b85a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1964,7 +1964,7 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
                     if str_sdop[1:] != '1':
                         s += ' ' + str_sdop[1:]
-- 
2.43.0


From ffea97443deffe93c9fb71b21718a5a7abbb33f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 50/53] fix: differential operators with coefficients in base
 representation could not be printed or split

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 972b85a..67072a6 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1889,7 +1889,7 @@ class Dop(dop._BaseDop):
 
         for coef, pdiff in self.terms:
             if isinstance(coef, Mv) and not coef.is_scalar():
-                for mv_coef, mv_base in metric.linear_expand_terms(coef.obj):
+                for mv_coef, mv_base in metric.linear_expand_terms(coef.blade_rep().obj):
                     if mv_base in bases:
                         index = bases.index(mv_base)
                         coefs[index] += dop.Sdop([(mv_coef, pdiff)])
-- 
2.43.0


From be30682e5be8669504f0d87903cc567cb1b454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 51/53] fix: LaTeX with fold_frac_powers left out the brackets
 of a base

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index adf5750..756dcb8 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -556,7 +556,7 @@ class GaLatexPrinter(LatexPrinter):
             and expr.exp.is_Rational \
                 and expr.exp.q != 1:
             base, p, q = self._print(expr.base), expr.exp.p, expr.exp.q
-            if mode:
+            if mode or self._needs_brackets(expr.base):
                 return r"{\left ( %s \right )}^{%s/%s}" % (base, p, q)
             else:
                 return r"%s^{%s/%s}" % (base, p, q)
-- 
2.43.0


From f62e187efb7117a2312e69f436b57b641bb91c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 52/53] fix: derivative of a field by a variable that is not a
 coordinate on curvilinear coordinates

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b8e7708..3344946 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2046,7 +2046,7 @@ class Ga(metric.Metric):
         A = self.mv(A).blade_rep()
         dA = self.mv(expand(diff(A.obj, coord)))
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
+        if self.connect_flg and self.dslot == -1 and coord in self.coords and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(expand(A.obj))
             if B != S.Zero:
                 if isinstance(B, Add):
-- 
2.43.0


From 2ffbac920af933f64ca2f7b0f35b37136aeac4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 53/53] fix: the identity operator returned its argument itself

---
 galgebra/dop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index c2fd59d..ac82209 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -347,6 +347,9 @@ class Pdop(_BaseDop):
         Calculate nth order partial derivative (order defined by
         self) of expression
         """
+        if not any(self.pdiffs.values()) and not isinstance(arg, (Expr, numbers.Number)):
+            # identity operator, the result must not be the argument itself
+            return copy.copy(arg)
         for x, n in self.pdiffs.items():
             arg = _basic_diff(arg, x, n)
         return arg
-- 
2.43.0

