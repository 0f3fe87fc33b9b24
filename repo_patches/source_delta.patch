From 5c7188347cd121ead516a4e5286ea09cf98d9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 01/22] fix: negative powers of a Laurent monomial keep the
 sign of its coefficient only when odd

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..14c0e0c 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** abs(i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From c0a3f6d260427287bde0dee294d4976387ebf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 02/22] fix: equal polynomials print and hash the same whatever
 order they were built in

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 14c0e0c..9bb0b7f 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c,) + tuple(ans), sorted(index.items())
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
-- 
2.43.0


From 76a397b298b6f829e8fda423237bb9edbf9c215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 03/22] fix: Polynomial.divide_linear uses the class's own
 variables

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 9bb0b7f..01cee89 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.x(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.x(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From 37e84c57b07e1e8788de6e3e97443d079b3fd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 04/22] fix: Partition.from_skew terminates on the empty set of
 positions

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..9fe7b90 100644
--- a/partitions.py
+++ b/partitions.py
@@ -260,7 +260,7 @@ class Partition:
                 nu[i] = nu[i + 1] + (1 if shifted else 0)
                 mu[i] = nu[i]
         nu, mu = cls.trim(nu), cls.trim(mu)
-        while len(nu) == len(mu):
+        while nu and len(nu) == len(mu):
             nu, mu = cls.trim([a - 1 for a in nu]), cls.trim([a - 1 for a in mu])
         return nu, mu
 
-- 
2.43.0


From 30b0bfa44bc212ce54c8e9fb5591333282dd139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 05/22] fix: Partition.printables passes the shifted flag by
 name

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 9fe7b90..649a239 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From 98a4ed3cf58f0711fdff43541f2b5825a0069d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 06/22] fix: Partition.shifted_ribbons pads the trimmed inner
 shape

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 649a239..31aaa80 100644
--- a/partitions.py
+++ b/partitions.py
@@ -400,7 +400,7 @@ class Partition:
         for alpha in cls.compositions(n):
             nu, lam = cls.shifted_ribbon(alpha)
             if (tuple(nu), tuple(lam)) not in seen:
-                for x, y in generate(nu, lam):
+                for x, y in generate(list(nu), list(lam) + [0] * (len(nu) - len(lam))):
                     x = cls.trim(x)
                     y = cls.trim(y)
                     if (x, y) not in seen:
-- 
2.43.0


From d690459afb8097b2488c1b1719af3d2c57c44292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 07/22] fix: the zeroth power of a permutation is the identity

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..c3903b4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From 0d50468d01962c5cf7f036f93740ae549d39eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 08/22] fix: only unsigned fixed-point-free involutions are
 fpf-Grassmannian

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index c3903b4..d02f499 100644
--- a/permutations.py
+++ b/permutations.py
@@ -343,7 +343,7 @@ class Permutation:
         return self.get_inv_grassmannian(*self.involution_shape()) == self
 
     def is_fpf_grassmannian(self):
-        if not self.is_unsigned() and self.is_fpf_involution():
+        if not (self.is_unsigned() and self.is_fpf_involution()):
             return False
         return self._fpf_grassmannian_shape() is not None
 
-- 
2.43.0


From 8486c8791f849728f32f4ce98a04a489f734dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 09/22] fix: involution Bruhat covers skip subwords that are
 not reduced

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index d02f499..505bd5e 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1090,7 +1090,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1098,7 +1098,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From 2c9742ed5ca2395a313a3c8eb74ad71aaa25917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 10/22] fix: a word enumerator replays the cached levels it saw
 when it started

---
 permutations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index 505bd5e..929e82b 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,11 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            cached = list(HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +551,11 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            cached = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +602,11 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            cached = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From 4bb20da08ad9c6d163a7c8f5521a8da89f552221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 11/22] fix: weight tables handed to callers are copies of the
 cached ones

---
 tableaux.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tableaux.py b/tableaux.py
index fe09bf6..97f9cf5 100644
--- a/tableaux.py
+++ b/tableaux.py
@@ -725,7 +725,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard(cls, max_entry, mu, nu=(), setvalued=False):  # noqa
-        return cls._count_semistandard(max_entry, mu, nu, setvalued)
+        return cls._count_semistandard(max_entry, mu, nu, setvalued).copy()
 
     @cached_value(COUNT_SEMISTANDARD_CACHE)
     def _count_semistandard(cls, max_entry, mu, lam, setvalued):  # noqa
@@ -752,7 +752,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_marked(cls, max_entry, mu, nu=(), setvalued=False):  # noqa
-        return cls._count_semistandard_marked(max_entry, mu, nu, setvalued)
+        return cls._count_semistandard_marked(max_entry, mu, nu, setvalued).copy()
 
     @cached_value(COUNT_SEMISTANDARD_MARKED_CACHE)
     def _count_semistandard_marked(cls, max_entry, mu, lam, setvalued):  # noqa
@@ -781,7 +781,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_shifted_marked(cls, max_entry, mu, nu=(), diagonal_primes=True, setvalued=False):  # noqa
-        return cls._count_semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes, setvalued)
+        return cls._count_semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes, setvalued).copy()
 
     @cached_value(COUNT_SEMISTANDARD_SHIFTED_MARKED_CACHE)
     def _count_semistandard_shifted_marked(cls, max_entry, mu, lam, diagonal_primes, setvalued):  # noqa
@@ -811,7 +811,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_rpp(cls, max_entry, mu, nu=()):  # noqa
-        return cls._count_semistandard_rpp(max_entry, mu, nu)
+        return cls._count_semistandard_rpp(max_entry, mu, nu).copy()
 
     @cached_value(COUNT_SEMISTANDARD_RPP_CACHE)
     def _count_semistandard_rpp(cls, max_entry, mu, lam):  # noqa
@@ -830,7 +830,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_marked_rpp(cls, max_entry, mu, nu=(), diagonal_nonprimes=True):  # noqa
-        return cls._count_semistandard_marked_rpp(max_entry, mu, nu, diagonal_nonprimes)
+        return cls._count_semistandard_marked_rpp(max_entry, mu, nu, diagonal_nonprimes).copy()
 
     @cached_value(COUNT_SEMISTANDARD_MARKED_RPP_CACHE)
     def _count_semistandard_marked_rpp(cls, max_entry, mu, lam, diagonal_nonprimes):  # noqa
-- 
2.43.0


From 61d6556a2aa1ceaf9dbe859fca59f7f52e8e56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 12/22] fix: crystal strings start at the vertices with no
 incoming arrow

---
 crystals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index a700cf5..a6842b2 100644
--- a/crystals.py
+++ b/crystals.py
@@ -7,7 +7,8 @@ import subprocess
 class CrystalMixin:
 
     def istrings(self, i):
-        ans = [[x] for x in range(len(self)) if self[x].e_crystal_operator(i) is None]
+        images = {self.f_crystal_operator(x, i) for x in range(len(self))}
+        ans = [[x] for x in range(len(self)) if x not in images]
         for j in range(len(ans)):
             while True:
                 x = self.f_crystal_operator(ans[j][-1], i)
-- 
2.43.0


From 2745afc95a5b8664ae6b096663548061ae13a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 13/22] fix: a symmetric monomial and an integer can be
 subtracted and compared

---
 symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..930c75a 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -104,10 +104,10 @@ class SymmetricMonomial:
             return self.symmetric_polynomial() + other
 
     def __rsub__(self, other):
-        return self.symmetric_polynomial() * -1 + other
+        return (self - other) * -1
 
     def __sub__(self, other):
-        return self.symmetric_polynomial() + (-1 * other)
+        return self + (-1 * other)
 
     def __rmul__(self, other):
         return self * other
-- 
2.43.0


From 52de0d3f06514f39baa7849e08b4d39b7138c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 14/22] fix: functions of skew shapes moved off the diagonal
 vanish when the inner shape does not fit

---
 symmetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symmetric.py b/symmetric.py
index 930c75a..05faefe 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -420,6 +420,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def dual_stable_grothendieck_s(cls, num_variables, mu, nu=()):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
@@ -759,6 +761,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def slow_transposed_dual_stable_grothendieck_s(cls, num_variables, mu, nu=(), beta=-BETA):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
-- 
2.43.0


From e736c268dadcb99d738f7a6846c99ca75ab495cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 15/22] fix: utils provides the long names of the README

---
 utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils.py b/utils.py
index 3a68196..c3378c9 100644
--- a/utils.py
+++ b/utils.py
@@ -40,10 +40,10 @@ def shifted_ribbon(alpha):
     return tuple(mu), tuple(nu)
 
 
-s = SymmetricPolynomial.schur
-P = SymmetricPolynomial.schur_p
-Q = SymmetricPolynomial.schur_q
-S = SymmetricPolynomial.schur_s
+s = schur = SymmetricPolynomial.schur
+P = schur_P = SymmetricPolynomial.schur_p
+Q = schur_Q = SymmetricPolynomial.schur_q
+S = schur_S = SymmetricPolynomial.schur_s
 
 G = grothendieck
 GP = grothendieck_P
@@ -59,9 +59,9 @@ GP_doublebar = SymmetricPolynomial.stable_grothendieck_p_doublebar
 GQ_doublebar = SymmetricPolynomial.stable_grothendieck_q_doublebar
 GS_doublebar = SymmetricPolynomial.stable_grothendieck_s_doublebar
 
-g = SymmetricPolynomial.dual_stable_grothendieck
-gp = SymmetricPolynomial.dual_stable_grothendieck_p
-gq = SymmetricPolynomial.dual_stable_grothendieck_q
+g = dual_grothendieck = SymmetricPolynomial.dual_stable_grothendieck
+gp = dual_grothendieck_P = SymmetricPolynomial.dual_stable_grothendieck_p
+gq = dual_grothendieck_Q = SymmetricPolynomial.dual_stable_grothendieck_q
 gs = SymmetricPolynomial.dual_stable_grothendieck_s
 
 mp_g = SymmetricPolynomial.mp_dual_stable_grothendieck
-- 
2.43.0


From 9b350079aa5f26e9914c62cd7923a1923c547bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 16/22] fix: gp_free_expansion accepts functions with a
 constant term

---
 symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetric.py b/symmetric.py
index 05faefe..6314d9c 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -537,7 +537,7 @@ class SymmetricPolynomial(Vector):
             mu = max(exp)
             n = max(f).n
             c = exp[mu]
-            g = 1
+            g = SymmetricMonomial(n).symmetric_polynomial()
             for part in mu:
                 g *= cls.dual_stable_grothendieck_p(n, (part,))
             ans = cls.gp_free_expansion(f - c * g)
-- 
2.43.0


From f32480400ce984f304f6b396bc13d54df6a7a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 17/22] fix: ValuedSetTableau.in_same_group looks at the lower
 box of a vertical pair, which holds the join

---
 vst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vst.py b/vst.py
index 3983fe4..d42ce39 100644
--- a/vst.py
+++ b/vst.py
@@ -636,7 +636,7 @@ class ValuedSetTableau:
         if i == x and y + 1 == j:
             return self.in_same_group(x, y, i, j)
         if i + 1 == x and y == j:
-            return bool(self.grouping.get(i, j, default=False)) and self.tableau.get(i, j) < 0
+            return bool(self.grouping.get(x, y, default=False)) and self.tableau.get(x, y) < 0
         if i == x + 1 and y == j:
             return self.in_same_group(x, y, i, j)
         return False
-- 
2.43.0


From 2009f54df3ff4d95474bbc5cdc1048929e7dfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 18/22] fix: valued-set transitions only consult neighbouring
 boxes holding the two exchanged values

---
 vst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vst.py b/vst.py
index d42ce39..b76fd57 100644
--- a/vst.py
+++ b/vst.py
@@ -413,7 +413,7 @@ class ValuedSetTableau:
                         case = 'R5'
                         tab[x, x] = -value
                         tab[x + 1, x + 1] = value + 1
-                    if vst.grouping.get(x, x) and vst.grouping.get(x + 1, x + 2) is not None:
+                    if vst.grouping.get(x, x) and vst.tableau.get(x + 1, x + 2) in [value, -value, value + 1, -value - 1]:
                         assert case is None
                         case = 'R3'
                         grp[x, x] = 0
@@ -470,7 +470,7 @@ class ValuedSetTableau:
                         case = 'C5'
                         tab[x, x] = value + 1
                         tab[x - 1, x - 1] = -value
-                    if vst.grouping.get(x, x) and vst.grouping.get(x - 2, x - 1) is not None:
+                    if vst.grouping.get(x, x) and vst.tableau.get(x - 2, x - 1) in [value, -value, value + 1, -value - 1]:
                         assert case is None
                         case = 'C3'
                         grp[x, x] = 0
-- 
2.43.0


From 33772fde60fb0167d915a521796359564d4157f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 19/22] fix: removing boxes from a combination of shapes keeps
 the coefficients

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From af3b8a8d278d3d2df1f837279fcfe5564493ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 20/22] fix: shape operators return the zero vector, so that
 they can be composed

---
 operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.py b/operators.py
index 8616576..c987da0 100644
--- a/operators.py
+++ b/operators.py
@@ -20,7 +20,7 @@ def operator_decorator(func):
 def operator_shifted_add(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             row = Partition.find_shifted_inner_corner(mu, abs(index))
             if row is not None:
@@ -57,7 +57,7 @@ def operator_AR(n, var=yvar):  # noqa
 def operator_shifted_row_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
@@ -76,7 +76,7 @@ def operator_shifted_row_remove(index):
 def operator_shifted_column_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
-- 
2.43.0


From 0a196bcc5f4eca8b06f22236b2849f34c9529ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 21/22] fix: BoxOperator.commutator takes its second variable
 from Y, X only takes nonnegative indices

---
 boxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boxes.py b/boxes.py
index c937f47..68fd65b 100644
--- a/boxes.py
+++ b/boxes.py
@@ -1,5 +1,5 @@
 from vectors import Vector
-from polynomials import Polynomial, X
+from polynomials import Polynomial, X, Y
 
 
 def r(i):
@@ -59,7 +59,7 @@ class BoxOperator:
 
     @classmethod
     def commutator(cls, n):
-        x, y = X(1), X(-1)
+        x, y = X(1), Y(-1)
 
         lhs = BoxOperator(0)
         for i in range(n, -n - 1, -1):
-- 
2.43.0


From 726c379ee366386b2d61b7e7b9351b5bcbd1b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:51 +0000
Subject: [PATCH 22/22] fix: constant polynomials hash like the integers they
 are equal to

---
 polynomials.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polynomials.py b/polynomials.py
index 01cee89..51b6b73 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -324,6 +324,10 @@ class Polynomial:
         return s
 
     def __hash__(self):
+        # constants are equal to integers, so must hash like them
+        constant = self[{}]
+        if self == constant:
+            return hash(constant)
         return hash(str(self))
 
     @classmethod
-- 
2.43.0

