From 251f6d52f6d02470cad2e0165a258da327a40b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 01/55] fix: return plain floats from the Wigner functions

With current sympy a symbolic zero compares unequal to 0.0, so forbidden
transitions were reported as allowed.
---
 atomtoolkit/wigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..89e5ce1 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -39,7 +39,7 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                return float(N(func(*args)))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From a5956950320f4b90653c6e65eec8008482857782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 02/55] fix: include the (2I-1) factor in the magnetic-octupole
 hyperfine shift

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..a25daed 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From 86822dcbfce5ba961e0e6491d255c46ac0132855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 03/55] fix: weight the components of a Lande factor by their
 own squared amplitudes

Use each component's own quantum numbers, normalise by the total leading
percentage, keep components with equal percentages apart, and return zero
(not nan) for J=0 or when the ancestor quantum numbers are unknown.
---
 atomtoolkit/atom.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a25daed..9dca852 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -337,27 +337,31 @@ class EnergyLevel(BaseLevel):
         :return: gJ
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
-        total = 0
-        for pct, term in self.term.terms_dict.items():
+        if not self.term.J:
+            return 0.0
+        total = 0.0
+        weight = 0.0
+        for term in self.term.terms:
             if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
+                terms = np.array([[term.l], [term.s], [1.0]])
+            elif None in (term.sc, term.so) or (term.coupling != 'LK' and None in (term.lc, term.lo)):
+                return 0.0
             elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
+                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
             else:
                 return 0.0
 
             J = term.J
-            ls, ss, percents = terms
+            ls, ss, amplitudes = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
-        return total
+            total += term.percentage * sum(amplitudes ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
+                                                              / (2 * J * (J + 1))))
+            weight += term.percentage
+        return float(total / weight)
 
     @classmethod
     def from_dataframe(cls, df, i=0) -> EnergyLevel:
-- 
2.43.0


From 525081eeb2f11e789fd8356ba6ad16428297938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 04/55] fix: compute the Lande factor of imported levels whose
 table entry is blank

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9dca852..53546b3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -372,7 +372,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From 8ff590690568b31b13b6c0f826edb2bd17c21d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 05/55] fix: accept wavenumbers and wavelengths when moving
 sublevels and their transitions

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 53546b3..4452bb2 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -459,7 +459,7 @@ class HFLevel(BaseLevel):
         parent to move by the same amount instead of moving itself
         :param value: the new level of the hyperfine level
         """
-        shift = value - self.level
+        shift = value.to(Hz) - self.level
         self.parent.level += shift
 
     def compute_gF(self) -> float:
@@ -803,7 +803,7 @@ class HFTransition(BaseTransition):
                 del t
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
@@ -850,7 +850,7 @@ class ZTransition(BaseTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-- 
2.43.0


From 01f79a04cee58071a4e39fa5e04b513801f1acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 06/55] fix: use both F values in the strength of an E2 Zeeman
 component

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 4452bb2..a6aecdd 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -822,7 +822,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From 0319d54d02e1d87bb389b63d523b3b894323c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 07/55] fix: append .atom to saved files only when the name
 lacks it

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a6aecdd..5217f80 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -979,10 +979,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with open(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From 8ceb5c69bdbcf35428ca7e125a7a439868f36311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 08/55] fix: use the degeneracy 2F+1 of both levels in tensor
 transition strengths

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From c7ae7e4be88c0533a7dda5956fffad6f8857bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 09/55] fix: accept numpy arrays in the polarised transition
 strengths

---
 atomtoolkit/transition_strengths.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..7c571ee 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -34,7 +34,6 @@ def tkq_mel(I: float, k: int, q: int,
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -45,7 +44,6 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -61,7 +59,6 @@ def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -72,7 +69,6 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -90,7 +86,6 @@ def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -111,7 +106,6 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
-- 
2.43.0


From 7a0ee484fa3bc6c760de7930a1a3589fad33e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 10/55] fix: correct the geometric factors of E2 matrix
 elements and strengths

---
 atomtoolkit/transition_strengths.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 7c571ee..39fb285 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -94,15 +94,15 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (-6 ** 0.5 * k[0] * eps[0] + 6 ** 0.5 * k[1] * eps[1] + (2. / 3.) * 6 ** 0.5 * k[2] * eps[2])
+           (6 ** 0.5 / 3. * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]))
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
@@ -116,11 +116,11 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
+           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From e9a49c0ebbe0b3f2f1b82641b05872956284209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 11/55] fix: make MultiTerm printable and comparable to
 mixtures of another length

---
 atomtoolkit/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 91374d6..130287e 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -121,7 +121,7 @@ class MultiTerm(collections.abc.Sequence):
         return object.__getattribute__(self, item)
 
     def __repr__(self):
-        return MultiTerm(*self.terms)
+        return f'MultiTerm({", ".join(repr(t) for t in self.terms)})'
 
     def __str__(self):
         return f"{self.terms[0]} ({self.terms[0].percentage})"
@@ -139,7 +139,7 @@ class MultiTerm(collections.abc.Sequence):
     def __eq__(self, other: Term or MultiTerm) -> bool:
         if isinstance(other, Term):
             return self[0] == other
-        return np.all([self[i] == other[i] for i in range(len(self))])
+        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
 
     def make_term_copy(self, F: float = None, mF: float = None) -> MultiTerm:
         """
-- 
2.43.0


From e60a65793e749fb274c61ac18905297b7cdfc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 12/55] fix: read the percentage column the IO module writes in
 Term.from_dataframe

---
 atomtoolkit/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 130287e..fbc0e24 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -95,7 +95,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Percentage"][i])
 
 
 class MultiTerm(collections.abc.Sequence):
-- 
2.43.0


From 1b75bc5c4fb8337edc04ad45904d347fcef2f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 13/55] fix: reject values that have no orbital letter or
 half-integer text

---
 atomtoolkit/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/util.py b/atomtoolkit/util.py
index b6f2560..ac0cdda 100644
--- a/atomtoolkit/util.py
+++ b/atomtoolkit/util.py
@@ -23,11 +23,10 @@ def l_to_let(l: int or float) -> str:
     :param l: a positive integer
     :return: the corresponding L-value in spectroscopic notation
     """
-    if type(l) is float:
-        if not l.is_integer():
-            raise (ValueError("Requires an integer or an integer-valued float"))
     if type(l) is str:
         raise TypeError()
+    if l != int(l) or l < 0:
+        raise (ValueError("Requires a non-negative integer or integer-valued float"))
     return 'SPDFGHIKLMNOQRTUVWXYZ'[int(l)]
 
 
@@ -65,6 +64,8 @@ def float_to_frac(f: float or str) -> str or None:
             f = float(f)
         except TypeError:
             raise ValueError("Please input either a float or a fraction-formatted string")
+    if (2 * f) % 1 != 0:
+        raise ValueError("Requires an integer or half-integer")
     if (2 * f) % 2 == 0:
         return str(int(f))
     else:
-- 
2.43.0


From d230577e26e618507c0af179757fbea467ad4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 14/55] fix: prefer the (lower, upper) reading of a
 subtransition key

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 5217f80..50eec3e 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -675,9 +675,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From 2318eca7b36a2fd17973425961401e8e8957f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 15/55] fix: look transitions up by the levels they join

Ranks, aliases and level objects raised errors, and names only worked when
the levels had been added in order of energy and had not moved since.
---
 atomtoolkit/atom_helpers.py | 46 ++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..f5cb7ae 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -109,35 +109,35 @@ class TransitionStructure:
             - ([conf] [term] mJ=[mJ], [conf] [term] mJ=[mj])
             - ([conf] [term] F=[F], [conf] [term] F=[F])
             - ([conf] [term], [conf] [term])
+            - (level, level), where either level may also be given by its alias
 
         :param key: the key to get
         :return: the transition associated with the key
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
-        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
-            k_lower, k_upper = key[1], key[0]
-        else:
-            k_lower, k_upper = key[0], key[1]
-        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
-            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
-            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
-        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
-            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
-            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
-        else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+        if isinstance(key, str):
+            raise KeyError(key)
+        # Each half of the key can be anything that identifies a level, including the level itself
+        lvl_0, lvl_1 = (self.atom.levels[k] if isinstance(k, (str, int)) else k for k in key)
+        # Collect the chain of (sub)levels leading down from each manifold to the requested level
+        chains = []
+        for lvl in (lvl_0, lvl_1):
+            chain = [lvl]
+            while chain[0] is not chain[0].manifold:
+                chain.insert(0, chain[0].parent)
+            chains.append(chain)
+        if len(chains[0]) != len(chains[1]):
+            raise KeyError(key)
+        transition = self.model.edges[chains[0][0].name, chains[1][0].name]['transition']
+        for pair in list(zip(*chains))[1:]:
+            for t in transition.values():
+                if (t.E_1, t.E_2) == pair or (t.E_2, t.E_1) == pair:
+                    transition = t
+                    break
+            else:
+                raise KeyError(key)
+        return transition
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From bf974c7f7a758695ff25752864ecae4ea5427243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 16/55] fix: raise KeyError for incomplete sublevel paths

---
 atomtoolkit/atom_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index f5cb7ae..edfaaf9 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -44,14 +44,15 @@ class LevelStructure:
         if key in self.aliases:
             return self.aliases[key]
         if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
-            main, hf, z = key.rsplit(' ', maxsplit=2)
+            path, _, z = key.rpartition(' ')
+            main, _, hf = path.rpartition(' ')
             return nx.get_node_attributes(self.model, 'level')[main][hf][z]
         elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
-            main, z = key.rsplit(' mJ=', maxsplit=1)
+            main, _, z = key.rpartition(' mJ=')
             l = nx.get_node_attributes(self.model, 'level')[main]
             return l[f'F={l.term.J_frac}'][f'mF={z}']
         elif 'F=' in key:  # match [conf] [term] F=[F]
-            main, hf = key.rsplit(' ', maxsplit=1)
+            main, _, hf = key.rpartition(' ')
             return nx.get_node_attributes(self.model, 'level')[main][hf]
         else:  # match [conf] [term]
             return nx.get_node_attributes(self.model, 'level')[key]
-- 
2.43.0


From 75e65abb57d188d7c22f7a9b5d85c1249d8c2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 17/55] fix: allow a transition with components to be added
 again

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 50eec3e..7665cf6 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -651,7 +651,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From bcf85ad91bfea26b15e87ffe08f985fc28a274e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 18/55] fix: keep the existing sublevels when a level is added
 again

---
 atomtoolkit/atom.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 7665cf6..07d31fa 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -934,7 +934,6 @@ class Atom:
         if level.alias is not None:
             self.levels.aliases[level.alias] = level
         if populate_sublevels:
-            level.populate_sublevels()
             for sublevel in list(level.values()):
                 sublevel.add_to_atom(self)
         return level
-- 
2.43.0


From 4bb32756af6f70d6a81cffc056370b836efdb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 19/55] fix: add the levels of a transition along with it

As documented. A pair of level names, aliases or objects that is already
joined, in either order, gives the existing transition.
---
 atomtoolkit/atom.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 07d31fa..67637cd 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -583,7 +583,7 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
-        if alias is not None:
+        if alias is not None and self.atom is not None:
             self.atom.transitions.aliases[alias] = self
 
     def __str__(self):
@@ -947,14 +947,16 @@ class Atom:
         """
         # CONSIDER: Should you be able to add non-top-level transitions directly to an atom?
         if isinstance(transition, tuple):
-            if transition in self.transitions.keys():
+            l1, l2 = (self.levels[k] if isinstance(k, str) else k for k in transition)
+            if self._levelsModel.has_edge(l1.name, l2.name):
                 warnings.warn(f'transition {transition} is already in {self.name}')
-                transition = self.transitions[transition]
-            elif isinstance(transition[0], str):
-                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
-            elif isinstance(transition[0], BaseLevel):
-                transition = Transition(transition[0], transition[1], **kwargs)
+                transition = self._levelsModel.edges[l1.name, l2.name]['transition']
+            else:
+                transition = Transition(l1, l2, **kwargs)
 
+        for level in (transition.E_1, transition.E_2):
+            if 'level' not in self._levelsModel.nodes.get(level.name, {}):
+                self.add_level(level)
         transition.add_to_atom(self)
         if transition.alias is not None:
             self.transitions.aliases[transition.alias] = transition
-- 
2.43.0


From 8bd9f1ba383867c107da8292b672c802983debfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 20/55] fix: remove levels and transitions together with
 everything that hangs off them

Deleting by alias failed, aliases of removed objects kept resolving, sublevel
nodes and component edges stayed behind, and transitions could not be deleted
or assigned by key at all.
---
 atomtoolkit/atom_helpers.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index edfaaf9..a7e5c82 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -61,7 +61,16 @@ class LevelStructure:
         self.atom.add_level(value, alias=key)
 
     def __delitem__(self, key: str):
-        self.model.remove_node(key)
+        level = self[key]
+        if level is not level.manifold:
+            raise KeyError(key)
+        for _, _, transition in list(self.model.edges(level.name, data='transition')):
+            self.atom.transitions.remove(transition)
+        sublevels = [z for hf in level._sublevels.values() for z in [hf, *hf._sublevels.values()]]
+        self.model.remove_node(level.name)
+        self.hf_model.remove_nodes_from([l.name for l in sublevels])
+        self.z_model.remove_nodes_from([l.name for l in sublevels])
+        self.aliases = {k: v for k, v in self.aliases.items() if v.manifold is not level}
 
     def __len__(self) -> int:
         return len(nx.get_node_attributes(self.model, 'level'))
@@ -140,11 +149,26 @@ class TransitionStructure:
                 raise KeyError(key)
         return transition
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: str or Tuple, value: Transition):
         self.atom.add_transition(value)
+        if isinstance(key, str):
+            value.alias = key
 
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+    def __delitem__(self, key: str or Tuple):
+        transition = self[key]
+        if transition.parent is not None:
+            raise KeyError(key)
+        self.remove(transition)
+
+    def remove(self, transition: Transition):
+        """Removes the transition, along with its subtransitions and any aliases of theirs"""
+        hf_transitions = list(transition._subtransitions.values())
+        z_transitions = [z for hf in hf_transitions for z in hf._subtransitions.values()]
+        self.model.remove_edge(transition.E_1.name, transition.E_2.name)
+        self.hf_model.remove_edges_from([(t.E_1.name, t.E_2.name) for t in hf_transitions])
+        self.z_model.remove_edges_from([(t.E_1.name, t.E_2.name) for t in z_transitions])
+        removed = [transition, *hf_transitions, *z_transitions]
+        self.aliases = {k: v for k, v in self.aliases.items() if not any(v is t for t in removed)}
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From 069df51cca1ecf616a7d118d713f8401d186ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 21/55] fix: keep forbidden subtransitions out of the atom

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 67637cd..6824af9 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -569,10 +569,7 @@ class BaseTransition(ABC):
         else:
             self.E_upper = self.E_1
             self.E_lower = self.E_2
-        # Check if in an atom
         self.atom = self.E_1.atom
-        if self.atom is not None:
-            self.add_to_atom(self.atom)
         # Names
         self.model_name = (self.E_1.name, self.E_2.name)
         self.name = name
@@ -583,6 +580,9 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
+        # Check if in an atom. Forbidden subtransitions don't become part of it
+        if self.atom is not None and (parent is None or any(self.allowed_types)):
+            self.add_to_atom(self.atom)
         if alias is not None and self.atom is not None:
             self.atom.transitions.aliases[alias] = self
 
-- 
2.43.0


From cb03eaf11084ac78c0067d53219e6b2b03f63741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 22/55] fix: look up linked levels without rebuilding the
 subtransitions

Asking for the links of a sublevel replaced every component object of the
transitions involved. Aliases work as keys, and components within a level
are found whether or not they had been looked at before.
---
 atomtoolkit/atom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 6824af9..20d3b82 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1093,10 +1093,11 @@ class Atom:
         """
         level = self.levels[key]
         if not isinstance(level, EnergyLevel):
-            for k, trans in self.linked_levels(level.parent.name).items():
-                trans.populate_subtransitions()
-        adjacent = level.model.adj[key]
-        return {k: t['transition'] for k, t in adjacent.items() if k != key}
+            self.linked_levels(level.parent.name)
+            for trans in [t['transition'] for t in level.parent.model.adj[level.parent.name].values()]:
+                trans.subtransitions()
+        adjacent = level.model.adj[level.name]
+        return {k: t['transition'] for k, t in adjacent.items() if k != level.name}
 
     def state_lifetime(self, key: str) -> pint.Quantity:
         """
-- 
2.43.0


From cb26dfcde3ce87803a234c44ae1a106e3d2415f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 23/55] fix: compare decay rates in one unit in branching
 ratios

Rates in different units were added up as bare numbers, aliases gave no
ratios at all, and a missing rate raised AttributeError instead of ValueError.
---
 atomtoolkit/atom.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 20d3b82..f40dc83 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1118,18 +1118,15 @@ class Atom:
         :param key: the key of the level to compute
         :return: a dict of level names and the branching ratios to those levels
         """
-        transitions = self.linked_levels(key)
-        A_coeffs = {}
-        for n, t in transitions.items():
-            if t.E_upper.name == key:
-                A_coeffs[n] = t.A
-        try:
-            totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+        level = self.levels[key]
+        A_coeffs = {n: t.A for n, t in self.linked_levels(key).items() if t.E_upper is level}
+        if None in A_coeffs.values():
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
+        A_Hz = {n: A.to(Hz).magnitude for n, A in A_coeffs.items()}
+        totalAs = np.sum(list(A_Hz.values()))
 
-        ratios = {k: t.magnitude / totalAs for k, t in A_coeffs.items()}
+        ratios = {k: A / totalAs for k, A in A_Hz.items()}
         return ratios
 
     def enforce_consistency(self, node_or_trans: BaseLevel or BaseTransition = None):
-- 
2.43.0


From 521a3f62ba20d6ceb9a767db7fc049686a2fb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 24/55] fix: let components follow an A coefficient set after
 they were first read

---
 atomtoolkit/atom.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f40dc83..d3ee3a5 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -577,7 +577,6 @@ class BaseTransition(ABC):
             self.name = f'{self.E_1.name} → {self.E_2.name}'
         # Physical parameters
         self._A = A
-        self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
         # Check if in an atom. Forbidden subtransitions don't become part of it
@@ -609,6 +608,20 @@ class BaseTransition(ABC):
     def wl(self) -> pint.Quantity:
         return self.freq.to(ureg.nanometer)
 
+    @property
+    def A(self) -> pint.Quantity or None:
+        """The Einstein A coefficient. Unless set, subtransitions derive it from their parent's current value"""
+        return self._A.to(Hz) if self._A is not None else self.compute_linewidth()[0]
+
+    @A.setter
+    def A(self, value: pint.Quantity):
+        self._A = value
+
+    @property
+    def rel_strength(self) -> float:
+        """The angular momentum factor of the transition, relative to its parent"""
+        return self.compute_linewidth()[1]
+
     def compute_linewidth(self) -> Tuple[pint.Quantity or None, float]:
         """
         computes the linewidth of the transition, including angular momentum factors
-- 
2.43.0


From d2c637f78a738bc4ee42db66d6e85282e27a5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 25/55] fix: let Zeeman shifts follow a Lande factor set after
 the sublevels were first read

---
 atomtoolkit/atom.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d3ee3a5..b1580d7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -383,13 +383,23 @@ class HFLevel(BaseLevel):
     An HFLevel defines where it is based on its shift relative to its parent level
     """
 
+    _gF = None
+
     def __init__(self, term: MultiTerm, parent: EnergyLevel = None):
         """
         :param term: a Term object containing the level's quantum numbers
         :param parent: the atom that the level is contained in
         """
         super().__init__(term, parent)
-        self.gF = self.compute_gF()
+
+    @property
+    def gF(self) -> float:
+        """The Lande g-value of the sublevel. Unless set, it is derived from the manifold's current g-value"""
+        return self.compute_gF() if self._gF is None else self._gF
+
+    @gF.setter
+    def gF(self, value: float):
+        self._gF = value
 
     def get_manifold(self) -> EnergyLevel:
         """The parent of a hyperfine level is a fine structure level"""
-- 
2.43.0


From 944910ddf0984bac97d6fee53e7b7db22019edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 26/55] fix: point subtransitions the same way as their parent

The direction depended on the energies at the moment of the first read, and
overlapping hyperfine patterns made components overwrite each other.
---
 atomtoolkit/atom.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index b1580d7..11506ee 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -573,7 +573,12 @@ class BaseTransition(ABC):
         self._submodel = None
         # Energy Levels
         self.E_1, self.E_2 = E1, E2
-        if self.E_2.level > self.E_1.level:
+        if parent is not None and self.E_1.parent is not self.E_2.parent:
+            # Subtransitions point the same way as their parent
+            upper_is_2 = self.E_2.parent is parent.E_upper
+        else:
+            upper_is_2 = self.E_2.level > self.E_1.level
+        if upper_is_2:
             self.E_upper = self.E_2
             self.E_lower = self.E_1
         else:
-- 
2.43.0


From 4afdcf387adf25c3ec4efb5e062ea67a36a70319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 27/55] fix: list each component of a transition within a level
 once

---
 atomtoolkit/atom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 11506ee..520d4ee 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -688,10 +688,14 @@ class BaseTransition(ABC):
         :param attr: the Term attribute to use for selection rules. Can be anything in {L, J, F, mF, mJ}
         :return: An iterable of pairs of sublevels with possible allowed transitions
         """
+        if self.E_1 is self.E_2:
+            pairs = itertools.combinations_with_replacement(self.E_1.sublevels(), 2)
+        else:
+            pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
         if True not in self.allowed_types:
-            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+            return pairs
         max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
-        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+        return ((l1, l2) for l1, l2 in pairs
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
     # region: dict-like-methods
-- 
2.43.0


From 65b245570997aed83fad4d77f9d69b67e9eb7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 28/55] fix: make populate_transitions add the requested
 transitions

It raised KeyError on the first missing pair, kept the pairs it rejected, and
did not try all the J differences an E2 request needs.
---
 atomtoolkit/atom.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 520d4ee..691758d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1064,11 +1064,9 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
         # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        max_delta = max((i // 2 + 1 for i, a in enumerate(allowed) if a), default=-1)
+        allowed_deltas = list(range(max_delta + 1))
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1080,13 +1078,13 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        self.transitions.remove(t)
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 69d80a52bc1e772acaaba4d63a2a4e846766e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 29/55] fix: honour the choice of transition types in
 generate_full_from_dataframe

---
 atomtoolkit/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..c42c17a 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -310,6 +310,6 @@ def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
         else:
             a.populate_transitions(**kwargs)
     else:
-        a.populate_transitions(allowed=(True, False, False), **kwargs)
+        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
     a.populate_internal_transitions()
     return a
-- 
2.43.0


From 223023b8ef9b6f9214fb52d845870bb5d85feaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 30/55] fix: keep existing internal transitions when populating
 them

---
 atomtoolkit/atom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 691758d..27d55bb 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1092,6 +1092,8 @@ class Atom:
         """
         levels = tqdm(list(self.levels.values()))
         for level in levels:
+            if self._levelsModel.has_edge(level.name, level.name):
+                continue
             t = Transition(level, level)
             t.add_to_atom(self)
             levels.set_description(f'adding internal transitions to {level.name:91}')
-- 
2.43.0


From e10ebe37a08dc67cd02fedc410e6102911737d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 31/55] fix: satisfy whole networks of assigned transition
 frequencies

Reassigning a frequency inside a chain, or joining two networks, left other
assigned transitions violated, and loops that cannot be satisfied were not
noticed. All edges are visited now, starting from one level that stays put.
---
 atomtoolkit/atom.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 27d55bb..0697c7a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1179,24 +1179,23 @@ class Atom:
                 # check that the node/transition that triggered the enforcement call is contained in the subgraph
                 if not (node_or_trans in subgraph or node_or_trans in subgraph.edges()):
                     continue
-            # find the lowest lying level in the subgraph
-            nodes = subgraph.nodes(data='level')
-            lowest, key_lowest = None, None
-            for key, node in nodes:
-                if lowest is None:
-                    lowest, key_lowest = node, key
-                elif node.level_Hz < lowest.level_Hz:
-                    lowest, key_lowest = node, key
-            # perform a depth first search starting from the lowest energy node in the subgraph,
+            # the lowest lying of the levels that are already constrained stays put (or the lowest of all, if none are)
+            nodes = [node for _, node in subgraph.nodes(data='level')]
+            lowest = min([node for node in nodes if node.fixed] or nodes, key=lambda x: x.level_Hz)
+            # perform a depth first search along all the edges, starting from that level,
             # setting subsequent levels one at a time
-            search = nx.dfs_edges(subgraph, source=key_lowest)
-            for edge in search:
+            placed = {lowest}
+            for edge in nx.edge_dfs(subgraph, source=lowest.name):
                 t = subgraph.edges()[edge]['transition']
                 e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
+                if e_l in placed and e_u in placed:
+                    # allow for the rounding errors accumulated around the loop
+                    tolerance = 4 * len(nodes) * np.spacing(max(abs(node.level_Hz) for node in nodes) + freq)
+                    if abs(e_u.level_Hz - e_l.level_Hz - freq) > tolerance:
+                        warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
+                elif e_u in placed:
                     e_l.level_Hz = e_u.level_Hz - freq
                 else:
                     e_u.level_Hz = e_l.level_Hz + freq
+                placed.update((e_l, e_u))
                 e_u.fixed = e_l.fixed = True
-- 
2.43.0


From 0261d17100cc4c1ea3fc624251e784944a27c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 32/55] fix: read level tables whose ionization limit is
 missing or bracketed

---
 atomtoolkit/IO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index c42c17a..01a0633 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -106,6 +106,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Percentage'] = df_clean['Percentage'].fillna(value=100.0)
     df_clean = df_clean.drop('Leading percentages', axis=1)
 
+    # the first ionization limit, if the table has one
+    limits = df_clean.index[df_clean['Term'] == 'Limit']
+
     # drop rows that don't have a defined level
     df_clean = df_clean.dropna(subset=['Level (cm-1)'])
 
@@ -114,7 +117,8 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Level (Hz)'] = df_clean['Level (cm-1)'].pint.to('Hz')
 
     # remove any terms above ionization, and the ionization row
-    df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
+    if len(limits) > 0:
+        df_clean = df_clean.loc[:limits[0] - 1]
     # split up levels with multiple J
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
-- 
2.43.0


From f4ba0f82021499cc8f0bf1223283b126401d481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 33/55] fix: keep the leading percentage of levels without a
 second component

---
 atomtoolkit/IO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 01a0633..9950db3 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -101,6 +101,8 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
 
     df_clean['Configuration_2'] = df_clean.apply(
         lambda k: reconstitute_conf(k['Configuration'], k['Configuration_2']), axis=1)
+    df_clean['Percentage'] = df_clean['Percentage'].fillna(
+        df_clean['Leading percentages'].str.extract(r'^\ *(\d+)', expand=False))
     df_clean['Percentage'] = pd.to_numeric(df_clean['Percentage'], errors='coerce')
     df_clean['Percentage_2'] = pd.to_numeric(df_clean['Percentage_2'], errors='coerce')
     df_clean['Percentage'] = df_clean['Percentage'].fillna(value=100.0)
-- 
2.43.0


From 6ba7966e40cd90367164ebcfe595df2c7d33f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 34/55] fix: give hyperfine and Zeeman lines of Grotrian
 diagrams their documented widths

Half-integer F was truncated (dividing by zero for F=1/2), and the widest
hyperfine line spanned about half of the requested width.
---
 atomtoolkit/render/grotrian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..991c884 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,9 +282,9 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
         squeeze = int(2 * squeeze + 1)
@@ -335,7 +335,7 @@ class Grotrian:
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
         sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        space_width = (1 - fill_factor) * W / max(squeeze - 1, 1)
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
@@ -365,7 +365,7 @@ class Grotrian:
         i = level.term.F - min(Fs)
 
         w_null = W - (N - 1) * offset * W
-        wF = W * (2 * level.term.F + 1) / (2 * squeeze + 1)
+        wF = W * (2 * level.term.F + 1) / squeeze
         dx = (1 - a) * w_null / 2 + a * wF / 2
         y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
         p0 = (offset * W * i - dx + x1 + x0, y)
-- 
2.43.0


From 77eb17ab21e2caa83c3cc8654de0678d246ffef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 35/55] fix: let plot_spectrum take a single transition and
 pass its options on

---
 atomtoolkit/render/spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..58c2c38 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -164,7 +164,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +196,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict, **kwargs)
-- 
2.43.0


From 7138c8ce557873f36f7bd9e045c7bd586a7fef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 36/55] fix: label Zeeman spectra with both F and mF

---
 atomtoolkit/render/spectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 58c2c38..0e4c5c2 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -105,6 +105,7 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
     else:
         color_func = None
 
+    kwargs.setdefault('label_func', label_func)
     plot_transitions(lines, lineshape=lineshape, color_func=color_func, unit="GHz", **kwargs)
 
 
-- 
2.43.0


From ffc354193292518961ce08135fefa6210521a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 37/55] fix: keep reassigned aliases when an object is added
 again

---
 atomtoolkit/atom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 0697c7a..bad1d68 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -960,10 +960,11 @@ class Atom:
         :return: the level that was added (in case you'd like an easy reference to it)
         """
         # TODO: On-the-spot EnergyLevel creation?
+        is_new = self._levelsModel.nodes.get(level.name, {}).get('level') is not level
         level.add_to_atom(self)
         if alias is not None:
             level.alias = alias
-        if level.alias is not None:
+        elif is_new and level.alias is not None:
             self.levels.aliases[level.alias] = level
         if populate_sublevels:
             for sublevel in list(level.values()):
@@ -989,8 +990,10 @@ class Atom:
         for level in (transition.E_1, transition.E_2):
             if 'level' not in self._levelsModel.nodes.get(level.name, {}):
                 self.add_level(level)
+        edge = self._levelsModel.get_edge_data(transition.E_1.name, transition.E_2.name, {})
+        is_new = edge.get('transition') is not transition
         transition.add_to_atom(self)
-        if transition.alias is not None:
+        if is_new and transition.alias is not None:
             self.transitions.aliases[transition.alias] = transition
         if transition.set_freq is not None:
             self.enforce_consistency()
-- 
2.43.0


From 3609f811816366a4e1de3fd753fc5a6a464072ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 38/55] fix: convert zero wavenumbers and frequencies into each
 other

The context meant for this was never registered, so that the default one
went by way of the wavelength and divided by zero.
---
 atomtoolkit/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..b7a1f84 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -9,12 +9,13 @@ pint.set_application_registry(ureg)
 pint_pandas.PintType.ureg = ureg
 
 # add wavenumbers to the pint spectroscopy context
-_c = pint.Context('spectroscopy')
+_c = pint.Context('wavenumbers')
 _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.add_context(_c)
+ureg.enable_contexts('spectroscopy', 'wavenumbers')
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From f02fb0d3b66e11698ee9db3632fb966d83eea83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 39/55] fix: reduce fraction text to its canonical form in
 float_to_frac

---
 atomtoolkit/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atomtoolkit/util.py b/atomtoolkit/util.py
index ac0cdda..9fae16c 100644
--- a/atomtoolkit/util.py
+++ b/atomtoolkit/util.py
@@ -58,10 +58,8 @@ def float_to_frac(f: float or str) -> str or None:
         return None
     # Assumes n/2, since all the fractions that appear in term symbols are of that form
     if type(f) == str:
-        if '/' in f:
-            return f
         try:
-            f = float(f)
+            f = frac_to_float(f) if '/' in f else float(f)
         except TypeError:
             raise ValueError("Please input either a float or a fraction-formatted string")
     if (2 * f) % 1 != 0:
-- 
2.43.0


From d7e3a52f5cc3f8247eca9e377525bc8f9f5d4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 40/55] fix: accept integer arguments in JK_to_LS

---
 atomtoolkit/transition_strengths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 39fb285..2faf7ac 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -157,7 +157,7 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
     outls = np.repeat(ls, len(ss))
     outss = np.tile(ss, len(ls))
-    outpercs = np.array([float((-1) ** (-lc - lo - 2 * sc - so - K - outls[i] - J) * \
+    outpercs = np.array([float((-1.0) ** (-lc - lo - 2 * sc - so - K - outls[i] - J) * \
                                np.sqrt((2 * Jc + 1) * (2 * outls[i] + 1) * (2 * K + 1) * (2 * outss[i] + 1)) * \
                                wigner6j(sc, lc, Jc,
                                         lo, K, outls[i]) * \
-- 
2.43.0


From 7dfcc0ecc829dc9d54f41bc83db26efd5c608d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 41/55] fix: pad the boxes around hyperfine and Zeeman
 structure by bbox_pad

---
 atomtoolkit/render/grotrian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 991c884..75272fb 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -420,7 +420,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0'])+list(table['p1']))),
+                                                          (list(table['p0'])+list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)], ignore_index=True)
         elif isinstance(level, HFLevel):
@@ -453,7 +454,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0']) + list(table['p1']))),
+                                                          (list(table['p0']) + list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)],
                               ignore_index=True)
@@ -467,7 +469,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_hflevel_row(level,
                                                          bbox_override=self.bbox(
-                                                            (list(table['p0']) + list(table['p1']))),
+                                                            (list(table['p0']) + list(table['p1'])),
+                                                            pad=kwargs.get('bbox_pad', 0.05)),
                                                          show=False,
                                                          **kwargs)],
                               ignore_index=True)
-- 
2.43.0


From 6e4ba99641a53b9a2f0e784b498419bc159e09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 42/55] fix: rebuild the lines of a Grotrian diagram every time
 it is rendered

---
 atomtoolkit/render/grotrian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 75272fb..fb9fd60 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -173,6 +173,7 @@ class Grotrian:
                     [(max_x - h, min_y), (max_x, min_y), (max_x, max_y), (max_x - h, max_y)]]
 
         # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons)
+        self.lines_df = self.lines_df.iloc[0:0]
         for i, row in self.level_prompts.iterrows():
             self.lines_df = pd.concat([self.lines_df, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))],
                                       ignore_index=True)
-- 
2.43.0


From 33e001b0df1c721b4f6f273b0d15610148c556fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 43/55] fix: give every bracket of a Grotrian diagram its own
 color and width

---
 atomtoolkit/render/grotrian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index fb9fd60..8f5a171 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -179,7 +179,7 @@ class Grotrian:
                                       ignore_index=True)
         # make bounding boxes and brackets, if desired
         rects_list = []
-        bracket_list = []
+        bracket_list, bracket_colors, bracket_lws = [], [], []
         for i, row in self.lines_df.iterrows():
             bbox_setting = row['kwargs'].get('bbox', None)
             if bbox_setting is not None:
@@ -194,10 +194,10 @@ class Grotrian:
                 elif bbox_setting == 'bracket':
                     bracket_list += (brackets(x_min, y_min, x_max, y_max,
                                               h=row['kwargs'].get('bracket_h', 0.05)))
+                    bracket_colors += [row['kwargs'].get('bracket_color', (0, 0, 0, .8))] * 2
+                    bracket_lws += [row['kwargs'].get('bracket_lw', 1)] * 2
 
         # draw the brackets
-        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
-        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
         brackets = matplotlib.collections.LineCollection(bracket_list, colors=bracket_colors, linewidths=bracket_lws)
         axes.add_collection(brackets)
 
-- 
2.43.0


From dc78944f3035730624b2f13b0f5efc74198de943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 44/55] fix: plot Zeeman spectra without a coloring in black

---
 atomtoolkit/render/spectra.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 0e4c5c2..d22f6c6 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -15,10 +15,9 @@ from .lineshapes import *
 
 def plot_transitions(transitions: BaseTransition or List[BaseTransition],
                      lineshape: LineShape, **kwargs):
-    if 'color_func' not in kwargs:
+    color_func = kwargs.get('color_func')
+    if color_func is None:
         def color_func(t): return 0, 0, 0, 1
-    else:
-        color_func = kwargs['color_func']
     label_func = kwargs.pop('label_func', lambda t: f"{t.E_lower.term.short_name} → {t.E_upper.term.short_name}")
     total = kwargs.pop('total', True)
     unit = kwargs.pop('unit', 'GHz')
-- 
2.43.0


From 25396c2dc2cddb992b6e52a6cee1352cc96695eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 45/55] fix: plot spectra with no coloring, or with a function
 as coloring

---
 atomtoolkit/render/spectra.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d22f6c6..6be7c5d 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -161,9 +161,9 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
         lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
-    def color_func(t): pass
-    if type(lines[0]) == Transition:
-        def color_func(t): return (0, 0, 0, 1)
+    color_func, color_dict = None, None
+    if isinstance(coloring, Callable):
+        color_func = coloring
     elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
@@ -175,8 +175,6 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_color=lambda t: t.E_upper.term.F,
                                                    property_shade=lambda t: t.E_lower.term.F,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
-
-        def color_func(t): return color_dict[t]
     elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
@@ -193,7 +191,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_color=lambda t: t.E_upper.term.mF - t.E_lower.term.mF,
                                                    property_shade=lambda t: t.E_lower.term.mF,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
-
+    if color_dict is not None:
         def color_func(t): return color_dict[t]
 
     plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict, **kwargs)
-- 
2.43.0


From 221069d112c5d518c8bea760bdbc7425c285a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 46/55] fix: name the unit that a spectrum is plotted in on its
 axis

---
 atomtoolkit/render/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 6be7c5d..b5cef4a 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -48,7 +48,7 @@ def plot_transitions(transitions: BaseTransition or List[BaseTransition],
             y_values += np.interp(x_values, x, curve)
         plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
     plt.ylim(0, None)
-    plt.xlabel("Frequency (GHz)")
+    plt.xlabel(f"Frequency ({unit})")
     plt.legend()
 
 
-- 
2.43.0


From 3f8e68065e180e9c71daa95fbe1ee830d55af8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 47/55] fix: plot the Zeeman spectrum of a list of fine
 transitions

---
 atomtoolkit/render/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index b5cef4a..a2a01b2 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -70,7 +70,10 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
     elif isinstance(transitions, Transition):
         lines = list(itertools.chain.from_iterable(list(t.values()) for t in list(transitions.values())))
     elif isinstance(transitions, list):
-        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
+        lines = []
+        for t in transitions:
+            for h in (t.values() if isinstance(t, Transition) else [t]):
+                lines += list(h.values()) if isinstance(h, HFTransition) else [h]
     else:
         lines = transitions
 
-- 
2.43.0


From cf0e5b7d9649541bb5dedc16b855c188f975b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 48/55] fix: mod_lorentzian without a number of sidebands

---
 atomtoolkit/render/lineshapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 98e8882..63c668b 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -30,6 +30,8 @@ def voigt(x, x0, sigma: float, gamma: float, ampl: float = 1.0):
 
 def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float = 0.0, num_sidebands: int = None,
                    mod_freq_GHz: float = 1.0):
+    if num_sidebands is None:
+        num_sidebands = ModLorentzianLineShape(gamma, depth, mod_freq_GHz).num_sidebands
     tot = np.zeros_like(x)
     tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
     for i in range(1, num_sidebands + 1):
-- 
2.43.0


From a6517e6e0bceb26224f4921a05b5a6b051d0c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 49/55] fix: modulated lines at integer frequencies

---
 atomtoolkit/render/lineshapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 63c668b..546c129 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -32,7 +32,7 @@ def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float =
                    mod_freq_GHz: float = 1.0):
     if num_sidebands is None:
         num_sidebands = ModLorentzianLineShape(gamma, depth, mod_freq_GHz).num_sidebands
-    tot = np.zeros_like(x)
+    tot = np.zeros_like(x, dtype=float)
     tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
     for i in range(1, num_sidebands + 1):
         mod_ampl = ampl * float(jv(i, depth) ** 2)
-- 
2.43.0


From 3fc5f5a1bbe46811780e98af0b24f748da7cc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 50/55] fix: a g-factor set on a hyperfine level applies to its
 Zeeman sublevels

---
 atomtoolkit/atom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index bad1d68..27d2c0a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -504,6 +504,10 @@ class ZLevel(HFLevel):
         """A Zeeman sublevel will have no further sublevels."""
         return
 
+    def compute_gF(self) -> float:
+        """A Zeeman sublevel shares the g-value of its hyperfine level"""
+        return self.parent.gF
+
     def _assign_models(self):
         self._model = self.atom.levels.z_model
         self._submodel = None
-- 
2.43.0


From fb7a2d0a664d956a5406ff726f47b687ee5cd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 51/55] fix: populate_transitions finds the transitions of
 levels of any J

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 27d2c0a..1b55c9b 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1070,7 +1070,7 @@ class Atom:
 
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
-        max_to_try = 20
+        max_to_try = max((lvl.term.J for lvl in self.levels.values()), default=0)
         # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
         max_delta = max((i // 2 + 1 for i, a in enumerate(allowed) if a), default=-1)
         allowed_deltas = list(range(max_delta + 1))
-- 
2.43.0


From e52bd4dd08de27c2bb590690b8c0fa53cd58ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 52/55] fix: colors of spectra whose lines are far apart in the
 shading property

---
 atomtoolkit/render/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index a2a01b2..596fae8 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -120,8 +120,9 @@ def color_table_from_property(items: List[BaseTransition],
     # the number of colors that will be needed
     num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
     prop_pairs = list(zip(main_props, secondary_props))
-    # a dict that yields the lowest secondary property associated with each main property
+    # dicts that yield the lowest and highest secondary property associated with each main property
     min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
+    max_main_props = {p0: max([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
 
     def color_by_properties(t):
         colormap = plt.get_cmap(cmap)
@@ -134,7 +135,8 @@ def color_table_from_property(items: List[BaseTransition],
         # convert it to HLS
         col = colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
         # set the lightness depending on the shade property and convert back to RGB
-        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
+        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / \
+            (max_main_props[color_prop] - min_main_props[color_prop] + 2)
         col = colorsys.hls_to_rgb(col[0], lightness, col[2])
         return col
 
-- 
2.43.0


From cad7609c61932a0d79aa1b93901e37de87f80975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 53/55] fix: light fields accepted polarizations shorter than a
 unit vector

---
 atomtoolkit/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/environment.py b/atomtoolkit/environment.py
index effcc89..5e119f3 100644
--- a/atomtoolkit/environment.py
+++ b/atomtoolkit/environment.py
@@ -16,7 +16,7 @@ class LightField:
             right circular = 2**(-0.5) * [1, 1j, 0]
         """
         self.k = k
-        assert np.linalg.norm(pol) - 1 < 1e-6, "polarization must be a unit vector"
+        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
         self.pol = pol
         self.intensity = i
 
-- 
2.43.0


From 03df142e2b84cdd4f9d54d2c0cc1b90dddbbf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 54/55] fix: mJ keys name no level unless I=0

levels['6s 2S1/2 mJ=1/2'] returned the sublevel F=1/2 mF=1/2 of an atom with integer I instead of raising KeyError.
---
 atomtoolkit/atom_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index a7e5c82..9c0c79d 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -48,6 +48,8 @@ class LevelStructure:
             main, _, hf = path.rpartition(' ')
             return nx.get_node_attributes(self.model, 'level')[main][hf][z]
         elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
+            if self.atom.I != 0:
+                raise KeyError(key)
             main, _, z = key.rpartition(' mJ=')
             l = nx.get_node_attributes(self.model, 'level')[main]
             return l[f'F={l.term.J_frac}'][f'mF={z}']
-- 
2.43.0


From 557098585e0f35c6b7c6470d68d4a47d0c16da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 55/55] fix: JK_to_LS amplitudes of different L had wrong signs
 relative to each other

---
 atomtoolkit/transition_strengths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 2faf7ac..a9e7406 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -157,7 +157,7 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
     outls = np.repeat(ls, len(ss))
     outss = np.tile(ss, len(ls))
-    outpercs = np.array([float((-1.0) ** (-lc - lo - 2 * sc - so - K - outls[i] - J) * \
+    outpercs = np.array([float((-1.0) ** (-lc - lo - 2 * sc - so - K - J) * \
                                np.sqrt((2 * Jc + 1) * (2 * outls[i] + 1) * (2 * K + 1) * (2 * outss[i] + 1)) * \
                                wigner6j(sc, lc, Jc,
                                         lo, K, outls[i]) * \
-- 
2.43.0

