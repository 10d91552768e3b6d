From 5e17206ddd1306c4e111cd0f1a364b7221d4f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 01/57] fix: linear programs no longer share their arrays with
 the caller, their dual or their relaxation

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..a84b0a0 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -130,9 +130,9 @@ class LinearProgram:
         if not objective in ["min", "max"]:
             raise ValueError("Objective must be either `min` or `max`.")
 
-        self._A = A
-        self._b = b
-        self._c = c
+        self._A = A.copy()
+        self._b = b.copy()
+        self._c = c.copy()
         self._z = z
         self._steps = []
         self._objective = objective
-- 
2.43.0


From 89616400b3e84790c0bf08ad5f1b8ff6b743120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 02/57] fix: clear_steps on a copy no longer recurses forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a84b0a0..5568ad4 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1644,7 +1644,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 69a99e766c18931563c5426708f5d45f07528c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 03/57] fix: comparing linear programs compares their arrays
 instead of raising

---
 pytimize/programs/_linear.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5568ad4..62d5403 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -392,10 +392,13 @@ class LinearProgram:
 
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
+        if not isinstance(other, LinearProgram):
+            return NotImplemented
+
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From cbbacdd1cb55e07334d0d8dc55d922c2bd561fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 04/57] fix: basic solutions of bases listed out of order
 assign each component to its own variable

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 62d5403..3e22138 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1709,8 +1709,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From c19ea14ea228110fa6ae3f78752fcb7cba59ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 05/57] fix: is_feasible_basic_solution compares the vector's
 size with the number of variables

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3e22138..a1be575 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -623,7 +623,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From 399ee842f45a2fd94bac1f5e1b190bb11e196c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 06/57] fix: is_canonical_form_for tests the basis columns of
 the given basis

---
 pytimize/programs/_linear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a1be575..d2e7a91 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -534,13 +534,15 @@ class LinearProgram:
             Whether or not the model is in canonical form for the basis.
 
         """
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__array_like_to_list(basis)
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
         return all(
             [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
+                np.allclose(self._A[:, basis], np.eye(len(basis))),
                 np.allclose(self._c[basis], 0),
             ]
         )
-- 
2.43.0


From 601914ac8ca491acdb13b5d803ef20c5f9d88902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 07/57] fix: to_rref converts to a concrete floating type

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index d2e7a91..386cbe0 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1905,7 +1905,7 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
-- 
2.43.0


From f9fa9df5cfdb5677ee71ff50dbe0170f6f05bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 08/57] fix: simplex leaves the program's rows alone, also when
 it raises

---
 pytimize/programs/_linear.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 386cbe0..7412904 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1077,10 +1077,6 @@ class LinearProgram:
         certificate = None
         updated_lp = None
         counter = 0
-        negative_indices = np.where(self._b < 0)
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
@@ -1104,15 +1100,11 @@ class LinearProgram:
             certificate = (
                 np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
             )
-            certificate[negative_indices] *= -1
 
             show_steps and self.__append_to_steps(("5.03", solution))
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From 432661c0983f30519e2c054f1a7b8fcb17de292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 09/57] fix: is_feasible applies the same tolerance to programs
 in any form

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7412904..1d35c82 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1341,10 +1341,10 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if not Comparator.is_close_compare(entry, "<=", 0):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if not Comparator.is_close_compare(entry, ">=", 0):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
@@ -1353,11 +1353,9 @@ class LinearProgram:
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
-                if current == "<=" and value > self._b[i]:
+                if not Comparator.is_close_compare(value, current, self._b[i]):
                     is_feasible = False
-                elif current == ">=" and value < self._b[i]:
-                    is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            elif not np.isclose(value, self._b[i]):
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From a1b864eb73f3bb7c61fb3c69420f534f2362f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 10/57] fix: solve starts from the slack basis only when it is
 feasible

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 1d35c82..9293874 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -931,7 +931,7 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
+            if sef.is_basis_feasible(basis_candidate):
                 try:
                     solution = sef.simplex(basis_candidate, show_steps)[0]
 
-- 
2.43.0


From 4cddc873c674d5a7d95123c465a198ca13ace7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 11/57] fix: solve of a program in standard equality form
 respects show_steps

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9293874..9dfd3dc 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -923,7 +923,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
-- 
2.43.0


From 1a7309774df88086957cf4276a23469346e93a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 12/57] fix: add_variable validates the column before changing
 the program

---
 pytimize/programs/_linear.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9dfd3dc..a36ffcf 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -504,6 +504,11 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        A = np.c_[self._A, column if column is not None else [0] * self._A.shape[0]]
+
+        if not A.shape[1] == self._A.shape[1] + 1:
+            raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -511,10 +516,7 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
+        self._A = A
         self._c = np.r_[self._c, coefficient]
 
         return self
-- 
2.43.0


From fb03b90afaa968a6b5e023bda80975f96ad475df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 13/57] fix: branch and bound keeps the signs of the variables
 in its branches

---
 pytimize/programs/_integer.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..5f7815e 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -1,4 +1,3 @@
-import copy
 import math
 from typing import List, Optional, Tuple, Union
 
@@ -95,29 +94,16 @@ class IntegerProgram(LinearProgram):
 
             value = solution[i]
             if not Comparator.is_integer(value):
-                copy_A = lp.A.copy()
-                copy_b = lp.b.copy()
-                new_inequalities = copy.deepcopy(lp.inequalities)
-
                 # lower branch:
                 # create the new row in A as the bounding constraint
                 new_row = np.zeros(lp.A.shape[1])
                 new_row[position] = 1
-                new_A = np.concatenate((copy_A, [new_row]))
-                new_b = np.append(copy_b, np.floor(value))
-                new_inequalities.append("<=")
-                lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
-                )
+                lp_lower = lp.add_constraint(new_row, "<=", np.floor(value))
 
                 lower_result = self.__branch(lp_lower)
 
                 # higher branch:
-                new_b[len(lp.b)] = np.ceil(value)
-                new_inequalities[len(new_inequalities) - 1] = ">="
-                lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
-                )
+                lp_higher = lp.add_constraint(new_row, ">=", np.ceil(value))
 
                 higher_result = self.__branch(lp_higher)
 
-- 
2.43.0


From 7bf5d446a5ac9e432df70c7945615e1cae35b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 14/57] fix: branch and bound keeps the smaller branch when
 minimizing

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 5f7815e..a332115 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -122,7 +122,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From 90e82c3feb93d19d737f03a0048261177d59a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 15/57] fix: branch and bound reads integral variables with
 math indexing, as all other index lists

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index a332115..f96c1a5 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -87,7 +87,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 940b9558fdfbac778f12b9f85f9a338e9188f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 16/57] fix: feasible points of integer programs are integral

---
 pytimize/programs/_integer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index f96c1a5..c1b94b9 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -189,6 +189,11 @@ class IntegerProgram(LinearProgram):
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
-        return result
+
+        return result and all(
+            Comparator.is_integer(value)
+            for i, value in enumerate(x, 1)
+            if self._integral_variables is None or i in self._integral_variables
+        )
 
     # TODO override evaluate of base to take consideration of integers
-- 
2.43.0


From 4d1f4bbb9bd87b2e882ac6acc8ffa681bfac0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 17/57] fix: copies of integer programs are integer programs

---
 pytimize/programs/_integer.py | 37 +++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c1b94b9..264d9f7 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -187,6 +187,43 @@ class IntegerProgram(LinearProgram):
             self.negative_variables,
         )
 
+    def copy(self) -> "IntegerProgram":
+        """
+        Creates a deep copy of the integer program.
+
+        Returns
+        -------
+        result : IntegerProgram
+            The copy of the program.
+
+        """
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+        )
+
+        if self._integral_variables is not None:
+            p._integral_variables = self._integral_variables.copy()
+
+        p._steps = self._steps.copy()
+
+        return p
+
+    def to_sef(
+        self, show_steps: bool = True, in_place: bool = False
+    ) -> LinearProgram:
+        # slack variables are not integral, so the result is the form of the relaxation
+        if not in_place:
+            return super().copy().to_sef(show_steps, True)
+
+        return super().to_sef(show_steps, True)
+
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
 
-- 
2.43.0


From e993b855f7b9fda56ed8b747ddbd42bd15fc20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 18/57] fix: unconstrained maximization maximizes and returns
 the maximizer itself

---
 pytimize/programs/_unconstrained.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..aab3d65 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,8 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
         self._minimize = objective == "min"
+        self._f = f if self._minimize else lambda x: -f(x)
 
     def steepest_descent(
         self,
@@ -65,11 +63,13 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        gradient = df if self._minimize else lambda x: -df(x)
+
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            d = -gradient(x)
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * gradient(x) @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +77,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -116,4 +116,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From 92b66bb1d35f21ed406122223ca99ad5d27608b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 19/57] fix: unconstrained solvers no longer overwrite the
 caller's starting point

---
 pytimize/programs/_unconstrained.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index aab3d65..98cf8a4 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -63,6 +63,7 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
         gradient = df if self._minimize else lambda x: -df(x)
 
         for _ in range(int(max_iteration)):
@@ -108,6 +109,7 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-- 
2.43.0


From 17d250042dd49de0d0ef6d5cde3b997a1156c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 20/57] fix: drawing an empty polyhedron no longer leaves the
 limit box in the program

---
 pytimize/programs/_linear.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a36ffcf..c9cf08d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1397,11 +1397,7 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
         A = np.array([[0, 0], [0, 0]])
         b = np.array([0, 0])
@@ -1439,10 +1435,10 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
+                if inequalities[i] == "<=":
                     if value > copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
-                elif self._inequality_indices[i] == ">=":
+                elif inequalities[i] == ">=":
                     if value < copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
 
@@ -1473,12 +1469,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 254cdceec0ce3b24d97c8c8b8976b27d19cd21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 21/57] fix: graph_polyhedron intersects the lines given, not
 their truncated coefficients

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c9cf08d..d85276e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1399,8 +1399,8 @@ class LinearProgram:
 
         inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
-- 
2.43.0


From f4e6374c1837df1c9efa2ff5d98225b3e97f8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 22/57] fix: graph_polyhedron skips every pair of parallel
 lines

---
 pytimize/programs/_linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index d85276e..a939cde 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1416,11 +1416,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if Comparator.is_close_to_zero(np.linalg.det(A)):
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From f1d4471031b809e9db75a04671d2637a0b2f2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 23/57] fix: graph_polyhedron keeps corners on constraints with
 zero right-hand side

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a939cde..6143583 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1434,10 +1434,10 @@ class LinearProgram:
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
                 if inequalities[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value > copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
                 elif inequalities[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value < copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
 
             if valid_point:
-- 
2.43.0


From a80e6b80094eee5009a2a87122ba7724395db06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 24/57] fix: the unbounded direction is read off an improving
 column, not off rounding noise

---
 pytimize/programs/_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6143583..38861f9 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1092,7 +1092,9 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = next(
+                i for i, cost in enumerate(updated_lp.c) if Comparator.is_positive(cost)
+            )
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From fc4507c06ccc964441186100218e6fddb423492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 25/57] fix: is_in_rref requires leading ones to move right

---
 pytimize/programs/_linear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 38861f9..064678f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1843,6 +1843,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        last_leading_col = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1861,6 +1862,9 @@ class LinearProgram:
                 elif math.isclose(arr[row, col], 1):
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+                    if col < last_leading_col:
+                        return False
+                    last_leading_col = col
                     for r in range(shape[0]):
                         if not r == row and not math.isclose(arr[r, col], 0):
                             return False
-- 
2.43.0


From 0ba9af7260f63cccb998ae6b91ebc7a3bb2ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:07 +0000
Subject: [PATCH 26/57] fix: verify_unboundedness respects show_steps

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 064678f..904178b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1257,7 +1257,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 7cf391d8c3abdd41a8dff81059067ed8858af289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 27/57] fix: remove_edge removes the edge itself, not only the
 adjacency

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..bde90c8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -141,6 +141,7 @@ class UndirectedGraph:
 
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
+        del self._edges[tuple(sorted(edge))]
 
     def has_edge(self, edge: Tuple[str, str]) -> bool:
         """
-- 
2.43.0


From a01353f8bb6f1339c87d83bce9f30ec5029626ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 28/57] fix: copies and the reported adjacency no longer share
 the graph's sets

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bde90c8..7bc4df3 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -734,7 +734,7 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {vertex: set(others) for vertex, others in self._graph.items()}
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From d54f16abacad610a71c445b5e7e386c220696c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 29/57] fix: add_vertex rejects an empty name as add_edge does

---
 pytimize/graphs/_undirected.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 7bc4df3..ae672b0 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -176,6 +176,9 @@ class UndirectedGraph:
         if weight < 0:
             raise ValueError("Weight cannot be negative.")
 
+        if not vertex:
+            raise ValueError("Vertices cannot be an empty string.")
+
         if self.has_vertex(vertex):
             raise ValueError("The given vertex is already in graph.")
 
-- 
2.43.0


From f248c4a27278ab2cc523dac595fc6210ec2ab198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 30/57] fix: an undirected cut or degree of one vertex name
 takes the name as a whole

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ae672b0..78bffce 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -388,7 +388,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From c2ea2c02b462567a1d3406960aef8ea7b0501099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 31/57] fix: is_cyclic does not take walking back along an edge
 for a cycle

---
 pytimize/graphs/_undirected.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 78bffce..4d042ed 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -522,17 +522,21 @@ class UndirectedGraph:
         unexplored = set(self._vertices.keys())
 
         while len(unexplored) > 0:
-            queue = deque([next(iter(unexplored))])
+            queue = deque([(next(iter(unexplored)), None)])
             visited = set()
 
             while len(queue) > 0:
-                current = queue.popleft()
+                current, parent = queue.popleft()
 
                 if current in visited:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(
+                    (vertex, current)
+                    for vertex in self._graph[current]
+                    if not vertex == parent
+                )
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 12715d5cff0dab845c6e18d8b81c5048bbaeee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 32/57] fix: random traversal yields the vertices

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 4d042ed..82eaf81 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -478,7 +478,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From cdb0de0ae9f3ed22e78a2f9c2fd7569a4ebece6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 33/57] fix: dfs traverses depth first

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 82eaf81..ba04788 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -469,7 +469,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -486,7 +485,7 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
-- 
2.43.0


From 301c54765029f634b35600678a87f9716bd9d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 34/57] fix: partition follows the adjacency sets

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ba04788..0de9315 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -587,15 +587,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From ef06ceaecc9d8089700ca432deb3d5bd58652a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 35/57] fix: shortest_path works on the current adjacency and
 edge weights

---
 pytimize/graphs/_undirected.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 0de9315..1eab968 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -274,26 +274,22 @@ class UndirectedGraph:
             edges = set()
 
             for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
-                            potential[edge_hash] if edge_hash in potential else 0
-                        )
+                for neighbour in self._graph[vertex]:
+                    if neighbour not in visited:
+                        edge = tuple(sorted((vertex, neighbour)))
+                        slack = self._edges[edge] - potential.get(edge, 0)
 
-                        # print(edge_hash, slack)
-
-                        edges.add(edge_hash)
+                        edges.add(edge)
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, neighbour
 
-                        # print(visited, best_slack)
+            if best_edge is None:
+                raise ValueError("Ending vertex cannot be reached.")
 
-            for edge_hash in edges:
-                previous = potential.setdefault(edge_hash, 0)
-                potential[edge_hash] = previous + best_slack
+            for edge in edges:
+                potential[edge] = potential.get(edge, 0) + best_slack
 
             visited.add(best_edge[1])
             directed_graph.setdefault(best_edge[1], []).append(best_edge[0])
-- 
2.43.0


From bbc7375d3819c7a820e112551b211c6c504a5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 36/57] fix: formulate_shortest_path works on the current
 vertices and edges

---
 pytimize/graphs/_undirected.py | 40 ++++++----------------------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 1eab968..a6e18fa 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -314,11 +314,9 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
-
-        vertices.remove(start)
-        vertices.remove(end)
-
+        vertices = [
+            vertex for vertex in self._vertices if vertex not in (start, end)
+        ]
         power_set = []
         # TODO: BFS Disjoint st-cuts
         for i in range(2 ** len(vertices)):
@@ -331,40 +329,16 @@ class UndirectedGraph:
             current_set.add(start)
             power_set.append(current_set)
 
-        graph_edges = self.edges
-        A = {
-            self._hash_edge((edge[0], edge[1])): np.zeros(len(power_set))
-            for edge in graph_edges
-        }
+        A = {edge: np.zeros(len(power_set)) for edge in self._edges}
 
         for i, group in enumerate(power_set):
-            edges = set()
-
-            for vertex in group:
-                edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
-                )
-
-            for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
+            for edge in self.cut(group):
                 A[edge][i] = 1
 
-        ordered_A = []
-        ordered_edges = (
-            []
-        )  # ordered edges must point back to actual edges not hash TODO
-
-        for edge, coefficients in A.items():
-            ordered_A.append(coefficients)
-            ordered_edges.append(edge)
-
-        result_A = np.vstack(ordered_A).T
-        edge_positions = {edge: i for i, edge in enumerate(ordered_edges)}
-        result_c = np.zeros(len(ordered_edges))
+        result_A = np.vstack(list(A.values())).T
+        result_c = np.array(list(self._edges.values()))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
-
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
         )
-- 
2.43.0


From e12ab5b0600c87ce5d4da5e449927e03f7661836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 37/57] fix: formulate_max_stable_set handles a graph without
 edges

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index a6e18fa..fcd6a50 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -378,7 +378,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((0, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
@@ -386,7 +386,6 @@ class UndirectedGraph:
             row[mapping[b]] = 1
             A = np.vstack((A, row))
 
-        A = A[1:]
         b = np.ones(rows)
         c = np.zeros(columns)
         inequalities = ["<="] * (rows + columns)  # Includes x <= 1 columns
-- 
2.43.0


From f5772f3ef4effa86dcd16ad9874759fbb5a66215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 38/57] fix: add_arc takes one demand for one new node and
 checks demands before changing anything

---
 pytimize/graphs/_directed.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..58174ab 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,24 +97,25 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
-        if not a_exists and not b_exists:
-            if demands and not isinstance(demands, tuple):
+        if not isinstance(demands, tuple):
+            if demands and not a_exists and not b_exists:
                 raise TypeError(
                     "Demands must be a tuple of floats when both endpoints are new nodes."
                 )
 
-            self.add_node(arc[0], demands[0] if demands else 0)
-            self.add_node(arc[1], demands[1] if demands else 0)
-        elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
-        elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+            demands = (demands or 0, demands or 0)
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
+
+        if not a_exists:
+            self.add_node(arc[0], demands[0])
+
+        if not b_exists:
+            self.add_node(arc[1], demands[1])
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From 6c5c6c3b09e353d03b2a1545cc20a213e00852dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 39/57] fix: directed cuts of one node name take the name as a
 whole

---
 pytimize/graphs/_directed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 58174ab..2b9ae38 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -196,7 +196,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -221,7 +223,9 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return list(
-- 
2.43.0


From 0ec18aefc18b52d6048dcdb75ce9ee38d443889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 40/57] fix: preflow_push returns a value when there are only a
 source and a sink

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 2b9ae38..d03847b 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -462,8 +462,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From 6775ed1a61a0b29d7fc6f5cfa9098b9c6f2663df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 41/57] fix: residual capacities account for arcs in both
 directions

---
 pytimize/graphs/_directed.py | 85 +++++++++++++++---------------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index d03847b..1d00406 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -350,13 +350,43 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push_flow(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        u: str,
+        v: str,
+        amount: float,
+    ) -> None:
+        # use the capacity left on the arc first, then take back flow on the reverse arc
+        forward = min(amount, self._arcs[(u, v)] - flow[(u, v)]) if (u, v) in flow else 0
+
+        if forward > 0:
+            flow[(u, v)] += forward
+
+        if amount > forward:
+            flow[(v, u)] -= amount - forward
+
+        for a, b in ((u, v), (v, u)):
+            remaining = flow.get((b, a), 0)
+
+            if (a, b) in flow:
+                remaining += self._arcs[(a, b)] - flow[(a, b)]
+
+            if remaining > 0:
+                residual.setdefault(a, {})[b] = remaining
+            elif b in residual.get(a, {}):
+                del residual[a][b]
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -412,35 +442,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
-
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
 
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(flow, residual, node, endpoint, push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -537,28 +541,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(flow, residual, u, v, min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 0f633d41d4c8985b52fcefeecfd22ee35bf7f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 42/57] fix: arithmetic on linear expressions keeps constants
 and leaves the operands unchanged

---
 pytimize/formulations/linear/_equation.py | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..4f60119 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,26 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return self * -1
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = dict(self._terms)
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                terms[label] = terms.get(label, 0) + coefficient
 
-                self._terms[label] += coefficient
+            constant += other.constant
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            terms[other.key] = terms.get(other.key, 0) + 1
 
-            self._terms[other.key] += 1
-
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +51,11 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
+            terms = {
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
-            return self
+            return LinearEquation(terms, self._constant * other)
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From db4f8b9546f384679c9d1193f327c4792687f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 43/57] fix: a linear expression can be compared with a
 variable

---
 pytimize/formulations/linear/_equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 4f60119..2350d89 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -77,6 +77,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "key"):
+            other = other.equation
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
-- 
2.43.0


From 1cbf6c2a51c8087eb5fb39680a07679db3985217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 44/57] fix: comparing a constant expression with terms negates
 the terms moved to the left

---
 pytimize/formulations/linear/_equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 2350d89..77a0863 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -91,14 +91,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
-- 
2.43.0


From 8af0004e7e414668c39a52486c6e482d084ed6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 45/57] fix: a single variable can be the objective of a
 formulation

---
 pytimize/formulations/linear/_objective.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..5750f79 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,9 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        if hasattr(equation, "key"):
+            equation = equation.equation
+
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
-- 
2.43.0


From ff804ebc319b3bd831baed74272f6931de9f30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 46/57] fix: a formulation has columns for the variables only
 its objective mentions

---
 pytimize/formulations/linear/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 5750f79..e09896e 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -27,6 +27,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From 088c2ff6fafd85937106377d7f7992b4adbc28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 47/57] fix: refused sign restrictions leave the formulation
 unchanged

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..479d25d 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = list(self._positive_variables)
+        negative_variables = list(self._negative_variables)
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From 9d2ca25dbe9fad3aa1da0723cbd2b9d0b32c1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 48/57] fix: integer formulations build integer programs

---
 pytimize/formulations/integer/_abstract.py  | 3 ++-
 pytimize/formulations/integer/_objective.py | 3 ++-
 pytimize/formulations/linear/_abstract.py   | 4 +++-
 pytimize/formulations/linear/_objective.py  | 4 +++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/integer/_abstract.py b/pytimize/formulations/integer/_abstract.py
index 90dc3e4..ba8c0dc 100644
--- a/pytimize/formulations/integer/_abstract.py
+++ b/pytimize/formulations/integer/_abstract.py
@@ -1,5 +1,6 @@
+from ...programs import IntegerProgram
 from ..linear._abstract import AbstractLinearProgram
 
 
 class AbstractIntegerProgram(AbstractLinearProgram):
-    pass
+    _program_type = IntegerProgram
diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 384e34c..4c189c2 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -2,10 +2,11 @@ from typing import Union
 
 from ..linear._equation import LinearEquation
 from ..linear._objective import ObjectiveFunction as LinearObjective
+from ._abstract import AbstractIntegerProgram
 
 
 class ObjectiveFunction(LinearObjective):
-    pass
+    _abstract_type = AbstractIntegerProgram
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 479d25d..8fa835f 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -7,6 +7,8 @@ from ._constraint import VariableConstraint
 
 
 class AbstractLinearProgram:
+    _program_type = LinearProgram
+
     def __init__(
         self,
         A: np.ndarray,
@@ -99,7 +101,7 @@ class AbstractLinearProgram:
                 filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))
             )
 
-            self._program = LinearProgram(
+            self._program = self._program_type(
                 self._A,
                 self._b,
                 self._c,
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index e09896e..aca99d2 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -9,6 +9,8 @@ from ._utilities import pad_right
 
 
 class ObjectiveFunction:
+    _abstract_type = AbstractLinearProgram
+
     def __init__(self, equation: LinearEquation, objective: str):
         if hasattr(equation, "key"):
             equation = equation.equation
@@ -43,7 +45,7 @@ class ObjectiveFunction:
         A = A[1:]
         b = b[1:]
 
-        return AbstractLinearProgram(
+        return self._abstract_type(
             A, b, pad_right(self._c, length), self._z, self._objective, inequalities
         )
 
-- 
2.43.0


From 23d82af3591544a12bb2955323e5b65bfc694e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 49/57] fix: the linear parser accepts only + and - as signs
 and no trailing newline

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..e4a0d01 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*\Z")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From 66f55f1faae5b2923657a12e2cfc9eb152470421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 50/57] fix: the linear parser rejects index 0

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index e4a0d01..f87089e 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -15,7 +15,7 @@ class LinearParser:
             for sign, coefficient, index in term.findall(expression):
                 index = int(index) - 1
 
-                if index in data:
+                if index in data or index < 0:
                     raise Exception()
                 else:
                     data[index] = float(("-" if sign == "-" else "") + coefficient)
-- 
2.43.0


From 61551a24cbefa1e6f701acfd4e756029532ef2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 51/57] fix: the graph parser does not accept a trailing
 newline

---
 pytimize/parsers/_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..1326a79 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -28,13 +28,13 @@ class GraphParser:
 
     @staticmethod
     def get_expression_type(candidate: str) -> int:
-        validation_one = re.compile(r"^(?:\w\w)(?:\s\w\w)*$")
-        validation_two = re.compile(r"^(?:\w+-\w+)(?:\s\w+-\w+)*$")
+        validation_one = re.compile(r"^(?:\w\w)(?:\s\w\w)*\Z")
+        validation_two = re.compile(r"^(?:\w+-\w+)(?:\s\w+-\w+)*\Z")
         validation_three = re.compile(
-            r"^(?:\w\w:\d+(?:\.\d+)?)(?:\s\w\w:\d+(?:\.\d+)?)*$"
+            r"^(?:\w\w:\d+(?:\.\d+)?)(?:\s\w\w:\d+(?:\.\d+)?)*\Z"
         )
         validation_four = re.compile(
-            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?:\s\w+-\w+:\d+(?:\.\d+)?)*$"
+            r"^(?:\w+-\w+:\d+(?:\.\d+)?)(?:\s\w+-\w+:\d+(?:\.\d+)?)*\Z"
         )
         result = -1
 
-- 
2.43.0


From 84a00c03d54dbe6a27620c118b350b0eb8fb37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 52/57] fix: printing a program without constraints raised
 UnboundLocalError

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 904178b..1a6ad4c 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -369,7 +369,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
-- 
2.43.0


From 4cb4c31e9924d7cb4fd3592c2f9ee815ff725424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 53/57] fix: the integrality of a printed integer program ran
 into the sign line

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 264d9f7..f3bceef 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -33,7 +33,7 @@ class IntegerProgram(LinearProgram):
         output = super().__repr__().rstrip("\n")
 
         if self._integral_variables is None:
-            output += "x ∈ Z"
+            output += "\nx ∈ Z"
 
         return output
 
-- 
2.43.0


From cab67cdcb948a559457db6034ecf3650e33367fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 54/57] fix: basic solution steps name the vector, the basis as
 given and the zero columns

---
 pytimize/parsers/_description.py | 2 +-
 pytimize/programs/_linear.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/parsers/_description.py b/pytimize/parsers/_description.py
index 5737821..34aaf5e 100644
--- a/pytimize/parsers/_description.py
+++ b/pytimize/parsers/_description.py
@@ -31,7 +31,7 @@ _steps = {
     "4.04": "{} is A Basic Solution for Basis {}",
     "4.05": "{} is Not A Basic Solution for Basis {}",
     "4.06": "Ax = b",
-    "4.07": "Columns of Basis are Zero",
+    "4.07": "Columns Outside of Basis are Zero",
     "5.01": "{}",
     "5.02": "Iteration {} =================================",
     "5.03": "Solution: {}",
diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 1a6ad4c..71c46e3 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -587,14 +587,14 @@ class LinearProgram:
         if not self.is_basis(basis):
             raise ValueError()
 
-        show_steps and self.__append_to_steps(("4.01", basis))
+        show_steps and self.__append_to_steps(("4.01", x))
 
         basis = self.__array_like_to_list(basis)
-        basis = self.__convert_indices(basis, 0, self._c.shape[0])
+        indices = self.__convert_indices(basis, 0, self._c.shape[0])
         result = True
 
         for i in range(self._c.shape[0]):
-            if i not in basis and not Comparator.is_close_to_zero(x[i]):
+            if i not in indices and not Comparator.is_close_to_zero(x[i]):
                 show_steps and self.__append_to_steps(("4.02", i + 1))
 
                 result = False
-- 
2.43.0


From fdd976201020cba57ddd0c79b88c33ddf5513f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 55/57] fix: integer programs that differ in integrality are
 not equal

---
 pytimize/programs/_integer.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index f3bceef..799f240 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -1,5 +1,5 @@
 import math
-from typing import List, Optional, Tuple, Union
+from typing import List, Optional, Set, Tuple, Union
 
 import numpy as np
 
@@ -37,6 +37,25 @@ class IntegerProgram(LinearProgram):
 
         return output
 
+    def __eq__(self, other: "IntegerProgram") -> bool:
+        if not isinstance(other, IntegerProgram):
+            return False if isinstance(other, LinearProgram) else NotImplemented
+
+        return (
+            super().__eq__(other)
+            and other._integral_indices() == self._integral_indices()
+        )
+
+    def _integral_indices(self) -> Set[int]:
+        """
+        Helper function for getting the indices of the integral variables. Uses math indexing.
+
+        """
+        if self._integral_variables is None:
+            return set(range(1, self._c.shape[0] + 1))
+
+        return set(self._integral_variables)
+
     def branch_and_bound(self) -> Optional[np.ndarray]:
         """
         Applies the branch and bound solution method.
-- 
2.43.0


From 0a6c98556fb8f2fe06499e668eebc26a8bed7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 56/57] fix: comparing an undirected graph with something else
 raised AttributeError

---
 pytimize/graphs/_undirected.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index fcd6a50..18b0649 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -96,6 +96,9 @@ class UndirectedGraph:
         Whether or not the other is the same graph. 
 
     """
+        if not isinstance(other, UndirectedGraph):
+            return NotImplemented
+
         return (
             other._graph == self._graph
             and other._edges == self._edges
-- 
2.43.0


From 46d3c21bb4a3052b0eea3a0735447bdecbccacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 57/57] fix: the in-place standard form of an integer program
 kept the integrality of other variables

---
 pytimize/programs/_integer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 799f240..27eba0a 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -241,6 +241,25 @@ class IntegerProgram(LinearProgram):
         if not in_place:
             return super().copy().to_sef(show_steps, True)
 
+        if self._is_sef:
+            return self
+
+        integral = self._integral_indices()
+        free = set(self._free_variables)
+        indices = []
+        index = 1
+
+        # free variables are split in two and slack variables are not integral
+        for i in range(self._c.shape[0]):
+            width = 2 if i in free else 1
+
+            if i + 1 in integral:
+                indices.extend(range(index, index + width))
+
+            index += width
+
+        self._integral_variables = indices
+
         return super().to_sef(show_steps, True)
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
-- 
2.43.0

