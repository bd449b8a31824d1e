From 76e60a6fb47ee3374574c3a8796a6889f77de0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 01/28] fix: act/qact treat q1 and q2 as scalars

Products on OG(n,2n+2) contain the quantum parameters q1 and q2; feeding such
a product back into qact/qmult/qtoS raised because only q was excluded from
the special-class variables.
---
 schubertpy/abstract_grassmannian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..b27742d 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -192,8 +192,7 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From 9e3b35c3bb8cf2a26eb36e06e801d821b3facb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 02/28] fix: part2index accepts a list

The list branch called the module-level qcalc.part2index, which has no type set
and always raises.
---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..486b20b 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -101,7 +101,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..3101f67 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -114,7 +114,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..8bee014 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -154,7 +154,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
-- 
2.43.0


From e4a1af47195d4e2ddb1949e0346b0a877db05f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 03/28] fix: OrthogonalGrassmannian.part2pair/pair2part accept
 a list

The list was turned into a symbol before being handed to a function that
expects a list.
---
 schubertpy/orthogonal_grassmannian.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8bee014..b5b8614 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -137,7 +137,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -146,7 +145,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
-- 
2.43.0


From 8cfcf95bc89f0a72d158eb08a3b73b486f259432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 04/28] fix: type_swap accepts a list

The recursive call dropped the required argument k.
---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 486b20b..2128935 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -120,7 +120,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 3101f67..da18e47 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -133,7 +133,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index b5b8614..186ebe6 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -184,7 +184,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From f74ffad76bf7d6d09a56c400498465097e2c9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 05/28] fix: schub_type accepts a Schur

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 186ebe6..2a646af 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -192,7 +192,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if isinstance(lam, Schur):
+            lam = lam.partition()
+        if self._type != "D" or not isinstance(lam, list):
             raise ValueError("No type defined.")
         
         if self._k not in lam:
-- 
2.43.0


From 0edd9faf11d6468ab5e0cbf406a9c7e993752c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 06/28] fix: clone reproduces isotropic and orthogonal
 Grassmannians

The constructor takes (m, N) with N the dimension of the vector space, not (m, n).
---
 schubertpy/abstract_grassmannian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index b27742d..a30c8e7 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,8 +100,9 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
-        
+        _, _, _, _, m, n, _ = self.get_type_data()
+        return self.__class__(m, n)
+
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
-- 
2.43.0


From 1d9329eac72d3fcf205a1b32e40b11880fb7a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 07/28] fix: OrthogonalGrassmannian rejects impossible
 dimensions

As qcalc.mpl does ("Need 0 <= k <= n"); schub_classes() did not terminate for
2m > N.
---
 schubertpy/orthogonal_grassmannian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 2a646af..e21026a 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -51,6 +51,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             self._pieri = self.pieriD_inner
             self._qpieri = self.qpieriD_inner
 
+        if self._k < 0 or self._k > self._n:
+            raise ValueError("Need 0 <= k <= n.")
+
 
     def __str__(self) -> str:
         td = [
-- 
2.43.0


From 3de0d2d51986b4f53090cc73e1dd41b6615f8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 08/28] fix: pieri(i, list) returns a LinearCombination in
 types B and C

---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index a30c8e7..fa7a0c4 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -106,7 +106,7 @@ class AbstractGrassmannian(ABC):
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
-            return self._pieri(i, lc, self._k, self._n)
+            return LinearCombination(self._pieri(i, lc, self._k, self._n))
         else:
             return apply_lc(lambda p: self._pieri(i, p, self._k, self._n), lc)
 
-- 
2.43.0


From e06add05875ad640e69460f0a85a44b66a732884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 09/28] fix: SchurPol and Schur.to_polinomial_str leave their
 partition unchanged

Trailing zeros were popped from the caller's list, turning S[2,1,0] into S[2,1].
---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..4aa54bd 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From bda566bd26ea645159167e9d20a4ee2bca785c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 10/28] fix: schur_expansion raises ValueError on a sum
 containing a power

It tested self.expr instead of the term at hand and recursed for ever.
---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..8e97ed0 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -283,10 +283,10 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
-- 
2.43.0


From 32ca53a77cbaf3f47325f237468ba0fa24dbbc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 11/28] fix: subtracting a scalar from a LinearCombination
 gives a LinearCombination

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 8e97ed0..321033d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From db96ef202e7ebf4a132fdb0768f017fd5208e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 12/28] fix: draw_ascii_partition draws terms with an empty
 partition

---
 schubertpy/lc.py        | 4 ++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 321033d..1186ef1 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -333,14 +333,14 @@ class LinearCombination(object):
         
         # Prepare the ASCII art lines
         ascii_lines = []
-        max_height = 0
+        max_height = 1
         
         for coeff, part in expansion:
             max_height = max(max_height, len(part))
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index 4aa54bd..f77303b 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From b6f63d085a02996b47f42cff2186938ffa5451e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 13/28] fix: schur_to_sage_schur passes the partition, not the
 bound method

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From 9a24d3cfda3b491e07c8f3c39e0e2eaff1b8f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 14/28] fix: Schur arithmetic accepts a zero LinearCombination

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..4ca6714 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From b4f7df66c2c4f72b1456078c079ce84704215579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 15/28] fix: point_class of Gr(n,n) is S[]

---
 schubertpy/grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 2128935..b00ae32 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -90,7 +90,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From 3b3cfefb7dfe3b73440990d118f1f8fe6d2fbcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 16/28] fix: qmult_rh signs for products of quantum degree two
 and more

remove_rim_hooks returned the number of rows of the whole removed region instead
of the accumulated heights of the removed hooks, and the sign used k once
instead of once per hook (docs/remove_rim_hooks.md: sign = (-1)^(height - k*q_num)).
---
 schubertpy/grassmannian.py | 2 +-
 schubertpy/partition.py    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index b00ae32..927d773 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = (-1)**(height - kp*q_num)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..9eebf76 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -98,6 +98,7 @@ class Partition:
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_height = 0  # Initialize the total height of the removed rim hooks
         
         while True:
             _partition = current_partition + [0]  # Append 0 to handle the difference calculation
@@ -131,18 +132,19 @@ class Partition:
                 # Accumulate the height of the removed rim hook
                 if not _is_non_increasing(_partition):
                     # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 _partition = part_clip(_partition)
                 new_partition = Partition(_partition)
+                total_height += skew_partition_height(new_partition.partition, current_partition)
 
                 if new_partition.is_in_range(nrow, ncol):
                     # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
+                    return new_partition, total_rim_hooks_removed, total_height
 
                 if new_partition.partition == current_partition:
                     # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 # Update the partition for the next iteration
                 current_partition = new_partition.partition
-- 
2.43.0


From c37366a2ad1af5aeb17a4f78fc77acddf942e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 17/28] fix: schur_expansion(include_q=False) drops a single
 q-term

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 1186ef1..3c81782 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -278,6 +278,8 @@ class LinearCombination(object):
             return (int(expr),[])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
+        if not include_q and not isinstance(expr, sp.Add) and 'q' in str(expr):
+            return []
         if isinstance(expr, sp.Mul):
             if self._count_Schur(expr) > 1:
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
-- 
2.43.0


From d36f4e594c42a7f3bc1b65c32c0022f7acb1c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 18/28] fix: Schur of a tuple prints and compares as a
 partition

Schur((2,1)) printed as S(2,1) and could not be turned into a symbol.
---
 schubertpy/schur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 4ca6714..cc51f64 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -12,7 +12,7 @@ class Schur(object):
     def __init__(self, p: Union[List[int], sp.Expr, str, 'Schur']):
         # Set self.p to p or [] if p is None
         if isinstance(p, (list, tuple)):
-            self.p = p if p is not None else []
+            self.p = list(p)
             return
         if isinstance(p, Schur):
             self.p = p.p
-- 
2.43.0


From 590d43a4bd0dffbfbffa7108c1ffc5c786e65148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 19/28] fix: qmult_rh returns integer coefficients

(-1) raised to a negative integer is a float in Python, so terms came out as
1.0*S[1]*q.
---
 schubertpy/grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 927d773..366dbcc 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height - kp*q_num)
+            sign = (-1)**(abs(height - kp*q_num))
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
-- 
2.43.0


From 9b402192449cce7353cb341a85f02cb1e51cc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:09 +0000
Subject: [PATCH 20/28] fix: csv comparison reads ^ as a power

---
 schubertpy/csv_bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index 48c88c3..b934b90 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -10,7 +10,7 @@ def _read_csv_transformed(filename):
             if not any(row):
                 continue
             if len(row) >= 3:
-                col3 = encode(row[2])
+                col3 = encode(row[2]).replace('^', '**')
                 col3 = sp.parse_expr(col3)
                 col3 = sp.expand(col3).simplify()
                 col3 = decode(str(col3))
-- 
2.43.0


From 279e29ae2287c9dbb03960b6df8e7e60755a0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 21/28] fix: schub_classes of Gr(0,n) is the list of the one
 class

---
 schubertpy/qcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 70e8b9b..e7786b2 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -78,7 +78,7 @@ def part_gen(lam: List[int]):
     if lam is None:
         return []
     if lam == []:
-        return []
+        return [[]]
     
     mu = lam.copy()
     ret = []
-- 
2.43.0


From 4450b09a3bbbacb43ead9cde25e864961ad0ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 22/28] fix: hook heights do not count empty rows

---
 schubertpy/partition.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index 9eebf76..c953b07 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -185,9 +185,6 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
-
     # Validation: Ensure lambda is contained within mu
     for i in range(len(lambda_partition)):
         if i >= len(mu_partition):
-- 
2.43.0


From 3f1e2b7edd9706e62d5dad57f62b796ac054505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 23/28] fix: schur_expansion rejects products containing powers
 of Schubert symbols

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 3c81782..b79e674 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -233,7 +233,7 @@ class LinearCombination(object):
 
     def _count_Schur(self, expr) -> int:
         if isinstance(expr, sp.Mul):
-            return sum(1 for arg in expr.args if isSchur(arg))
+            return sum(1 for arg in expr.args for sym in arg.free_symbols if isSchur(sym))
         raise ValueError(f"Invalid type for counting Schur: {expr}")
     
     def _cutoff_Schur(self, expr) -> Tuple['LinearCombination', 'Schur']:
-- 
2.43.0


From ec0fbeee724b6250fa7fd06cbd00bd9dc37aca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 24/28] fix: quantum products on IG are returned expanded

---
 schubertpy/isotropic_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index da18e47..789703c 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -157,4 +157,4 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         q = sp.Symbol('q')
         inner_result = self.pieriC_inner(i, lam, k, n)
         second_term = q/2 * apply_lc(lambda x: part_star(x, n+k+1), self.pieriC_inner(i, lam, k, n+1))
-        return inner_result + second_term
+        return LinearCombination(sp.expand((inner_result + second_term).expr))
-- 
2.43.0


From 9e980c4bc9b002d8eff09a82709a8cc6ea08cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 25/28] fix: qpieri returns a result of its own, not the
 remembered one

---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index fa7a0c4..7c3c8c0 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -138,7 +138,7 @@ class AbstractGrassmannian(ABC):
         lc = LinearCombination(lc)
         if isSchur(lc.expr):
             lam = toSchur(lc.expr).p
-            return self._qpieri(i, lam, self._k, self._n)
+            return LinearCombination(self._qpieri(i, lam, self._k, self._n))
         return apply_lc(lambda p: self._qpieri(i, p, self._k, self._n), lc)
 
 
-- 
2.43.0


From b2e64c75935faaa34a162b815bf8ba33cdd95687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 26/28] fix: schur_expansion keeps fractional constants

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index b79e674..7a23766 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -275,7 +275,7 @@ class LinearCombination(object):
             expression type is not supported for Schur expansion.
         """
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_Integer else expr, [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if not include_q and not isinstance(expr, sp.Add) and 'q' in str(expr):
-- 
2.43.0


From deb165b6eadf7515fb83add5d370719f1b756523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 27/28] fix: schur_expansion of quantum products with
 unexpanded terms raised

---
 schubertpy/lc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7a23766..4b0039e 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -313,7 +313,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
-        return self._schur_expansion(self.expr, include_q)
+        # products computed by a Grassmannian can come as q*(S[1,1] + S[2])
+        return self._schur_expansion(sp.expand(self.expr), include_q)
 
     def draw_ascii_partition(self, include_q=True):
         """
-- 
2.43.0


From d74e9597acce621f0d06409841b63d22f8621497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 28/28] fix: qpieri on OG(n,2n+2), n >= 8, relied on the
 iteration order of a set

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index e21026a..1d78c7c 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -299,7 +299,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0

