From 462dbe5a6302464b6006bc6fe3715606e1c49a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 01/14] fix: elimination must not drop a contradictory all-zero
 row

An all-zero row with nonzero b has no solution, but it was dropped together
with the redundant 0 = 0 rows. The search then went on with rows that do not
satisfy the system: solve() for (22, 9, 4, 3) yielded 7 matrices that are not
strongly regular.
---
 srg/gauss_elim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..15e3561 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,8 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    if any(k == 0 and v != 0 for k, i, v in h):
+        raise srg.NoSolution('an all-zero row of A cannot equate nonzero element in b')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From e7b16322e97097e38712dad6fe923d5b4efa68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 02/14] fix: encode rows and columns of 64 and more bits

The shifts overflowed int64, so columns that differ only in an old row were
taken for equal (solve() for (90, 88, 86, 88) yielded nothing) and elim()
returned too few columns.
---
 srg/gauss_elim.py | 5 +++--
 srg/unique.py     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index 15e3561..6457b9d 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -89,9 +89,10 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    dtype = int if C < 64 else object  # more bits than int64 holds need python int
+    _sum = A[:, -1].copy().astype(dtype)
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(dtype) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..d1a6fbe 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(int if R < 64 else object)  # more bits than int64 holds need python int
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From 3160f717026c53030d096ac6b86177928ab33b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 03/14] fix: maximize must not shuffle columns that tie

The default argsort is not stable: for int8 matrices of more than 16 vertices
ties were permuted, and the result could encode smaller than the input, eg.
for the 21_10_5_4 solutions.
---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..f6ef0a4 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -58,7 +58,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a, kind='stable')  # large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 71c07d14873bd72fb62d069d50aba78adfcb5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 04/14] fix: maximize stopped refining some column ranges

A range whose entries are all one, or that starts at the row's own vertex, was
never sorted again by the later rows, so the result could still be enlarged by
swapping columns. A vertex joined to all the others raised a TypeError.
---
 srg/sorter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index f6ef0a4..b29315f 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -34,11 +34,11 @@ class AdjMat:
         c1 = si.colrange[1]
         di = si.div_index
 
-        c0_new = c0 + 1 if row + 1 == c0 else c0
-        si1 = SortInstruct(row=row + 1, colrange=(c0_new, di), div_index=None)
+        # vertex row + 1 itself may lead either part. it stays in place, so leave it out.
+        si1 = SortInstruct(row=row + 1, colrange=(max(c0, row + 2), di), div_index=None)
         di1 = self._sort(row=si1.row, colrange=si1.colrange)
 
-        si2 = SortInstruct(row=row + 1, colrange=(di, c1), div_index=None)
+        si2 = SortInstruct(row=row + 1, colrange=(max(di, row + 2), c1), div_index=None)
         di2 = self._sort(row=si2.row, colrange=si2.colrange)
 
         if di1:
@@ -70,11 +70,11 @@ class AdjMat:
 
         self.Mat = S
 
-        # find the first zero index
+        # find the first zero index. it is the end of colrange if there is no zero
         s = S[row, colrange[0]:colrange[1]]
         zero_indices = np.where(s == 0)[0]  # where returns a tuple. take the 1st element, which is an array
 
-        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else None
+        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else colrange[1]
 
         return first_zero_index
 
-- 
2.43.0


From fdc375480fa1565857c6c1cbb2c285641fd3a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 05/14] fix: python -m srg.database fails to import

srg.util and assert_arg do not exist: they are srg.utils and assert_srg.
---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From f1dbe1d69d0746647f93e825bc650e2125218f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 06/14] fix: exact determinant of conference graphs

Powers of the irrational eigenvalues were multiplied in floating point, so the
determinant was off from v = 33 on.
---
 srg/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..660ac54 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,9 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:  # irrational eigenvalues. their product is u - k
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From a664af644bb294262d79a343e8bf9f2f7f200b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 07/14] fix: print answers of 32 and more vertices in full

numpy abbreviates arrays of more than 1000 elements.
---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..0c84b18 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -6,6 +6,7 @@ from . import pprint
 from . import utils
 from . import solver
 from . import sorter
+import numpy as np
 import sys
 
 
@@ -20,6 +21,7 @@ if __name__ == '__main__':
     s = SRG(solver._seed(v, k, l, u))
     ansgen = solver.solve(s)
     ans :list = sorter.sort(ansgen)
+    np.set_printoptions(threshold=sys.maxsize)  # print large matrices in full
     pprint.green('*********** answers *************')
     for ans in ans:
         pprint.green(ans)
-- 
2.43.0


From 122e0244f6f9926b872ab41624ccddce4521aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 08/14] fix: return annotation of unique._encode

It returns an array, not a list. Cython 3 enforces the annotation, so the
cythonized package raised a TypeError on every search.
---
 srg/unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/unique.py b/srg/unique.py
index d1a6fbe..974e02e 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -4,7 +4,7 @@
 import numpy as np
 
 
-def _encode(A: np.array) -> list:
+def _encode(A: np.array) -> np.array:
     '''
     A = np.array([[1, 1, 1, 1, 0, 0, 0],
                   [1, 1, 0, 0, 1, 1, 0],
-- 
2.43.0


From b6aa7105c65cfc630b60ae8b72ab9d9a17f471da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 09/14] fix: sums and counts above 127 do not fit the arrays

Group sizes, degrees and numbers of common neighbours beyond one signed byte
ended the search with an OverflowError, eg. for (132, 1, 0, 0), (14, 12, 0, 132)
and (256, 128, 0, 128).
---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..7a2df71 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=np.int16)
+ones = partial(np.ones, dtype=np.int16)
+zeros = partial(np.zeros, dtype=np.int16)
+identity = partial(np.identity, dtype=np.int16)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From 05ae879382bafb6be71f069af0388630ffa449b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 10/14] fix: splitting at a bound of 127 listed nothing

The bound plus one overflowed its int8.
---
 srg/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/fork.py b/srg/fork.py
index e53d332..2264fcf 100644
--- a/srg/fork.py
+++ b/srg/fork.py
@@ -19,7 +19,7 @@ def enum(quota: int, bounds: np.array, loc: int):
     m, bounds_rest = _pop_ele(bounds, loc)
 
     start_from = max(0, quota - bounds_rest.sum())
-    for quota_used in range(start_from, m + 1):  # q = 0,1,2
+    for quota_used in range(start_from, int(m) + 1):  # q = 0,1,2
         quota_rest = quota - quota_used
         yield quota_used, quota_rest
 
-- 
2.43.0


From 597282c8c78a8b5fb59c8bbc07d945bee4bb33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 11/14] fix: close every figure after it is saved

Drawing a problem left one open figure per solution behind, 161 of them for
28 12 6 4.
---
 srg/database/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srg/database/__init__.py b/srg/database/__init__.py
index a8923b8..0d933b8 100644
--- a/srg/database/__init__.py
+++ b/srg/database/__init__.py
@@ -65,4 +65,5 @@ def draw(v, k, l, u):
         plt.axis('equal')
         pngname = f'srg_{v}_{k}_{l}_{u}_{i}.png'
         fig.savefig(pngname)
+        plt.close(fig)
         print(f'srg_{v}_{k}_{l}_{u}_{i}.png')
\ No newline at end of file
-- 
2.43.0


From 4c602fe210968d2d939677fbb6a7ee3f23125eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 12/14] fix: maximize put zeros first in matrices of unsigned
 type and failed on booleans

---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b29315f..1b58728 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -58,7 +58,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a, kind='stable')  # large element first, so negate a.
+        i = np.argsort(1 - a, kind='stable')  # large element first. -a would wrap in unsigned types
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 61e3e5759017d011b4b7f9c71ba0abd64540acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 13/14] fix: sort misplaced matrices of unsigned type and
 failed on booleans

---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index 1b58728..53c38c9 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -91,7 +91,7 @@ def maximize(A):
 def _cmp_1d_bin_array(arr, brr):
     for a, b in zip(arr, brr):
         if a == b: continue
-        else: return a - b
+        else: return 1 if a > b else -1  # a - b would wrap in unsigned types
     else: return 0
 
 def _encode(srg_matrix):
-- 
2.43.0


From d26e0f56b5361af916e984abc232f4b66e08d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 14/14] fix: eig failed on parameters whose squared eigenvalue
 difference exceeds 64 bits

---
 srg/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/srg/utils.py b/srg/utils.py
index 660ac54..80c53f1 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -3,18 +3,22 @@
 
 from .srg import Question
 from . import pprint
+import math
 import numpy as np
 from . import srg
 
 def eig(v: int, k: int, l: int, u: int):
     conf = conference(v, k, l, u)  # if conference graph, conf == 0, so D becomes non-integer
 
-    D = np.sqrt((l - u) ** 2 + 4 * (k - u))
-    D = int(D) if conf != 0 else D
+    D = (l - u) ** 2 + 4 * (k - u)
+    D = math.isqrt(D) if conf != 0 else math.sqrt(D)  # exact for integers of any size
 
-    eig = k, ((l - u) + D) / 2, ((l - u) - D) / 2
-    eig = tuple(int(x) if conf != 0 else x for x in eig)  # if not conference graph, eigvalues are integer
-    mul = 1, int(((v - 1) - conf / D) / 2), int(((v - 1) + conf / D) / 2)  # multiplicity is always integer
+    if conf != 0:  # if not conference graph, eigvalues are integer
+        eig = k, (l - u + D) // 2, -((u - l + D) // 2)
+        mul = 1, ((v - 1) * D - conf) // (2 * D), ((v - 1) * D + conf) // (2 * D)  # multiplicity is always integer
+    else:
+        eig = k, (l - u + D) / 2, (l - u - D) / 2
+        mul = 1, (v - 1) // 2, (v - 1) // 2
 
     return tuple(zip(eig, mul))
 
-- 
2.43.0

