From 80ea22df07bdfe6732f37e2fdde98625631df868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 01/46] fix: derivative, normal and length of a line no longer
 raise IndexError

---
 PathLib/Bezier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..3e5a59d 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,13 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            # the derivative of a line is constant
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From 4b4b1b52721d293f44b0e9a60ef79fc8ccc3eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 02/46] fix: splitting a line no longer raises IndexError

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 3e5a59d..26f5f13 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -440,7 +440,10 @@ class Bezier(object):
 
         # no shortcut: use "de Casteljau" iteration.
         q = self.hull(t1)
-        if self.order == 2:
+        if self.order == 1:
+            left = Bezier([q[0], q[2]])
+            right = Bezier([q[2], q[1]])
+        elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
         else:
-- 
2.43.0


From a93eeb13e7a8cd3fe8cf6cf8ab3254f7f5cea9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 03/46] fix: offset(t, 0) is the offset point at t, not the
 curve offset by t

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 26f5f13..98380e6 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -752,7 +752,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From 0f0d4b579bd0f15a1c73ff7cc6eef34be4e5f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 04/46] fix: droots no longer loses roots to cancellation when
 the quadratic term is tiny

---
 PathLib/BezierUtilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..d047b41 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -156,9 +156,13 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         if d != 0:
             m1 = - sqrt(b * b - a * c)
             m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            # The roots are -(m1 + m2) / d and -(-m1 + m2) / d, but one of these
+            # subtracts nearly equal numbers if d is small. (it might only be
+            # rounding error...) The product of the roots is a / d, so use
+            # that to compute this root from the other one.
+            m = m1 - m2 if m2 > 0 else -m1 - m2
+            if m == 0: return [0.0, 0.0]
+            return [a / m, m / d] if m2 > 0 else [m / d, a / m]
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From db17e6e529ba7a01d46f5a4189262319b9376983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 05/46] fix: bounds rectangles are tight for coordinates beyond
 +/-32768

---
 PathLib/PathUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..d5c38d6 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
-- 
2.43.0


From 7041a6484664e6a451fc5d58ae68190623ca9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 06/46] fix: a failing length query no longer changes the
 caller's decimal precision

---
 PathLib/Bezier.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 98380e6..70ddd08 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Decimal, getcontext
+from decimal import Decimal, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -416,13 +416,15 @@ class Bezier(object):
             z = Decimal(0.5)
             sum = Decimal(0)
 
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
+            # a local context, so that the precision is restored
+            # even if there's an exception
+            with localcontext() as context:
+                context.prec += 2
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
 
-            length = z * sum
-            getcontext().prec -= 2
+                length = z * sum
             self._length = +length
 
         return self._length
-- 
2.43.0


From c50a8526d03c65aeef411a28132134be4f8f998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 07/46] fix: roots of a line no longer raise IndexError, and
 those of a nearly straight quadratic are no longer lost to cancellation

---
 PathLib/Bezier.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 70ddd08..0f09a7c 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -475,21 +475,8 @@ class Bezier(object):
             return 0 <= t <= 1 or butils.approximately(t, 0) or butils.approximately(t, 1)
 
         order = len(p) - 1
-        if order == 2:
-            a = p[0][1]
-            b = p[1][1]
-            c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+        if order < 3:
+            return list(filter(reduce, butils.droots([pt[1] for pt in p])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
-- 
2.43.0


From d4e2f3b77bbe31277f746a3564a198847540aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 08/46] fix: lineIntersects no longer loses crossings of
 horizontal and vertical lines to rounding

---
 PathLib/Bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0f09a7c..50f59d8 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -622,8 +622,12 @@ class Bezier(object):
         MY = max(p1y, p2y)
 
         def onLine(t: float) -> bool:
+            # The point is on the infinite line, so we only need to look
+            # in the direction in which the line is longest. (for a horizontal
+            # or vertical line, rounding errors in the other
+            # direction can be larger than epsilon)
             x, y = self.get(t)
-            return butils.between(x, mx, MX) and butils.between(y, my, MY)
+            return butils.between(x, mx, MX) if MX - mx >= MY - my else butils.between(y, my, MY)
 
         return list(filter(onLine, self.roots(line)))
 
-- 
2.43.0


From 40d3da5ab2fd8638bc95e517504947b7ebeaaf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 09/46] fix: cubic roots keep their digits when roots are close
 together or the leading coefficient is small

---
 PathLib/Bezier.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 50f59d8..fe2ca0a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -506,6 +506,7 @@ class Bezier(object):
             return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
 
         # at this point, we know we need a cubic solution:
+        c3, c2, c1, c0 = d, a, b, c
         a /= d
         b /= d
         c /= d
@@ -529,17 +530,39 @@ class Bezier(object):
             x1 = t1 * math.cos(phi / 3) - a / 3
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
-            return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+            x = max(x1, x2, x3, key=abs)
+        elif discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-            return list(filter(reduce, [x1, x2]))
+            x = max(x1, x2, key=abs)
         else:
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
             v1 = butils.crt(q2 + sd)
-            return list(filter(reduce, [u1 - v1 - a / 3]))
+            x = u1 - v1 - a / 3
+
+        # These formulas can lose many digits if the roots are close together,
+        # or if one of them is large, so only use one root. Improve that
+        # with Newton's method, and divide it out to get the others.
+        y = ((c3 * x + c2) * x + c1) * x + c0
+        for _ in range(50):
+            slope = (3 * c3 * x + 2 * c2) * x + c1
+            if y == 0 or slope == 0: break
+            x2 = x - y / slope
+            y2 = ((c3 * x2 + c2) * x2 + c1) * x2 + c0
+            if abs(y2) >= abs(y): break
+            x, y = x2, y2
+
+        # divide by (t - x), starting at the end that doesn't lose digits
+        if abs(c3 * x * x * x) > abs(c0):
+            b0 = -c0 / x
+            b1 = (b0 - c1) / x
+        else:
+            b1 = c2 + c3 * x
+            b0 = c1 + b1 * x
+
+        return list(filter(reduce, [x, *butils.droots([b0, b0 + b1 / 2, b0 + b1 + c3])]))
 
     def align(self, segment: typing.Optional[Segment] = None):
         if not segment:
-- 
2.43.0


From 1b730220c9fa80369e6aa49f3dd8d3efec6047b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 10/46] fix: raiseOrder adds one control point, not two

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index fe2ca0a..b81b299 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -752,7 +752,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From 3ccf1b41d0737c88b5921d198e54e65bea2e2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 11/46] fix: bbox and reduce no longer add 0 and 1 to the
 curve's extrema

---
 PathLib/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b81b299..d0487c6 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -223,8 +223,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
-        if 0 not in list: list.insert(0, 0)
-        if 1 not in list: list.append(1)
+        # (a copy - the list belongs to the extrema)
+        list = [0, *list, 1]
 
         for i in range(len(list)):
             c = self.get(list[i])
@@ -592,7 +592,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = self.extrema[2][:]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From f6536a334cf51481e71ab37ca588d5280163cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 12/46] fix: a contour's bounds and lookup table follow changes
 of its curves and of the table size

---
 PathLib/Bezier.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d0487c6..12f63e2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -842,19 +842,19 @@ class Bezier(object):
 
 class BContour(object):
     def __init__(self, contour: Contour):
-        beziers: list[Bezier] = []
-        bounds = PathUtilities.BoundsRectangle()
+        self._beziers: list[Bezier] = [Bezier(segment) for segment in contour]
+        self._curvesChanged()
 
-        for segment in contour:
-            bezier = Bezier(segment)
+    def _curvesChanged(self):
+        """Set everything that's derived from the curves."""
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
             bounds = bounds.union(bezier.boundsRectangle)
-            beziers.append(bezier)
 
-        self._beziers = beziers
         self._bounds = bounds
-        self._lut: list[Point] = []
-        self._start = beziers[0].start
-        self._end = beziers[-1].end
+        self._lut: tuple[int, list[Point]] = (0, [])
+        self._start = self._beziers[0].start
+        self._end = self._beziers[-1].end
 
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
@@ -862,30 +862,30 @@ class BContour(object):
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
         # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._curvesChanged()
 
     def __delitem__(self, index: int):
         del self._beziers[index]
         # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._curvesChanged()
 
     def __iter__(self):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        lutSteps, lut = self._lut
+        if lutSteps == steps: return lut
 
-        self._lut = []
+        lut: list[Point] = []
         startPoint = 0
         for curve in self._beziers:
-            self._lut.extend(curve.getLUT(steps)[startPoint:])
+            lut.extend(curve.getLUT(steps)[startPoint:])
             # for every curve but the first, the first point is
             # the same as the last point of the last curve
             startPoint = 1
 
-        return self._lut
+        self._lut = (steps, lut)
+        return lut
 
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
-- 
2.43.0


From f0a25a9923895ae594d5b7698b0373fbb739508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 13/46] fix: another thread can no longer see a curve's
 half-built lookup table

---
 PathLib/Bezier.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 12f63e2..89b21d5 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -383,16 +383,20 @@ class Bezier(object):
 
     # LUT == LookUp Table
     def getLUT(self, steps: int = 100) -> list[Point]:
-        if len(self._lut) == steps: return self._lut
+        # only use local variables until the table is complete, because
+        # another thread, or a caller who has the last table, may be using it
+        lut = self._lut
+        if len(lut) == steps: return lut
 
-        self._lut = []
+        lut = []
         # We want a range from 0 to 1 inclusive, so
         # we decrement steps and use range(steps+1)
         steps -= 1
         for t in range(steps+1):
-            self._lut.append(self.get(t / steps))
+            lut.append(self.get(t / steps))
 
-        return self._lut
+        self._lut = lut
+        return lut
 
     def _arcfun(self, t: Decimal) -> Decimal:
         dx, dy = self._derivative(t)
-- 
2.43.0


From 8be56ee415b8bed002a72553f825ada01575fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 14/46] fix: the binomial table stays correct when threads
 extend it at the same time

---
 PathLib/CurveFitting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PathLib/CurveFitting.py b/PathLib/CurveFitting.py
index 23b7588..27c18e8 100644
--- a/PathLib/CurveFitting.py
+++ b/PathLib/CurveFitting.py
@@ -37,12 +37,15 @@ def binomial(n: int, k: int):
     if n == 0: return 1
     lut = binomialCoefficients
     while n >= len(lut):
+        # use a slice to add the row, so that the table
+        # stays correct if another thread adds it first
+        next = len(lut)
         nextRow = [1]
-        prev = len(lut) - 1
-        for i in range(1, len(lut)):
+        prev = next - 1
+        for i in range(1, next):
             nextRow.append(lut[prev][i-1] + lut[prev][i])
         nextRow.append(1)
-        lut.append(nextRow)
+        lut[next:next+1] = [nextRow]
     return lut[n][k]
 
 def getPointValuesColumn(points: list[Point], v: int):
-- 
2.43.0


From 55890f669fe82de60cd74b28b1abfeef0f971918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 15/46] fix: matrixInvert no longer returns garbage for
 singular matrices or loses digits to small pivots

---
 PathLib/MatrixInversion.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index 3921370..fcb49e0 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -10,6 +10,7 @@ Translated from http://blog.acipo.com/matrix-inversion-in-javascript/
 
 import typing
 
+from fractions import Fraction
 from .Transform import Matrix, Row
 
 def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
@@ -31,16 +32,18 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
 
     # create the identity matrix (I), and a copy (C) of the original
     n = len(M)
-    I: list[Row] = []
-    C: list[Row] = []
+    I: list[list[Fraction]] = []
+    C: list[list[Fraction]] = []
 
     for row in range(n):
-        iRow: Row = []
-        cRow: Row = []
+        iRow: list[Fraction] = []
+        cRow: list[Fraction] = []
 
         for col in range(n):
-            iRow.append(1 if row == col else 0)  # 1 if on diagonal, else 0
-            cRow.append(M[row][col])  # copy from the original
+            # Use exact arithmetic: with rounding errors, elements that should be 0 may not be,
+            # and the inverse is wrong if one of these ends up on the diagonal
+            iRow.append(Fraction(1 if row == col else 0))  # 1 if on diagonal, else 0
+            cRow.append(Fraction(M[row][col]))  # copy from the original
 
         I.append(iRow)
         C.append(cRow)
@@ -97,4 +100,4 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
 
     # we've done all operations, C should be the identity
     # matrix I should be the inverse
-    return I
+    return [[float(e) for e in row] for row in I]
-- 
2.43.0


From 2509c0dcb45a48e0329760286c784c9913afe0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 16/46] fix: pointOnLine is True for the start of the line

---
 PathLib/PathUtilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d5c38d6..61e24c2 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -311,8 +311,9 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
 
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
-    # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    # same slope as the line, it is on the line. (there's no line from the start to itself)
+    toPoint = [line[0], point]
+    return bounds.enclosesPoint(point) and (getDeltas(toPoint) == (0, 0) or slope(line) == slope(toPoint))
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From b53a4b53d187f1b78d5f178904e37ad52a6820b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 17/46] fix: the union of two empty bounds rectangles is empty

---
 PathLib/PathUtilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 61e24c2..7970b6d 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -170,7 +170,13 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
-        return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
+        result = BoundsRectangle()
+        result.left = newLeft
+        result.top = newTop
+        result.right = newRight
+        result.bottom = newBottom
+
+        return result
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
         """\
-- 
2.43.0


From 6e47f89aae9b707002aac831f7e156a346474a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 18/46] fix: simple no longer raises ValueError for straight
 curves

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 89b21d5..4de4c0e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -589,7 +589,9 @@ class Bezier(object):
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
         s = n1x * n2x + n1y * n2y
-        return abs(math.acos(s)) < math.pi / 3
+
+        # rounding errors can make the product of two unit vectors larger than 1
+        return abs(math.acos(max(-1, min(s, 1)))) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
         pass1: list[Bezier] = []
-- 
2.43.0


From 0fa8e3fed148bbd5640abec206e6a1dc25c0b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 19/46] fix: rounding errors no longer make straight curves
 look S-shaped

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4de4c0e..9e4841e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -584,7 +584,9 @@ class Bezier(object):
         if self.order == 3:
             a1 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[1])
             a2 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[2])
-            if (a1 > 0 and a2 < 0) or (a1 < 0 and a2 > 0): return False
+
+            # if a handle is on the line between the end points, rounding errors can put it on either side
+            if a1 * a2 < 0 and not butils.approximately(a1, 0) and not butils.approximately(a2, 0): return False
 
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
-- 
2.43.0


From 12c305f81310264a1abc92792bdf0a9a046deaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 20/46] fix: reduce no longer fails for extrema that are equal
 up to rounding, or leaves a last segment that isn't simple

---
 PathLib/Bezier.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 9e4841e..7d08b52 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -600,9 +600,13 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2][:]
-        if not 0 in extrema: extrema.insert(0, 0)
-        if not 1 in extrema: extrema.append(1)
+        # (rounding errors can give the same extremum twice, or move
+        # one to just inside the ends: ignore these, because the
+        # segment between them would be a single point)
+        extrema: list[float] = [0]
+        for t in self.extrema[2]:
+            if t - extrema[-1] > butils.epsilon and 1 - t > butils.epsilon: extrema.append(t)
+        extrema.append(1)
 
         t1 = extrema[0]
         for i in range(1, len(extrema)):
@@ -624,7 +628,7 @@ class Bezier(object):
                     segment = p1.split(t1, t2)
                     if not segment.simple():
                         t2 -= step
-                        if abs(t1 - t2) < step:
+                        if abs(t1 - t2) < step / 2:
                             # we can never form a reduction
                             return []
                         segment = p1.split(t1, t2)
@@ -637,6 +641,17 @@ class Bezier(object):
 
             if t1 < 1:
                 segment = p1.split(t1, 1)
+
+                # the steps can end before 1
+                t2 -= step
+                if t2 - t1 > step / 2 and 1 - t2 > butils.epsilon and not segment.simple():
+                    segment = p1.split(t1, t2)
+                    segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
+                    segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
+                    pass2.append(segment)
+                    t1 = t2
+                    segment = p1.split(t1, 1)
+
                 segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                 segment._t2 = p1._t2
                 pass2.append(segment)
-- 
2.43.0


From 800f20a5a48eac6af7c23116d6dc4ef07168c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 21/46] fix: offset segments have the tangents of the curve at
 their ends

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 7d08b52..2cad975 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -836,7 +836,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 14102d499148ea9fbb3e3ddd4cc0968b1cc95c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 22/46] fix: findClosestPoint searches the right part of the
 second and later curves

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 2cad975..4bcce08 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -979,7 +979,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # (a curve after the first contributes s1 points: all but its first)
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From b424fb4217c6888603ebcb3becfb889ec6e117a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 23/46] fix: findClosestPoint considers the ends of curves,
 works for large tables, and keeps looking around the closest point so far

---
 PathLib/Bezier.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4bcce08..540fc43 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -927,11 +927,12 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
-        q: Point = (0, 0)
+        # nothing we find can be worse than the point we start from
+        nx, ny = q = lut[i]
+        closest = math.hypot(nx - px, ny - py)
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -941,9 +942,11 @@ class BContour(object):
             t2 = tt[i2]
             new_lut: typing.Sequence[Point] = []
             new_tt: list[float] = []
-            step = (t2 - t1) / 5
+            step = (t2 - t1) / 4
 
             if step < 0.001: break
+            # where the closest point so far is in the new LUT
+            i = 0 if i == i1 else 4 if i == i2 else 2
             new_lut.append(lut[i1])
             new_tt.append(tt[i1])
             for j in range(1, 4):
-- 
2.43.0


From 4d90f284f0b57b16f194007359944e078a39dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 24/46] fix: reduce no longer gives up on a curve because of
 one inflection or tight bend

---
 PathLib/Bezier.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 540fc43..67c4a71 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -629,8 +629,14 @@ class Bezier(object):
                     if not segment.simple():
                         t2 -= step
                         if abs(t1 - t2) < step / 2:
-                            # we can never form a reduction
-                            return []
+                            # one step is too long (for example if there's
+                            # an inflection in the middle of it) so try less
+                            t2 = t1 + step / 2
+                            while t2 - t1 > butils.epsilon and not p1.split(t1, t2).simple():
+                                t2 = (t1 + t2) / 2
+                            if t2 - t1 <= butils.epsilon:
+                                # we can never form a reduction
+                                return []
                         segment = p1.split(t1, t2)
                         segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                         segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
-- 
2.43.0


From 62b01828a7154c56c063bc76489022f49a5fb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 25/46] fix: an outline's bounds follow changes of its contours

---
 PathLib/Bezier.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 67c4a71..77ad6de 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -1085,19 +1085,16 @@ class BContour(object):
         return Bezier.xyPoint(x, y)
 
 class BOutline(object):
-    __slots__ = "_bContours", "_bounds"
+    __slots__ = "_bContours"
 
     def __init__(self, contours: list[Contour]):
-        bounds = PathUtilities.BoundsRectangle()
         bContours: list[BContour] = []
 
         for contour in contours:
             bc = BContour(contour)
             bContours.append(bc)
-            bounds = bounds.union(bc.boundsRectangle)
 
         self._bContours = bContours
-        self._bounds = bounds
 
     def __iter__(self):
         return self._bContours.__iter__()
@@ -1139,4 +1136,9 @@ class BOutline(object):
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        # (not kept, because the contours can change)
+        bounds = PathUtilities.BoundsRectangle()
+        for bc in self._bContours:
+            bounds = bounds.union(bc.boundsRectangle)
+
+        return bounds
-- 
2.43.0


From 8a6382a6891422f75d29b769a64808519f6a6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:53 +0000
Subject: [PATCH 26/46] fix: findClosestPoint looks on both sides of the start
 of a closed contour

---
 PathLib/Bezier.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 77ad6de..5ddd3ec 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -978,6 +978,8 @@ class BContour(object):
         nCurves = len(self.beziers)
         curve2 = None
         i = self._findClosest(point, self.getLUT(steps))
+        # in a closed contour the first point is also the end of the last curve
+        atStart = i == 0 and tuple(self.start) == tuple(self.end)
 
         if i < steps:
             curve = self.beziers[0]
@@ -1002,6 +1004,14 @@ class BContour(object):
                 closest = c2
                 cip = cip2
 
+        if atStart:
+            lut = self.beziers[-1].getLUT(steps)
+            cip2, c2 = self._refineBinary(point, self.beziers[-1], lut, steps - 1)
+
+            if c2 < closest:
+                closest = c2
+                cip = cip2
+
         return (closest, cip)
 
     def pointToString(self, point: Point) -> str:
-- 
2.43.0


From 09b0a6bb3a886c534172fc3f456b67c16730733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 27/46] fix: the segment pen accepts quadratic contours without
 on-curve points

---
 PathLib/SegmentPen.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/PathLib/SegmentPen.py b/PathLib/SegmentPen.py
index 88bad5d..25a636f 100644
--- a/PathLib/SegmentPen.py
+++ b/PathLib/SegmentPen.py
@@ -7,7 +7,7 @@ Created on October 14, 2020
 """
 
 import logging
-from typing import Any
+from typing import Any, Optional
 from .PathTypes import Point, Contour
 from .Transform import Transform
 
@@ -55,7 +55,16 @@ class SegmentPen:
         self.logger.debug(f"CurveTo({points})")
         self._lastOnCurve = points[-1]
 
-    def qCurveTo(self, *points: Point):
+    def qCurveTo(self, *points: Optional[Point]):
+        if points[-1] is None:
+            # a closed contour without any on-curve points, and without a moveTo():
+            # it starts and ends at the implied point between the last and first points
+            p1x, p1y = points[-2]
+            p2x, p2y = points[0]
+            impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))
+            self.moveTo(impliedPoint)
+            points = points[:-1] + (impliedPoint,)
+
         segment = [self._lastOnCurve]
         segment.extend(points)
 
-- 
2.43.0


From ae5d680fa48959c2ce320c7a7ec5c4efc6f6b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 28/46] fix: filled contours and paths no longer raise
 TypeError

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 7de4a2bed68a5411fade07799b7056fd54c3b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 29/46] fix: in poly mode, the first command after a move is
 not left out

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..7c928ec 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = ""  # the next command can't be left out
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = ""  # the next command can't be left out
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From fec71abaa10030a5418b0336639cebeb72b18ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 30/46] fix: drawing circles and arrows no longer changes the
 attributes of what is drawn next

---
 PathLib/ContourPlotter.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 7c928ec..57559a9 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
@@ -315,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From 8957345c4e252a477576d10683ac8cf0b6ea2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 31/46] fix: an opacity or stroke width of 0 is no longer
 ignored

---
 PathLib/ContourPlotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 57559a9..f37117b 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -39,7 +39,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
     def pushFillAttributes(self, color=None, opacity=None):
         self._fillAttributeStack.append((self._fillColor, self._fillOpacity))
         if color: self.setFillColor(color)
-        if opacity: self.setFillOpacity(opacity)
+        if opacity is not None: self.setFillOpacity(opacity)
 
     def popFillAttributes(self):
         color, opacity = self._fillAttributeStack.pop()
@@ -48,9 +48,9 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def pushStrokeAttributes(self, width=None, color=None, opacity=None, dash=None):
         self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))
-        if width: self.setStrokeWidth(width)
+        if width is not None: self.setStrokeWidth(width)
         if color: self.setStrokeColor(color)
-        if opacity: self.setStrokeOpacity(opacity)
+        if opacity is not None: self.setStrokeOpacity(opacity)
         if dash: self.setStrokeDash(dash)
 
     def popStrokeAtributes(self):
-- 
2.43.0


From 0ed638151cca72683a3d0c10d241e7ac5e75cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 32/46] fix: bounds of, and distances to, very large
 coordinates

Coordinates and distances beyond 2^53 weren't compared at all.
---
 PathLib/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 5ddd3ec..575eb11 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -220,8 +220,8 @@ class Bezier(object):
 
     def _getminmax(self, d: int, list: list[float]) -> tuple[float, float]:
         # if (!list) return { min: 0, max: 0 };
-        min = +9007199254740991  # Number.MAX_SAFE_INTEGER
-        max = -9007199254740991  # Number.MIN_SAFE_INTEGER
+        min = +math.inf
+        max = -math.inf
 
         # (a copy - the list belongs to the extrema)
         list = [0, *list, 1]
@@ -919,7 +919,7 @@ class BContour(object):
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
         x, y = point
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         i = -1
 
         for index in range(len(LUT)):
-- 
2.43.0


From 3831ba6a8d589c00f3155409399df8b9801a9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 33/46] fix: a small curve isn't a straight line

The offset of a curve that's only some thousandths of a unit high was
the translated curve, and the offset of a very long line could fail.
---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 575eb11..1042309 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -57,7 +57,10 @@ class Bezier(object):
 
         cp = [fp(p) for p in self.controlPoints]
         aligned = self._align(cp, [cp[0], cp[-1]])
-        self._linear = len([x for x in aligned if abs(x[1]) > 0.0001]) == 0
+        # (how straight a curve is doesn't depend on its size. A line is
+        # straight whatever rounding errors there are in the alignment)
+        size = max(abs(c) for p in aligned for c in p)
+        self._linear = self.order == 1 or len([x for x in aligned if abs(x[1]) > butils.epsilon * size]) == 0
 
         angle = butils.angle(cp[0], cp[-1], cp[1])
         self._clockwise = angle > 0
-- 
2.43.0


From 59587061c0d07f9f593cb5ca147f25264d7fd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 34/46] fix: intersections of large straight curves with lines

Rounding errors in large coordinates made them look like cubic curves.
---
 PathLib/Bezier.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1042309..7eb96c4 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -496,11 +496,14 @@ class Bezier(object):
         b = -3 * pa + 3 * pb
         c = pa
 
-        if butils.approximately(d, 0):
+        # (the rounding errors in large coordinates can be larger than epsilon)
+        precision = max(butils.epsilon, 1e-13 * max(abs(y) for _, y in p))
+
+        if butils.approximately(d, 0, precision):
             # this is not a cubic curve.
-            if butils.approximately(a, 0):
+            if butils.approximately(a, 0, precision):
                 # in fact, this is not a quadratic curve either.
-                if butils.approximately(b, 0):
+                if butils.approximately(b, 0, precision):
                     # in fact, there are no solutions
                     return []
 
-- 
2.43.0


From e22d7942e817e74f8563426108e245d0f08312bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 35/46] fix: scale curves with very large coordinates

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 7eb96c4..957c1b2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -830,7 +830,9 @@ class Bezier(object):
         r1 = distanceFn(0)
         r2 = distanceFn(1)
 
-        v = [self.offset(0, 10), self.offset(1, 10)]
+        # (a fixed distance can be too small to be seen in large coordinates)
+        length = max(10, max(abs(c) for p in self.controlPoints for c in p))
+        v = [self.offset(0, length), self.offset(1, length)]
         np: list[Point] = [(0, 0) for _ in range(order+1)]
         o = butils.lli4(v[0][2], v[0][0], v[1][2], v[1][0])
 
-- 
2.43.0


From 7164dc3d356774f83a8a533bd20bac9b0e87c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 36/46] fix: intersections of very small curves with lines

What's only a rounding error depends on the size of the curve.
---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 957c1b2..d0e50a7 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -496,8 +496,8 @@ class Bezier(object):
         b = -3 * pa + 3 * pb
         c = pa
 
-        # (the rounding errors in large coordinates can be larger than epsilon)
-        precision = max(butils.epsilon, 1e-13 * max(abs(y) for _, y in p))
+        # (what's only a rounding error depends on the size of the curve)
+        precision = 1e-13 * max(abs(y) for _, y in p)
 
         if butils.approximately(d, 0, precision):
             # this is not a cubic curve.
-- 
2.43.0


From 672a6d2cb332d78a4ec3eb368d10e744ea653f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 37/46] fix: precision of curves fitted to many points

---
 PathLib/CurveFitting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PathLib/CurveFitting.py b/PathLib/CurveFitting.py
index 27c18e8..c24c80c 100644
--- a/PathLib/CurveFitting.py
+++ b/PathLib/CurveFitting.py
@@ -173,8 +173,13 @@ def bestFit(P: list[Point], M: Matrix, S: list[float], n: typing.Optional[int] =
 
     Tt, T = formTMatrix(S, n)
     M1 = typing.cast(Matrix, matrixInvert(M))
-    TtT1 = typing.cast(Matrix, matrixInvert(multiply(Tt, T)))
-    step1 = multiply(TtT1, Tt)
+    if len(S) == n:
+        # T is square, so (Tt * T)^-1 * Tt is just T^-1. Computing
+        # it this way loses half as many digits.
+        step1 = typing.cast(Matrix, matrixInvert(T))
+    else:
+        TtT1 = typing.cast(Matrix, matrixInvert(multiply(Tt, T)))
+        step1 = multiply(TtT1, Tt)
     step2 = multiply(M1, step1)
     X = getPointValuesColumn(P, 0)
     Cx = multiply(step2, X)
-- 
2.43.0


From f8213bc023424d9e73ce66b02e3369f709ad987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 38/46] fix: contours after a failed edit

---
 PathLib/Bezier.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d0e50a7..f1b1c5d 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -879,32 +879,36 @@ class Bezier(object):
 
 class BContour(object):
     def __init__(self, contour: Contour):
-        self._beziers: list[Bezier] = [Bezier(segment) for segment in contour]
-        self._curvesChanged()
+        self._beziers: list[Bezier] = []
+        self._setCurves([Bezier(segment) for segment in contour])
 
-    def _curvesChanged(self):
-        """Set everything that's derived from the curves."""
+    def _setCurves(self, beziers: list[Bezier]):
+        """Set the curves, and everything that's derived from them."""
         bounds = PathUtilities.BoundsRectangle()
-        for bezier in self._beziers:
+        for bezier in beziers:
             bounds = bounds.union(bezier.boundsRectangle)
 
-        self._bounds = bounds
-        self._lut: tuple[int, list[Point]] = (0, [])
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        start = beziers[0].start
+        end = beziers[-1].end
+
+        # only change things once everything is known, so that
+        # if there's an exception, the contour is as it was
+        self._beziers[:], self._bounds, self._lut, self._start, self._end = beziers, bounds, (0, []), start, end
 
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
-        self._beziers[index] = Bezier(value)
+        beziers = self._beziers[:]
+        beziers[index] = Bezier(value)
         # self._length = None
-        self._curvesChanged()
+        self._setCurves(beziers)
 
     def __delitem__(self, index: int):
-        del self._beziers[index]
+        beziers = self._beziers[:]
+        del beziers[index]
         # self._length = None
-        self._curvesChanged()
+        self._setCurves(beziers)
 
     def __iter__(self):
         return self._beziers.__iter__()
-- 
2.43.0


From 25ab2181486f4878efe91b720ca3e79447b76290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 39/46] fix: interruptions of square roots

---
 PathLib/BezierUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index d047b41..1801b99 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -91,7 +91,7 @@ def between(v: float, m: float, M: float) -> bool:
 def sqrt(x: float) -> float:
     try:
         r = math.sqrt(x)
-    except:
+    except (ValueError, OverflowError):
         # JavaScript sqrt() returns NaN for negative x.
         # If we do the same, then the rest of the code
         # will behave as the JavaScript code does...
-- 
2.43.0


From ce73656236f0f8a20b4d13f7ea85e940b36754bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 40/46] fix: precision of intersections of lines with almost
 straight cubics

---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f1b1c5d..79c448b 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -513,7 +513,12 @@ class Bezier(object):
             # quadratic solution:
             q = butils.sqrt(b * b - 4 * a * c)
             a2 = 2 * a
-            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
+            # The roots are (q - b) / a2 and (-b - q) / a2, but one of these
+            # subtracts nearly equal numbers if a is small. The product of
+            # the roots is c / a, so use that to compute this root from the other one.
+            m = -b - q if b > 0 else q - b
+            if m == 0: return [0.0, 0.0]
+            return list(filter(reduce, [2 * c / m, m / a2] if b > 0 else [m / a2, 2 * c / m]))
 
         # at this point, we know we need a cubic solution:
         c3, c2, c1, c0 = d, a, b, c
-- 
2.43.0


From 73d1fd8d28c229d4c2f811b1b922f93e08a1138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 41/46] fix: last piece of a reduction before a near cusp

One step can be too long at the end of a monotone segment, too, so that
the last piece turned by 60 degrees or more: try less, as in the loop above.
---
 PathLib/Bezier.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 79c448b..b7ec3b3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -669,6 +669,21 @@ class Bezier(object):
                     t1 = t2
                     segment = p1.split(t1, 1)
 
+                # one step can be too long here, too
+                while 1 - t1 > butils.epsilon and not segment.simple():
+                    t2 = (t1 + 1) / 2
+                    while t2 - t1 > butils.epsilon and not p1.split(t1, t2).simple():
+                        t2 = (t1 + t2) / 2
+                    if t2 - t1 <= butils.epsilon:
+                        # we can never form a reduction
+                        return []
+                    segment = p1.split(t1, t2)
+                    segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
+                    segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
+                    pass2.append(segment)
+                    t1 = t2
+                    segment = p1.split(t1, 1)
+
                 segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                 segment._t2 = p1._t2
                 pass2.append(segment)
-- 
2.43.0


From e20e7f464281cf08869191284a88b226a39db2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 42/46] fix: curves with a handle on its end point have a
 direction there

normal(), and with it simple(), reduce(), offset() and intersects(),
divided by zero for every curve whose first (or last) handle is on its
end point.
---
 PathLib/Bezier.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b7ec3b3..1be3063 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -585,8 +585,21 @@ class Bezier(object):
 
         return Bezier(Bezier._align(self.controlPoints, segment))
 
-    def normal(self, t: float) -> tuple[float, float]:
+    def _tangentVector(self, t: float) -> tuple[float, float]:
         dx, dy = self._derivative(t)
+
+        if dx == 0 and dy == 0 and (t == 0 or t == 1):
+            # a handle is on its end point, so the derivative has no direction: the
+            # curve leaves (or reaches) that point in the direction of the next handle
+            p = self._controlPoints if t == 0 else self._controlPoints[::-1]
+            x, y = p[0]
+            for px, py in p[2:]:
+                if px != x or py != y: return (px - x, py - y) if t == 0 else (x - px, y - py)
+
+        return (dx, dy)
+
+    def normal(self, t: float) -> tuple[float, float]:
+        dx, dy = self._tangentVector(t)
         q = butils.sqrt(dx * dx + dy * dy)
         return (-dy / q, dx / q)
 
@@ -876,7 +889,7 @@ class Bezier(object):
             for t in range(2):
                 if order == 2 and t > 0: break
                 px, py = p = np[t * order]
-                dx, dy = self._derivative(t)
+                dx, dy = self._tangentVector(t)
                 p2 = (px + dx, py + dy)
                 np[t + 1] = typing.cast(Point, butils.lli4(p, p2, o, self.controlPoints[t + 1]))
 
-- 
2.43.0


From 2064d5b9dc9d97e30d794bd4e62f0a2ef8a9dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 43/46] fix: angle with a point at its origin is 0, not pi

---
 PathLib/BezierUtilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 1801b99..ab4dbee 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -223,6 +223,10 @@ def angle(o: Point, v1: Point, v2: Point) -> float:
     cross = dx1 * dy2 - dy1 * dx2
     dot = dx1 * dx2 + dy1 * dy2
 
+    # a point that's at o has no direction, so there's no angle
+    # (atan2() would return pi if dot is -0.0)
+    if cross == 0 and dot == 0: return 0.0
+
     return math.atan2(cross, dot)
 
 # def pairiteration(c1, c2, intersectionThreshold: float = 0.5):
-- 
2.43.0


From c88581c2e09ed0b76bdb6c767c6d7fc46625c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 44/46] fix: handles move to the right side when the first one
 is on the chord

---
 PathLib/Bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1be3063..257ec22 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -62,8 +62,9 @@ class Bezier(object):
         size = max(abs(c) for p in aligned for c in p)
         self._linear = self.order == 1 or len([x for x in aligned if abs(x[1]) > butils.epsilon * size]) == 0
 
-        angle = butils.angle(cp[0], cp[-1], cp[1])
-        self._clockwise = angle > 0
+        # (the handle furthest from the line between the end points says which side
+        # of it the curve is on: the first one can be on the line, or on the end point)
+        self._clockwise = max((p[1] for p in aligned), key=abs) > 0
 
     def _computeDirection(self) -> int:
         _p0x, p0y = self._controlPoints[0]
-- 
2.43.0


From 8da28879ae7a486ff18f8d645f24588ea498165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 45/46] fix: scale takes any callable distance, not just plain
 functions

---
 PathLib/Bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 257ec22..4094843 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -13,7 +13,6 @@ from __future__ import annotations
 import typing
 
 import math
-import types
 from decimal import Decimal, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
@@ -854,10 +853,10 @@ class Bezier(object):
 
     DistanceFunction = typing.Callable[[float], float]
     def scale(self, d: typing.Union[float, DistanceFunction]) -> Bezier:
-        distanceFn: Bezier.DistanceFunction = d if isinstance(d, types.FunctionType) else lambda f: typing.cast(float, d)
+        distanceFn: Bezier.DistanceFunction = d if callable(d) else lambda f: typing.cast(float, d)
         order = self.order
 
-        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(distanceFn)
+        if callable(d) and order == 2: return self.raiseOrder().scale(distanceFn)
 
         # TODO: add special handling for degenerate (=linear) curves.
         clockwise = self._clockwise
@@ -884,7 +883,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if not isinstance(d, types.FunctionType):
+        if not callable(d):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 8f51ec52ec38347d9dc7b6104aa17ae155f7c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 46/46] fix: intersections of curves with very large
 coordinates or very small thresholds

---
 PathLib/Bezier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4094843..71c62c1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -768,6 +768,10 @@ class Bezier(object):
                 if l.overlaps(r):
                     pairs.append((l, r))
 
+        # (boxes don't get smaller than the rounding errors of their coordinates)
+        size = max((abs(float(c)) for curve in c1 + c2 for p in curve.controlPoints for c in p), default=0)
+        intersectionThreshold = max(intersectionThreshold, size * 2 ** -48)
+
         # step 2: for each pairing, run through the convergence algorithm.
         intersections: list[Point] = []
         for pair in pairs:
-- 
2.43.0

