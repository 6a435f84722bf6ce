From 8eb15a72b4ae063fab602dcb2a16f2cf39830d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 01/63] fix: Line.is_equal must not identify x=1 with x=-1, nor
 depend on the wrap-around of the direction

---
 planegeometry/geometry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789bf95..f97b3db 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -128,9 +128,12 @@ class Line:
         do2 = line2.direction_offset()
         do1 = (do1["direction"], do1["offset"])
         do2 = (do2["direction"], do2["offset"])
-        if approx_equal_(do1[1], do2[1]):
-            return approx_equal_(do1[0] % pi, do2[0] % pi)
-        return np.allclose(do1, do2)
+        if not np.isclose(do1[1], do2[1]):
+            return False
+        # for lines through the origin the direction is defined modulo pi
+        period = pi if approx_equal_(do1[1], 0) else 2*pi
+        delta = (do1[0] - do2[0]) % period
+        return bool(np.isclose(min(delta, period - delta), 0))
     
     def is_parallel(self, line2):
         """Check whether the reference line is parallel to another line.
-- 
2.43.0


From a1fe6b2aa9116f6294365de9b8c0839be3f66fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 02/63] fix: Line.includes(strict=True) must accept the origin
 of a half-line

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f97b3db..2cb4af0 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -197,12 +197,12 @@ class Line:
             print("The point is on the line (AB), but not on the segment [AB].")
             return False
         if extendA:
-            if np.any((M-B)*(A-B)>0):
+            if dot_(M-B, A-B) >= 0:
                 return True
             print("The point is on the line (AB), but not on the half-line (AB].")
             return False
         # extendB
-        if np.any((M-A)*(B-A)>0):
+        if dot_(M-A, B-A) >= 0:
             return True
         print("The point is on the line (AB), but not on the half-line [AB).")
         return False
-- 
2.43.0


From 8b0474f48614d9f61f601c72213473295be84e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 03/63] fix: intersection_line_line returns the line when the
 two lines are equal, as documented

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2cb4af0..5da0d01 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -344,6 +344,8 @@ class Line:
 
 def intersection_line_line(line1, line2, strict=False):
     if line1.is_equal(line2):
+        if not strict:
+            return line1
         print("TO DO")
         return
     if line1.is_parallel(line2):
-- 
2.43.0


From eac2d69eb0fa668b26da26d1bc06c5a433cbd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/63] fix: tangency test of circle_line_intersection_ must be
 two-sided and independent of the scale

---
 planegeometry/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index f8a5a30..d869f5e 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -115,10 +115,10 @@ def circle_line_intersection_(A1, A2, r):
     dr2 = dx*dx + dy*dy
     D = det2x2_(A1, A2)
     Delta = r*r*dr2 - D*D
+    if abs(Delta) < sepsilon_ * r*r*dr2: # tangency up to rounding errors
+        return D/dr2 * np.array([dy, -dx])
     if Delta < 0:
         return None
-    if Delta < sepsilon_:
-        return D/dr2 * np.array([dy, -dx])
     sgn = -1 if dy < 0 else 1
     Ddy = D*dy
     sqrtDelta = sqrt(Delta)
-- 
2.43.0


From 49e2caba71e6c79d5d2f86f76bb6a30e54d32231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 05/63] fix: Inversion.invert_gcircle tested the type against a
 string

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5da0d01..49d90ae 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1557,9 +1557,9 @@ class Inversion:
         :returns: A `Circle` object or a `Line` object.
         
         """
-        if isinstance(gcircle, "Circle"):
+        if isinstance(gcircle, Circle):
             return self.invert_circle(gcircle)
-        if isinstance(gcircle, "Line"):
+        if isinstance(gcircle, Line):
             return self.invert_line(gcircle)
         raise ValueError("`gcircle` must be a `Line` object or a `Circle` object.")
     
-- 
2.43.0


From 0d4ae6238d3f2c5dd3153e353fbb74fe3826841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 06/63] fix: orthogonal_through_two_points_in_circle compared a
 distance with a squared radius

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 49d90ae..01c1139 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -473,9 +473,9 @@ class Circle:
         I = self.center
         r = self.radius
         r2 = r * r
-        if distance_(P1, I) >= r2:
+        if distance_(P1, I) >= r:
             raise ValueError("`P1` is not in the interior of the reference circle.")
-        if distance_(P2,I) >= r2:
+        if distance_(P2,I) >= r:
             raise ValueError("`P2` is not in the interior of the reference circle.")
         if collinear_(I, P1, P2):
             return Line(P1, P2, not arc, not arc)
-- 
2.43.0


From 14b99791acc8d5b2763efbdfe04abe64a206602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 07/63] fix: orthogonal_through_two_points_in_circle must
 return the arc inside the circle

---
 planegeometry/geometry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 01c1139..b18abd1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -490,10 +490,9 @@ class Circle:
         if arc:
             theta1 = atan2(P1[1]-O[1], P1[0]-O[0]) % (2*pi)
             theta2 = atan2(P2[1]-O[1], P2[0]-O[0]) % (2*pi)
-            return Arc(
-                O, distance_(O, P1),
-                min(theta1, theta2), max(theta1, theta2), False
-            )
+            if (theta2 - theta1) % (2*pi) > pi: # take the minor arc
+                theta1, theta2 = theta2, theta1
+            return Arc(O, distance_(O, P1), theta1, theta2, False)
         return Circle(O, distance_(O, P1))
     
     def orthogonal_through_two_points_on_circle(self, alpha1, alpha2, arc = False):
-- 
2.43.0


From 0da74fc2bf8820b955e33df48c8df9080ad0618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 08/63] fix: Circle.angle failed for tangent circles because of
 rounding errors

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b18abd1..aecee51 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -645,7 +645,7 @@ class Circle:
         bprime1 = r1 * (dot_(a1) - 1)
         bprime2 = r2 * (dot_(a2) - 1)
         cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
-        return acos(cos_theta)
+        return acos(max(min(cos_theta, 1), -1))
 
 def circleAB(A, B):
     """Circle with diameter `AB`.
-- 
2.43.0


From b10d107e952be887ea171863e505ee5f1dbc181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 09/63] fix: from_swapping_two_circles returns the documented
 reflection for congruent tangent circles

---
 planegeometry/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index aecee51..1c8759e 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1628,8 +1628,7 @@ class Inversion:
             print("No possible inversion; returning a reflection")
             x, y = c2 - c1
             v = np.array([-y, x])
-            print("TO DO")
-            return#Reflection(Line(I+v, I-v))
+            return Reflection(Line(I+v, I-v))
         inside = inside_tangent = False
         if max(r1, r2) >= c1c2 + min(r1, r2):
             inside = True
-- 
2.43.0


From 5ead32e634aaa3f0c23cb2376d05271cbc3b6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 10/63] fix: Ellipse.theta2t failed at multiples of a full turn
 and was wrong near multiples of pi

---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 1c8759e..201f0cb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1176,10 +1176,11 @@ class Ellipse:
         _ = error_if_not_boolean_(degrees=degrees)
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 1 if theta_mod_2pi < sepsilon_ else -1
-        theta_eps = theta + sgn*sepsilon_
-        return atan2(self.rmajor/self.rminor, 1/tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        a = self.rmajor
+        b = self.rminor
+        costheta = cos(theta)
+        sintheta = sin(theta)
+        return theta + atan2((a-b)*sintheta*costheta, b*costheta**2 + a*sintheta**2)
     
     def diameter(self, t, conjugate=False):
         """Diameter of the ellipse.
-- 
2.43.0


From c83df4a148cc3c1cea1daa2535ecb303bce7d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 11/63] fix: Ellipse.point_from_angle modified in place the
 array given by the caller

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 201f0cb..2d9f5f1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1050,7 +1050,7 @@ class Ellipse:
         if not is_number_(theta):
             if not is_vector_(theta):
                 raise ValueError("`theta` must be a number or a vector of numbers.")
-            theta = np.asarray(theta, dtype=float)
+            theta = np.array(theta, dtype=float)
             if not is_real_vector_(theta):
                 raise ValueError("`theta` cannot be converted to a vector of real numbers.")
         else:
-- 
2.43.0


From 6563a60519976e9bb9ee1b21e403412e2a9b3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 12/63] fix: Ellipse.point_from_angle returned the opposite
 point for angles near multiples of pi

---
 planegeometry/geometry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2d9f5f1..b2bdd8f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1063,10 +1063,9 @@ class Ellipse:
             alpha *= pi/180
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
-        theta_eps = theta + sepsilon_ * sgn
-        t = np.arctan2(a/b, 1/np.tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        costheta = np.cos(theta)
+        sintheta = np.sin(theta)
+        t = theta + np.arctan2((a-b)*sintheta*costheta, b*costheta**2 + a*sintheta**2)
         out = ellipse_points_(t, O, a, b, alpha)
         if len(theta) == 1:
             out = out[0]
-- 
2.43.0


From 5e6c802cba887fdaf820a283d26740cd28280f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 13/63] fix: orthogonal_through_two_points_on_circle missed
 opposite points because of rounding errors

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b2bdd8f..22d7de9 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -510,7 +510,7 @@ class Circle:
         I = self.center
         r = self.radius
         dalpha = alpha1 - alpha2
-        if dalpha % pi == 0:
+        if abs(sin(dalpha)) < sepsilon_:
             eialpha1 = unit_vector_(alpha1)
             A = I + r*eialpha1
             B = I - r*eialpha1
-- 
2.43.0


From 0888c0f9acfed1ce247ee7f8484c0f08ad7386a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 14/63] fix: Ellipse.from_equation rejected valid ellipses (and
 missed empty ones)

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 22d7de9..90bb02a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1228,10 +1228,10 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        if A*C <= 0 or B*B-4*A*C >= 0 or D*D + E*E <= 4*(A+C)*F:
+        if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-        if np.linalg.det(Q) == 0:
+        if (A+C) * np.linalg.det(Q) >= 0: # one point or empty
             raise ValueError("These parameters do not define an ellipse.")
         M0 = np.array([F, D/2, E/2, D/2, A, B/2, E/2, B/2, C]).reshape((3,3))
         M = np.array([[A, B/2], [B/2, C]])
-- 
2.43.0


From 66a7da6f7808fee82cb32760a2a814c3e6848933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 15/63] fix: Ellipse.from_equation computed a wrong angle when
 A equals C and B is not zero

---
 planegeometry/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 90bb02a..b159ed5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1241,7 +1241,8 @@ class Ellipse:
         a = sqrt(-detM0 / (detM * eigvals[0]))
         b = sqrt(-detM0 / (detM * eigvals[1]))
         xy = np.array([B*E - 2*C*D, B*D - 2*A*E])
-        phi = 0.0 if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
+        # direction of the eigenvector for the eigenvalue of smallest absolute value
+        phi = atan2(-B, C-A)/2 if A > 0 else atan2(B, A-C)/2
         return Ellipse(xy/(4*A*C - B*B), max(a,b), min(a,b), (phi*180/pi) % 180)
     
     @classmethod
-- 
2.43.0


From 0a31241b2b6cf6b1a36335e0f704ba667caca05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 16/63] fix: Ellipse.is_equal was wrong for angles around 0 and
 180 degrees and for circles

---
 planegeometry/geometry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b159ed5..e75a30f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -993,9 +993,14 @@ class Ellipse:
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor, alpha1 % 180])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor, alpha2 % 180])
-        return np.allclose(v1, v2)
+        v1 = np.array([x1, y1, self.rmajor, self.rminor])
+        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        if not np.allclose(v1, v2):
+            return False
+        if np.isclose(self.rmajor, self.rminor): # circles: the angle is irrelevant
+            return True
+        delta = (alpha1 - alpha2) % 180
+        return bool(np.isclose(min(delta, 180 - delta), 0, atol=1e-5))
 
     def path(self, n_points=100):
         """Path that forms the ellipse.
-- 
2.43.0


From 5c6bb5b60312664180200e747731e5c9b8473216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 17/63] fix: Ellipse.from_boundary4 used the removed alias
 np.float

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e75a30f..47a997e 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1368,13 +1368,13 @@ class Ellipse:
     
         # shear parallel to x-axis to make diagonals perpendicular
         m = (points[1, 0] - points[3, 0]) / (points[3, 1] - points[1, 1])
-        shear_mat = np.array([[1, m], [0, 1]], dtype=np.float)
+        shear_mat = np.array([[1, m], [0, 1]], dtype=float)
         points = shear_mat.dot(points.T).T
     
         # make the quadrilateral cyclic (i.e. all vertices lie on a circle)
         b = np.linalg.norm(points, axis=1)
         d = b[1] * b[3] / (b[2] * b[0])
-        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=np.float))
+        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=float))
         points = stretch_mat.dot(points.T).T
     
         # compute optimal swing angle by solving cubic equation
-- 
2.43.0


From 8b644cf733111509153f3bdce2dbe5a9a6c58fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 18/63] fix: Triangle.orientation had the opposite sign of its
 documentation

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 47a997e..82bdd49 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1820,7 +1820,7 @@ class Triangle:
         B = self.B
         C = self.C
         val = (B[1] - A[1])*(C[0] - B[0]) - (B[0] - A[0])*(C[1] - B[1])
-        return 0 if val==0 else (1 if val>0 else -1)
+        return 0 if val==0 else (1 if val<0 else -1)
     
     def contains(self, M):
         """Check whether a point lies inside the reference triangle.
-- 
2.43.0


From bed4e7fc1c76ec894db4e071c565d1e3796fa2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 19/63] fix: Mobius.fixed_points dropped the imaginary part of
 the discriminant

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 82bdd49..35299d2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2473,8 +2473,8 @@ class Mobius:
         if Delta == 0:
             return from_complex_((a-d)/2/c)
         return [
-            from_complex_((a-d + sqrt(Delta))/2/c),
-            from_complex_((a-d - sqrt(Delta))/2/c)            
+            from_complex_((a-d + np.sqrt(Delta))/2/c),
+            from_complex_((a-d - np.sqrt(Delta))/2/c)
         ]
 
     
-- 
2.43.0


From 4e808fa937acffef3ec1b591b212cb73e5343b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 20/63] fix: Mobius.transform_line failed when a point defining
 the line is the pole

---
 planegeometry/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 35299d2..9a33e2a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2543,7 +2543,12 @@ class Mobius:
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
         if abs(A) > sepsilon_:
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
-        return Line(self.transform(line.A), self.transform(line.B))
+        # take two points of the line away from the pole
+        pts = sorted(
+            [line.A, line.B, 2*line.B - line.A], 
+            key = lambda P: -abs(c*complex(*P) + d)
+        )
+        return Line(self.transform(pts[0]), self.transform(pts[1]))
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From 493f67aa664ad986a09bd5a03b1d5e622b727216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 21/63] fix: Mobius.transform divided by zero at the pole
 because of rounding errors

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9a33e2a..c8c5626 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2447,7 +2447,7 @@ class Mobius:
         _ = error_if_not_point_(P=P)
         P = np.asarray(P)
         z = complex(*P)
-        condition = c != 0 and z == -d/c
+        condition = c != 0 and (z == -d/c or c*z + d == 0)
         return inf if condition else from_complex_((a*z+b)/(c*z+d))
     
     
-- 
2.43.0


From 13b7d3e098d6003ce57f98a3e1f2741dcf73d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 22/63] fix: Mobius.from_mapping_three_points gave a matrix of
 nan with a point at infinity

---
 planegeometry/internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index d869f5e..27db5f9 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -7,6 +7,8 @@ def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
 def is_inf_(x):
+    if isinstance(x, complex):
+        return isinf(x.real) or isinf(x.imag)
     return isinstance(x, float) and isinf(x)
 
 def are_equal_(x, y):
-- 
2.43.0


From efe16c2d82c7d7f387c6f74b542e2e2412a15a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 23/63] fix: a Shear whose vertex is not the origin did not fix
 its vertex

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c8c5626..3b87d49 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3106,7 +3106,7 @@ class Shear:
         M1 = np.hstack((np.array([w, wt, Q]), z))
         M2 = np.hstack((np.array([w, tan(angle)*w + wt, Q]), z))
         M = np.matmul(np.linalg.inv(M1), M2)
-        M[:, 2] = M[2, :]
+        M[0:2, 2] = Q - np.matmul(M[0:2, 0:2], Q) # the vertex is fixed
         M[2, :] = np.array([0, 0, 1])
         return M
 
-- 
2.43.0


From 85cdfd70ac4b06cd08cd2447b9d8b03378542cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 24/63] fix: Projection.show used attributes which do not exist

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3b87d49..34119b1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2807,8 +2807,8 @@ class Projection:
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
         print("                 A: ", self.D.A, "\n")
         print("                 B: ", self.D.B, "\n")
-        print("                 P: ", self.Delta.P, "\n")
-        print("                 Q: ", self.Delta.Q, "\n")
+        print("                 P: ", self.Delta.A, "\n")
+        print("                 Q: ", self.Delta.B, "\n")
         if self.orthogonal:
             print("This is an orthogonal projection.\n")
 
-- 
2.43.0


From 1905530d5f7216ed680958a4a77b36c428f9cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 25/63] fix: Scaling.scale_circle swapped the radii for a scale
 lower than -1

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 34119b1..6d2fe17 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3416,7 +3416,7 @@ class Scaling:
         A1 = self.transform(C + R*w/lw)
         wt = np.array([-w[1], w[0]])
         A2 = self.transform(C + R*wt/lw)
-        if self.scale >= 1:
+        if abs(self.scale) >= 1:
             r1 = distance_(A1, O)
             r2 = distance_(A2, O)
             alpha = atan2(A1[1]-O[1], A1[0]-O[0]) * 180/pi
-- 
2.43.0


From e807464e0220b751010ca8402c8d994a6b3ae62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 26/63] fix: Ellipse.from_boundary4 took a spurious root for a
 trapezoid

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6d2fe17..e46f5bf 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1386,9 +1386,10 @@ class Ellipse:
             - 8 * a[1] ** 2 * a[2] * a[0] + 3 * (a[1] ** 2 + a[2] ** 2) * a[0] ** 2
         coeff[3] = coeff[1] / 2.
         rts = np.roots(coeff)
-        # take the unique root in the interval (-1, 1)
+        # take the unique root in the interval (-1, 1); for a trapezoid, -1 or 
+        # 1 is a root as well
         rts = rts[(-1 < rts) & (rts < 1)]
-        theta = asin(np.real(rts[0]))
+        theta = asin(np.real(rts[np.argmin(np.abs(rts))]))
     
         # apply transformation D_theta
         D_mat = np.array([[cos(theta) ** -.5,
-- 
2.43.0


From 1b267b24aef0f8c4411af6103a6221e550371ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 27/63] fix: Ellipse.LownerJohnEllipse failed with duplicated
 or partly collinear points

---
 planegeometry/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e46f5bf..c751543 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1453,6 +1453,13 @@ class Ellipse:
         """
         if bpoints is None:
             bpoints = np.empty((0,2))
+        # duplicated points are useless
+        ipoints = np.unique(ipoints, axis=0)
+        # the ellipse is degenerate if all the points are collinear
+        points = np.vstack([ipoints, bpoints])
+        s = np.linalg.svd(points - np.mean(points, axis=0), compute_uv=False)
+        if len(s) < 2 or s[1] <= sepsilon_ * s[0]:
+            return None
         # stopping condition: stop either if interior is empty or if there are 5
         # points on the boundary, in which case a unique ellipse is determined.
         if ipoints.shape[0] == 0 or bpoints.shape[0] >= 5:
-- 
2.43.0


From c11874663d3e60abd6b175fc39ffa34d92d7fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 28/63] =?UTF-8?q?fix:=20image=20of=20a=20circle=20centred?=
 =?UTF-8?q?=20near=20the=20pole=20of=20a=20M=C3=B6bius=20transformation?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c751543..0285eaf 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2503,7 +2503,7 @@ class Mobius:
         x2 = R*R*mod2_(c)
         if x1 != x2: # we are in this case if c=0
             if x1 > 0:
-                z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
+                z = z0 - R*R * c.conjugate() / (d + c*z0).conjugate()
                 w0 = self.transform(from_complex_(z))
             else:
                 w0 = self.transform(inf)
-- 
2.43.0


From f610a1d65645adde100654ff932141683b15b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 29/63] fix: exactly singular affine maps were not always
 recognized

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0285eaf..6fdd6c2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2167,7 +2167,7 @@ class Affine:
         """The inverse affine transformation if it exists.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if det2x2_mat_(self.A) == 0:
             print("The affine map is singular.")
             return None
         M = np.linalg.inv(self.get3x3matrix())
@@ -2207,7 +2207,7 @@ class Affine:
         """
         M = self.A
         b = self.b
-        if np.linalg.det(M) == 0:
+        if det2x2_mat_(M) == 0:
             print("The affine map is singular.")
             return
         return Line(M.dot(line.A) + b, M.dot(line.B) + b, line.extendA, line.extendB)
@@ -2219,7 +2219,7 @@ class Affine:
         :returns: An `Ellipse` object.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if det2x2_mat_(self.A) == 0:
             print("The affine map is singular.")
             return
         if isinstance(ell, Circle):
-- 
2.43.0


From 8e7a2f0bd1c0440136f411989f124d8d72569715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 30/63] fix: flatness of a triangle whose vertices A and B, or
 A and C, coincide

---
 planegeometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6fdd6c2..5be4e0c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1789,7 +1789,10 @@ class Triangle:
         re = z.real
         im = z.imag
         re2 = re * re
-        return re2 / (re2 + im*im)
+        im2 = im * im
+        if im2 == 0:
+            return 1.0
+        return re2 / (re2 + im2)
 
     @property
     def a(self):
-- 
2.43.0


From 2e6d107d042727ed851b626cfc58ece93f6ddd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 31/63] fix: angles of a flat triangle failed because of
 rounding errors

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5be4e0c..c1f8e10 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1869,7 +1869,7 @@ class Triangle:
         AB = B - A
         b = vlength_(AC)
         c = vlength_(AB)
-        return acos(dot_(AC, AB) / b / c)
+        return acos(np.clip(dot_(AC, AB) / b / c, -1.0, 1.0))
 
     @property        
     def angleB(self):
@@ -1883,7 +1883,7 @@ class Triangle:
         BA = A - B
         a = vlength_(BC)
         c = vlength_(BA)
-        return acos(dot_(BC, BA) / a / c)
+        return acos(np.clip(dot_(BC, BA) / a / c, -1.0, 1.0))
 
     @property        
     def angleC(self):
@@ -1897,7 +1897,7 @@ class Triangle:
         CB = B - C
         b = vlength_(CA)
         a = vlength_(CB)
-        return acos(dot_(CA, CB) / a / b)
+        return acos(np.clip(dot_(CA, CB) / a / b, -1.0, 1.0))
     
     def incircle(self):
         """The incircle of the triangle.
-- 
2.43.0


From 1aa7ccb9207bbb47a2eb39189a57b5601ccdf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 32/63] fix: the extents of a line were not checked to be
 Booleans

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c1f8e10..8db121a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -60,6 +60,8 @@ class Line:
     def __init__(self, A, B, extendA=True, extendB=True):
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
+        _ = error_if_not_boolean_(extendA=extendA)
+        _ = error_if_not_boolean_(extendB=extendB)
         self.A = np.asarray(A, dtype=float)
         self.B = np.asarray(B, dtype=float)
         if np.allclose(self.A, self.B):
-- 
2.43.0


From 3b97dd5df995c45c4d996ecd09bfcf5010cd2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:29 +0000
Subject: [PATCH 33/63] fix: Mobius accepted matrices which are not 2x2

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8db121a..0d39eec 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2342,6 +2342,8 @@ class Mobius:
     """
     def __init__(self, M):
         self.M = np.asarray(M, dtype=complex)
+        if self.M.shape != (2,2):
+            raise ValueError("`M` cannot be converted to a 2x2 matrix.")
         
     def __str__(self):
         return str(self.__dict__)
-- 
2.43.0


From dcee2bed87fff6c71258d88767dd46752e6b5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 34/63] fix: intersection_line_line accepted figures which are
 not lines

---
 planegeometry/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0d39eec..90b2ada 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -345,6 +345,10 @@ class Line:
 
 
 def intersection_line_line(line1, line2, strict=False):
+    if not isinstance(line1, Line):
+        raise ValueError("`line1` is not a `Line` object.")
+    if not isinstance(line2, Line):
+        raise ValueError("`line2` is not a `Line` object.")
     if line1.is_equal(line2):
         if not strict:
             return line1
-- 
2.43.0


From cf4225f80cd4f230bdcc03047a0667c65686f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 35/63] fix: refuse complex angles in Ellipse.point_from_angle

---
 planegeometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 90b2ada..da4f650 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1061,7 +1061,10 @@ class Ellipse:
         if not is_number_(theta):
             if not is_vector_(theta):
                 raise ValueError("`theta` must be a number or a vector of numbers.")
-            theta = np.array(theta, dtype=float)
+            theta = np.array(theta)
+            if np.iscomplexobj(theta):
+                raise ValueError("`theta` cannot be converted to a vector of real numbers.")
+            theta = theta.astype(float)
             if not is_real_vector_(theta):
                 raise ValueError("`theta` cannot be converted to a vector of real numbers.")
         else:
-- 
2.43.0


From 6394069f1ae4bee42c2ff2e6916f1f9694fc46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 36/63] fix: reflect points which are close to the line

---
 planegeometry/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index da4f650..4c641f0 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2749,10 +2749,7 @@ class Reflection:
         _ = error_if_not_point_(P=P)
         P = np.asarray(P, dtype=float)
         line = self.line
-        if line.includes(P):
-            return P
-        perp = line.perpendicular(P, False, False)
-        return P + 2 * (perp.A - perp.B)
+        return 2 * line.projection(P) - P
     
     def reflect(self, P):
         """An alias of `transform`.
-- 
2.43.0


From 58740e603351f27bec85bfd9e071c39bb759583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 37/63] fix: perpendicular to a line through a point which is
 close to it

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4c641f0..f7669b7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -225,10 +225,10 @@ class Line:
         B = self.B
         A_B = B - A
         v = np.array([-A_B[1], A_B[0]])
-        if self.includes(M):
+        H = line_line_intersection_(A, B, M - v, M + v)
+        if self.includes(M) or np.allclose(H, M):
             print("M is on the line.")
             return Line(M, M + v, True, True)
-        H = line_line_intersection_(A, B, M - v, M + v)
         return Line(H, M, extendH, extendM)
 
     def projection(self, M):
-- 
2.43.0


From 048046a94db87793b59bc42a536a2c49911503b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 38/63] fix: objects keep their own copies of the arrays they
 are built from

---
 planegeometry/geometry.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f7669b7..3f98859 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -62,8 +62,8 @@ class Line:
         _ = error_if_not_point_(B=B)
         _ = error_if_not_boolean_(extendA=extendA)
         _ = error_if_not_boolean_(extendB=extendB)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
         if np.allclose(self.A, self.B):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
@@ -373,7 +373,7 @@ class Circle:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(radius=radius)
         _ = error_if_not_positive_(radius=radius)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = radius
         
     def __str__(self):
@@ -879,7 +879,7 @@ class Arc:
         _ = error_if_not_number_(alpha1=alpha1)
         _ = error_if_not_number_(alpha2=alpha2)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = radius
         self.alpha1 = alpha1
         self.alpha2 = alpha2
@@ -962,7 +962,7 @@ class Ellipse:
         _ = error_if_not_positive_(rminor=rminor)
         _ = error_if_not_number_(alpha=alpha)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.rmajor = rmajor
         self.rminor = rminor
         self.alpha = alpha
@@ -1521,7 +1521,7 @@ class Inversion:
     def __init__(self, pole, power):
         _ = error_if_not_point_(pole=pole)
         _ = error_if_not_number_(power=power)
-        self.pole = np.asarray(pole, dtype=float)
+        self.pole = np.array(pole, dtype=float)
         self.power = power
         
     def __str__(self):
@@ -1769,9 +1769,9 @@ class Triangle:
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
         _ = error_if_not_point_(C=C)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
-        self.C = np.asarray(C, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
+        self.C = np.array(C, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2155,10 +2155,10 @@ class Affine:
     """
     def __init__(self, A, b):
         _ = error_if_not_point_(b=b)
-        self.A = np.asarray(A, dtype=float)
+        self.A = np.array(A, dtype=float)
         if self.A.ndim != 2 or self.A.shape != (2,2):
             raise ValueError("`A` cannot be converted to a 2x2 matrix.")
-        self.b = np.asarray(b, dtype=float)
+        self.b = np.array(b, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2348,7 +2348,7 @@ class Mobius:
     
     """
     def __init__(self, M):
-        self.M = np.asarray(M, dtype=complex)
+        self.M = np.array(M, dtype=complex)
         if self.M.shape != (2,2):
             raise ValueError("`M` cannot be converted to a 2x2 matrix.")
         
@@ -2892,7 +2892,7 @@ class Rotation:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(theta=theta)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.theta = theta
         self.degrees = degrees
         
@@ -3089,8 +3089,8 @@ class Shear:
         else:
             if angle <= -pi/2 or angle >= pi/2:
                 raise ValueError("`angle` must be strictly between -90 degrees and 90 degrees.")            
-        self.vertex = np.asarray(vertex, dtype=float)
-        self.vector = np.asarray(vector, dtype=float)
+        self.vertex = np.array(vertex, dtype=float)
+        self.vector = np.array(vector, dtype=float)
         self.ratio = ratio
         self.angle = angle
         self.degrees = degrees
@@ -3177,7 +3177,7 @@ class ScalingXY:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(sx=sx)
         _ = error_if_not_number_(sy=sy)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.sx = sx
         self.sy = sy
         
@@ -3244,7 +3244,7 @@ class Homothety:
         """
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.scale = scale
         
     def __str__(self):
@@ -3335,8 +3335,8 @@ class Scaling:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_vector_(direction=direction)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
-        self.direction = np.asarray(direction, dtype=float)
+        self.center = np.array(center, dtype=float)
+        self.direction = np.array(direction, dtype=float)
         self.scale = scale
         
     def __str__(self):
-- 
2.43.0


From a5b84bb696e15855ef9d2e168e01158e50744f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 39/63] fix: the image of infinity by an inversion is not the
 array of its pole

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3f98859..8667d8c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1535,7 +1535,7 @@ class Inversion:
     def invert(self, M):
         pole = self.pole
         if is_inf_(M):
-            return pole
+            return np.array(pole)
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
         if np.allclose(pole, M):
-- 
2.43.0


From 28da33f00bdc2221da58b14f5ce46adb393da9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 40/63] fix: radical_axis: keep the two points of the axis
 distinct when it is far away

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8667d8c..e7d7285 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -583,9 +583,10 @@ class Circle:
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
-        v = np.array([-y, x])
+        v = np.array([-y, x]) / sqrt(x*x + y*y)
         R = self.radical_center(circ2)
-        return Line(R, R+v, True, True)
+        # the second point must stay distinct from `R` when `R` is far away
+        return Line(R, R + (1 + vlength_(R)) * v, True, True)
     
     def as_ellipse(self):
         """Converts the circle to an `Ellipse` object.
-- 
2.43.0


From 9e502574437104464952e43e79df8ec3dcf8028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 41/63] fix: Mobius.transform_circle: a circle through the pole
 up to rounding has a line as image

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e7d7285..a8787d8 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2516,7 +2516,7 @@ class Mobius:
         z0 = complex(*circ.center)
         x1 = mod2_(d + c*z0)
         x2 = R*R*mod2_(c)
-        if x1 != x2: # we are in this case if c=0
+        if not isclose(x1, x2): # we are in this case if c=0
             if x1 > 0:
                 z = z0 - R*R * c.conjugate() / (d + c*z0).conjugate()
                 w0 = self.transform(from_complex_(z))
-- 
2.43.0


From 20459e46e2c54a0b7e75c00404a7ef964824e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 42/63] fix: Mobius.transform_line: do not depend on the factor
 of the matrix

---
 planegeometry/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a8787d8..e78805b 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2564,7 +2564,8 @@ class Mobius:
         A = -2 * (gamma0 * c * d.conjugate()).real - D0 * mod2_(c)
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
-        if abs(A) > sepsilon_:
+        # the distance from the pole to the line is abs(A) / (2*mod2_(c))
+        if abs(A) > sepsilon_ * abs(c) * (abs(c) + 4*sepsilon_*abs(d)):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
         # take two points of the line away from the pole
         pts = sorted(
-- 
2.43.0


From d614ee4bd216e268ec0f283fbd988d0939635e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 43/63] fix: Mobius.gpower: do not depend on the factor of the
 matrix

---
 planegeometry/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e78805b..fd923d4 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2426,14 +2426,15 @@ class Mobius:
         M = self.M
         detM = det2x2_mat_(M)
         trM = M[0, 0] + M[1, 1]
-        if abs(trM*trM - 4*detM) < sepsilon_:
+        size = np.linalg.norm(M) # a multiple of `M` is the same map
+        if abs(trM*trM - 4*detM) < sepsilon_ * size*size:
             alpha = trM / 2
             D = np.diag((alpha, alpha))
-            if np.allclose(M, D):
+            if np.allclose(M/size, D/size):
                 alpha_t = alpha**t
                 return Mobius(np.diag((alpha_t, alpha_t)))
             N = M - D
-            if np.allclose(N[:, 1], np.zeros((2,))):
+            if np.allclose(N[:, 1]/size, np.zeros((2,))):
                 v2 = np.array([1.0, 0.0])
                 v1 = N[:, 0]
             else:
-- 
2.43.0


From fcf8ef2daba977e1e2b4e4cbc48248b8e1e13a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 44/63] fix: Inversion.invert_circle: do not depend on the unit
 of length

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index fd923d4..96202fb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1552,8 +1552,9 @@ class Inversion:
         k = self.power
         c1 = circ.center
         r1 = circ.radius
-        D1 = (c1[0] - c0[0])**2 + (c1[1] - c0[1])**2 - r1*r1
-        if abs(D1) > sepsilon_:
+        d2 = (c1[0] - c0[0])**2 + (c1[1] - c0[1])**2
+        D1 = d2 - r1*r1
+        if abs(D1) > sepsilon_ * (d2 + r1*r1):
             s = k / D1
             return Circle(c0 + s*(c1-c0), abs(s)*r1)
         Ot = c0 - c1
-- 
2.43.0


From b1f68c153197dbcc47decaee0d3b055579ba666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 45/63] fix: Line.is_parallel, Line.is_perpendicular: do not
 depend on the distance of the defining points

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 96202fb..ef33b13 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -155,7 +155,7 @@ class Line:
         dy1 = P1[1] - P2[1]
         dy2 = Q1[1] - Q2[1]
         D = det2x2_((dx1, dy1), (dx2, dy2))
-        return abs(D) < sepsilon_
+        return bool(abs(D) < sepsilon_ * distance_(P1, P2) * distance_(Q1, Q2))
 
     def is_perpendicular(self, line2):
         """Check whether the reference line is perpendicular to another line.
@@ -168,7 +168,7 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         AB = self.B - self.A
         CD = line2.B - line2.A
-        return approx_equal_(np.vdot(AB, CD), 0)
+        return approx_equal_(np.vdot(AB, CD) / (vlength_(AB) * vlength_(CD)), 0)
 
     
     def includes(self, M, strict = False, checkCollinear = True):
-- 
2.43.0


From 58b5136cbfcdae298f91a8374c24d4a3a4dd7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 46/63] fix: intersection_circle_circle: do not depend on the
 unit of length

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ef33b13..483ee71 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -815,9 +815,10 @@ def intersection_circle_circle(circ1, circ2):
     center2 = circ2.center
     d2 = dot_(center1 - center2)
     sumRadii2 = (r1 + r2)**2
-    if d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+    tol = sepsilon_ * sumRadii2
+    if d2 > sumRadii2 + tol or d2 < (r1-r2)**2 - tol:
         return None
-    touch = sumRadii2 - d2 < sepsilon_ or d2 - (r1-r2)**2 < sepsilon_
+    touch = sumRadii2 - d2 < tol or d2 - (r1-r2)**2 < tol
     x, y = center1 - center2
     lsquared = x*x + y*y
     cosine = max(
-- 
2.43.0


From 7a1c39cfbb2c60802119e82948df38ba6574af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 47/63] fix: mid_circles: do not depend on the unit of length

---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 483ee71..c6dfb44 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -746,19 +746,20 @@ def mid_circles(circ1, circ2):
         d2 = dot_(O1 - O2)
         sumRadii2 = (r1 + r2)**2
         rho = r1 / r2
-        if d2 > sumRadii2 + sepsilon_: # they are outside each other
+        tol = sepsilon_ * sumRadii2
+        if d2 > sumRadii2 + tol: # they are outside each other
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 < (r1-r2)**2 - sepsilon_: # one contains the other
+        elif d2 < (r1-r2)**2 - tol: # one contains the other
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif sumRadii2 - d2 < sepsilon_: # they are externally tangent
+        elif sumRadii2 - d2 < tol: # they are externally tangent
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 - (r1-r2)**2 < sepsilon_: # they are internally tangent
+        elif d2 - (r1-r2)**2 < tol: # they are internally tangent
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-- 
2.43.0


From e191927d52532044589c359a3a4719ed45d4b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 48/63] fix: Circle.angle, Circle.is_orthogonal: do not depend
 on the unit of length

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c6dfb44..5459d33 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -628,7 +628,7 @@ class Circle:
         d2 = dot_(self.center - circ2.center)
         r = self.radius
         r2 = circ2.radius
-        return approx_equal_(d2, r*r + r2*r2)
+        return isclose(d2, r*r + r2*r2)
     
     def angle(self, circ2):
         """Angle between the reference circle and a given circle, if they intersect.
@@ -642,7 +642,8 @@ class Circle:
         r1 = self.radius
         r2 = circ2.radius
         d2 = dot_(center1 - center2)
-        if d2 > (r1+r2)**2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+        tol = sepsilon_ * (r1+r2)**2
+        if d2 > (r1+r2)**2 + tol or d2 < (r1-r2)**2 - tol:
             print("The two circles do not intersect.")
             return None
         b1 = 1/r1
-- 
2.43.0


From 67b5a444df0eef5833c24c242ee15f93d7d672e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 49/63] fix: Circle.includes, Ellipse.includes: do not depend
 on the unit of length

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5459d33..21c2921 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -410,7 +410,7 @@ class Circle:
         r = self.radius
         O = self.center
         d2 = dot_(P-O)
-        return approx_equal_(d2, r*r)
+        return isclose(d2, r*r)
 
     def contains(self, P):
         """Check whether a point is contained in the reference circle.
@@ -1153,7 +1153,7 @@ class Ellipse:
         A, B, C, D, E, F = self.equation().values()
         x, y = P
         zero = A*x*x + B*x*y + C*y*y + D*x + E*y + F
-        return isclose(1.0, zero+1.0)
+        return isclose(1.0, zero/(self.rmajor*self.rminor)**2 + 1.0)
 
     def contains(self, P):
         """Check whether a point is contained in the ellipse.
-- 
2.43.0


From 70d6280b22510d3b2689e7b39205ff4a09970c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 50/63] fix: do not confuse distinct points which are far from
 the origin

---
 planegeometry/geometry.py | 19 ++++++++++---------
 planegeometry/internal.py |  7 ++++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 21c2921..06c8f73 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -24,6 +24,7 @@ from .internal import (
     sepsilon_,
     ellipse_points_,
     collinear_,
+    same_points_,
     circle_points_,
     det2x2_mat_,
     from_complex_,
@@ -64,7 +65,7 @@ class Line:
         _ = error_if_not_boolean_(extendB=extendB)
         self.A = np.array(A, dtype=float)
         self.B = np.array(B, dtype=float)
-        if np.allclose(self.A, self.B):
+        if same_points_(self.A, self.B):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
         self.extendB = extendB
@@ -226,7 +227,7 @@ class Line:
         A_B = B - A
         v = np.array([-A_B[1], A_B[0]])
         H = line_line_intersection_(A, B, M - v, M + v)
-        if self.includes(M) or np.allclose(H, M):
+        if self.includes(M) or same_points_(H, M):
             print("M is on the line.")
             return Line(M, M + v, True, True)
         return Line(H, M, extendH, extendM)
@@ -395,7 +396,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         return (
             approx_equal_(self.radius, circ2.radius) and 
-            np.allclose(self.center, circ2.center)
+            same_points_(self.center, circ2.center)
         )
         
     def includes(self, P):
@@ -474,7 +475,7 @@ class Circle:
         _ = error_if_not_boolean_(arc=arc)
         P1 = np.asarray(P1, dtype=float)
         P2 = np.asarray(P2, dtype=float)
-        if np.allclose(P1, P2):
+        if same_points_(P1, P2):
             raise ValueError("`P1` and `P2` must be distinct.")
         I = self.center
         r = self.radius
@@ -579,7 +580,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         C1 = self.center
         C2 = circ2.center
-        if np.allclose(C1, C2):
+        if same_points_(C1, C2):
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
@@ -666,7 +667,7 @@ def circleAB(A, B):
     _ = error_if_not_point_(B=B)
     A = np.asarray(A, dtype=float)
     B = np.asarray(B, dtype=float)
-    if np.allclose(A, B):
+    if same_points_(A, B):
         raise ValueError("`A` and `B` are not distinct.")
     return Circle((A+B)/2, distance_(A, B)/2)
 
@@ -681,7 +682,7 @@ def circleOA(O, A):
     _ = error_if_not_point_(O=O)
     A = np.asarray(A, dtype=float)
     O = np.asarray(O, dtype=float)
-    if np.allclose(O, A):
+    if same_points_(O, A):
         raise ValueError("`O` and `A` are not distinct.")
     return Circle(O, distance_(O, A))
 
@@ -726,7 +727,7 @@ def mid_circles(circ1, circ2):
     O1 = circ1.center
     O2 = circ2.center
     if r1 == r2:
-        if np.allclose(O1, O2): # O1=O2
+        if same_points_(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
@@ -1542,7 +1543,7 @@ class Inversion:
             return np.array(pole)
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
-        if np.allclose(pole, M):
+        if same_points_(pole, M):
             return inf
         k = self.power
         pole_M = M - pole
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 27db5f9..19da861 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -158,8 +158,13 @@ def circle_points_(t, O, r):
         )
     )
   
+def same_points_(A, B):
+    # the default relative tolerance would identify distinct points which are 
+    # far from the origin
+    return np.allclose(A, B, rtol=sepsilon_)
+
 def collinear_(A, B, C, tol = 0):
-    notdistinct = np.allclose(A, B) or np.allclose(A, C) or np.allclose(B, C)
+    notdistinct = same_points_(A, B) or same_points_(A, C) or same_points_(B, C)
     if notdistinct:
         return True
     AB = B - A
-- 
2.43.0


From bcfb814222970fdc7acef92f03148907670d4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 51/63] fix: Line.is_equal: do not confuse close parallel lines

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 06c8f73..cd78588 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -131,7 +131,7 @@ class Line:
         do2 = line2.direction_offset()
         do1 = (do1["direction"], do1["offset"])
         do2 = (do2["direction"], do2["offset"])
-        if not np.isclose(do1[1], do2[1]):
+        if not np.isclose(do1[1], do2[1], rtol=sepsilon_):
             return False
         # for lines through the origin the direction is defined modulo pi
         period = pi if approx_equal_(do1[1], 0) else 2*pi
-- 
2.43.0


From 88af1f2d04fb469b2c795ee8514a253ae906b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 52/63] fix: equation_from_five_points: keep the accuracy far
 from the origin

---
 planegeometry/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index cd78588..5304ef0 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1291,8 +1291,9 @@ class Ellipse:
         P = np.array([P1, P2, P3, P4, P5])
         if np.unique(P, axis=0).shape != P.shape:
             raise ValueError("The five points are not distinct.")
-        x = P[:, 0]
-        y = P[:, 1]
+        # shift the points for a better accuracy when they are far from the origin
+        x = P[:, 0] - P1[0]
+        y = P[:, 1] - P1[1]
         M = np.column_stack((x*x, x*y, y*y, x, y, np.ones(5)))
         A = np.linalg.det(M[:, [1, 2, 3, 4, 5]])
         B = -np.linalg.det(M[:, [0, 2, 3, 4, 5]])
@@ -1302,6 +1303,10 @@ class Ellipse:
         D = -np.linalg.det(M[:, [0, 1, 2, 4, 5]])
         E = np.linalg.det(M[:, [0, 1, 2, 3, 5]])
         F = -np.linalg.det(M[:, [0, 1, 2, 3, 4]])
+        # shift back
+        x1, y1 = P1
+        F = A*x1*x1 + B*x1*y1 + C*y1*y1 - D*x1 - E*y1 + F
+        D, E = D - 2*A*x1 - B*y1, E - B*x1 - 2*C*y1
         return {
             "A": A,
             "B": B,
-- 
2.43.0


From 0d4aaad172e7a9e4f845a1e8f08c6bcebac30d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 53/63] fix: Affine.transform_ellipse: keep the accuracy far
 from the origin

---
 planegeometry/geometry.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5304ef0..1e0b614 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2247,32 +2247,26 @@ class Affine:
             return
         if isinstance(ell, Circle):
             ell = Circle.as_ellipse(ell)
-        A, B, C, D, E, F = ell.equation().values()
+        A, B, C, *_ = ell.equation().values()
         X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]
+            [A, B/2],
+            [B/2, C]
         ])
-        Mat = np.linalg.inv(self.get3x3matrix())
+        Mat = np.linalg.inv(self.A)
         Y = np.matmul(np.matmul(np.transpose(Mat), X), Mat) 
         A = Y[0,0]
         B = 2 * Y[0,1]
         C = Y[1,1]
-        D = 2 * Y[0,2]
-        E = 2 * Y[1,2]
-        F = Y[2,2]
+        # equation of the image centered at the origin: Ax² + Bxy + Cy² + F = 0
+        F = - (ell.rmajor * ell.rminor)**2
         Delta = B*B - 4*A*C
         s = sqrt((A-C)**2 + B*B)
         V = np.array([s, -s])
-        a, b = - np.sqrt(
-            2 * (A*E*E + C*D*D - B*D*E + Delta*F)*((A + C) + V)
-        ) / Delta 
-        x0 = (2*C*D - B*E) / Delta
-        y0 = (2*A*E - B*D) / Delta
+        a, b = - np.sqrt(2 * Delta*F * ((A + C) + V)) / Delta 
         theta = atan2(C - A - s, B)
         degrees = ell.degrees
         theta = (theta*180/pi) % 180 if degrees else (theta % pi)
-        return Ellipse((x0, y0), a, b, theta, degrees = degrees)
+        return Ellipse(self.transform(ell.center), a, b, theta, degrees = degrees)
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From fefb16a36b6a0b67240ebf48b70a181960b6928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 54/63] fix: Ellipse.is_equal: do not confuse distinct ellipses
 which are far from the origin

---
 planegeometry/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 1e0b614..8f8716c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -996,18 +996,21 @@ class Ellipse:
             ell2 = ell2.as_ellipse()
         if not isinstance(ell2, Ellipse):
             raise ValueError("`ell2` must be an `Ellipse` object or a `Circle` object.")
-        x1, y1 = self.center
         alpha1 = self.alpha
         if not self.degrees:
             alpha1 *= 180/pi
-        x2, y2 = ell2.center
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        v1 = np.array([self.rmajor, self.rminor])
+        v2 = np.array([ell2.rmajor, ell2.rminor])
         if not np.allclose(v1, v2):
             return False
+        # the tolerance on the centers is relative to the size of the ellipses
+        if not np.allclose(
+            self.center, ell2.center, rtol=sepsilon_, atol=1e-5*self.rminor
+        ):
+            return False
         if np.isclose(self.rmajor, self.rminor): # circles: the angle is irrelevant
             return True
         delta = (alpha1 - alpha2) % 180
-- 
2.43.0


From dd251a317bbb4b649992773640e9c5fe507bd783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 55/63] fix: Ellipse.includes, Ellipse.contains: keep the
 accuracy far from the origin

---
 planegeometry/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8f8716c..c5c3bc1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1154,10 +1154,10 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        zero = A*x*x + B*x*y + C*y*y + D*x + E*y + F
-        return isclose(1.0, zero/(self.rmajor*self.rminor)**2 + 1.0)
+        A, B, C, *_ = self.equation().values()
+        x, y = np.asarray(P, dtype=float) - self.center
+        value = A*x*x + B*x*y + C*y*y
+        return isclose(1.0, value/(self.rmajor*self.rminor)**2)
 
     def contains(self, P):
         """Check whether a point is contained in the ellipse.
@@ -1167,9 +1167,9 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        return A*x*x + B*x*y + C*y*y + D*x + E*y + F <= 0
+        A, B, C, *_ = self.equation().values()
+        x, y = np.asarray(P, dtype=float) - self.center
+        return bool(A*x*x + B*x*y + C*y*y <= (self.rmajor*self.rminor)**2)
     
     def shape_matrix(self):
         """The 2x2 symmetric matrix `S` associated to the reference ellipse. 
-- 
2.43.0


From daf101a7df77b98766aa36b0e92f1b925aa9a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 56/63] fix: Triangle.malfatti_circles: wrong circles, or
 failure, for rather flat triangles

---
 planegeometry/geometry.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c5c3bc1..748b51e 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2048,25 +2048,11 @@ class Triangle:
         r2 = halfr * (sminr - (IC+IA-IB)) / sminb
         r3 = halfr * (sminr - (IA+IB-IC)) / sminc
         # centers of Malfatti circles ####
-        d1 = r1 / tan(acos(dot_(C-A, B-A)/b/c)/2)
-        d2 = r2 / tan(acos(dot_(C-B, A-B)/a/c)/2)
-        d3 = r3 / tan(acos(dot_(A-C, B-C)/b/a)/2)
-        w = d1 + d2 + 2*sqrt(r1*r2)
-        u = d2 + d3 + 2*sqrt(r2*r3)
-        v = d3 + d1 + 2*sqrt(r3*r1)
-        d = sqrt((-u+v+w)*(u+v-w)*(u-v+w)*(u+v+w)) / 2
-        x = d/r1 - (v+w)
-        y = u
-        z = u # trilinear coordinates
-        O1 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
-        x = v
-        y = d/r2 - (u+w)
-        z = v # trilinear coordinates
-        O2 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
-        x = w
-        y = w
-        z = d/r3 - (u+v) # trilinear coordinates
-        O3 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
+        # they are on the bisectors, at a distance to the vertex proportional to
+        # the radius
+        O1 = A + r1/r * (I - A)
+        O2 = B + r2/r * (I - B)
+        O3 = C + r3/r * (I - C)
         circles = {
           "cA": Circle(center = O1, radius = r1),
           "cB": Circle(center = O2, radius = r2),
-- 
2.43.0


From 3b09da23c95e4a4e3ea11d17e60524dfdf14cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 57/63] fix: Ellipse.shape_matrix: keep the accuracy far from
 the origin

---
 planegeometry/geometry.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 748b51e..a1b41ba 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1176,14 +1176,12 @@ class Ellipse:
         The equation of the ellipse is `(M-O)' S (M-O) = 1`.
         
         """
-        A, B, C, D, E, F = self.equation().values()
+        A, B, C, *_ = self.equation().values()
         X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]            
+            [A, B/2],
+            [B/2, C]
         ])
-        K = - np.linalg.det(X) / (A*C - B*B/4)
-        return X[0:2, 0:2] / K
+        return X / (self.rmajor * self.rminor)**2
     
     def theta2t(self, theta, degrees=True):
         """Convert angle to eccentric angle.
-- 
2.43.0


From 61786ec2120c484875f9c14fdb12eeca4b726eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 58/63] fix: Mobius.gpower: wrong map, or failure, when the
 eigenvalues are close or the matrix has a large entry

---
 planegeometry/geometry.py | 48 ++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a1b41ba..49edd50 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2416,35 +2416,25 @@ class Mobius:
         _ = error_if_not_number_(t=t)
         M = self.M
         detM = det2x2_mat_(M)
-        trM = M[0, 0] + M[1, 1]
-        size = np.linalg.norm(M) # a multiple of `M` is the same map
-        if abs(trM*trM - 4*detM) < sepsilon_ * size*size:
-            alpha = trM / 2
-            D = np.diag((alpha, alpha))
-            if np.allclose(M/size, D/size):
-                alpha_t = alpha**t
-                return Mobius(np.diag((alpha_t, alpha_t)))
-            N = M - D
-            if np.allclose(N[:, 1]/size, np.zeros((2,))):
-                v2 = np.array([1.0, 0.0])
-                v1 = N[:, 0]
-            else:
-                v2 = np.array([0.0, 1.0])
-                v1 = N[:, 1]
-            P = np.column_stack((v1, v2))
-            alpha_t = alpha**t
-            Jt = np.array([
-                    [alpha_t, t*alpha**(t-1)],
-                    [0.0, alpha_t]
-                ])
-            return Mobius(np.matmul(np.matmul(P, Jt), np.linalg.inv(P)))
-        eigen_values, eigen_vectors = np.linalg.eig(M)
-        Dt = np.diag(eigen_values**t)
-        return Mobius(
-            np.matmul(
-                np.matmul(eigen_vectors, Dt), np.linalg.inv(eigen_vectors)
-            )
-        )
+        alpha = (M[0, 0] + M[1, 1]) / 2
+        # the eigenvalues are alpha + h and alpha - h
+        h2 = ((M[0, 0] - M[1, 1])/2)**2 + M[0, 1]*M[1, 0]
+        # M**t = p*I + q*(M - mu*I)
+        if abs(h2) < sepsilon_ * mod2_(alpha): # nearly equal eigenvalues
+            mu = alpha
+            p = alpha**t + t*(t-1)/2 * alpha**(t-2) * h2
+            q = t * alpha**(t-1)
+        else:
+            h = np.sqrt(h2)
+            nu = alpha + h if abs(alpha + h) > abs(alpha - h) else alpha - h
+            # adding 0 turns -0.0 to 0.0: this matters for a negative eigenvalue
+            nu = nu + 0
+            mu = detM / nu + 0
+            if abs(mu**t) > abs(nu**t):
+                mu, nu = nu, mu
+            p = mu**t
+            q = (nu**t - mu**t) / (nu - mu)
+        return Mobius(np.diag((p, p)) + q * (M - np.diag((mu, mu))))
 
     def transform(self, P):
         """Transform a point by the Möbius transformation.
-- 
2.43.0


From e330071fdca50a416badb1c729b8fdf24f3de632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:06 +0000
Subject: [PATCH 59/63] fix: Mobius.fixed_points: wrong fixed point when the
 other one is far away

---
 planegeometry/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 49edd50..a08a775 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2477,10 +2477,12 @@ class Mobius:
         Delta = (a-d)**2 + 4*b*c
         if Delta == 0:
             return from_complex_((a-d)/2/c)
-        return [
-            from_complex_((a-d + np.sqrt(Delta))/2/c),
-            from_complex_((a-d - np.sqrt(Delta))/2/c)
-        ]
+        plus = a - d + np.sqrt(Delta)
+        minus = a - d - np.sqrt(Delta)
+        # the product of the roots is -b/c; this avoids a cancellation
+        if abs(plus) >= abs(minus):
+            return [from_complex_(plus/2/c), from_complex_(-2*b/plus)]
+        return [from_complex_(-2*b/minus), from_complex_(minus/2/c)]
 
     
     def transform_circle(self, circ):
-- 
2.43.0


From 108fadc8c90b3a2b8444ac11841070f6dddc0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 60/63] fix: Affine.transform: refuse what is not a point or a
 two-column matrix

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a08a775..af803ad 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2205,6 +2205,8 @@ class Affine:
         """
         b = self.b
         m = np.asarray(m, dtype=float)
+        if m.ndim not in (1, 2) or m.shape[-1] != 2:
+            raise ValueError("`m` is not a point or a two-column matrix.")
         if m.ndim == 2:
             b = np.repeat(b.reshape(2,1), m.shape[0], axis=1)
         return np.transpose(np.matmul(self.A, np.transpose(m)) + b)
-- 
2.43.0


From 73d2fcde223ce3418b82152de04dafea32f4c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 61/63] fix: numpy integers as radii, power or scale overflowed
 when squared

---
 planegeometry/geometry.py | 13 +++++++------
 planegeometry/internal.py |  4 ++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index af803ad..d4dc1e9 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -31,6 +31,7 @@ from .internal import (
     mod2_,
     farey_stack_,
     is_number_, 
+    python_number_,
     is_vector_, 
     is_real_vector_, 
     error_if_not_point_,
@@ -375,7 +376,7 @@ class Circle:
         _ = error_if_not_number_(radius=radius)
         _ = error_if_not_positive_(radius=radius)
         self.center = np.array(center, dtype=float)
-        self.radius = radius
+        self.radius = python_number_(radius)
         
     def __str__(self):
         return str(self.__dict__)
@@ -885,7 +886,7 @@ class Arc:
         _ = error_if_not_number_(alpha2=alpha2)
         _ = error_if_not_boolean_(degrees=degrees)
         self.center = np.array(center, dtype=float)
-        self.radius = radius
+        self.radius = python_number_(radius)
         self.alpha1 = alpha1
         self.alpha2 = alpha2
         self.degrees = degrees
@@ -968,8 +969,8 @@ class Ellipse:
         _ = error_if_not_number_(alpha=alpha)
         _ = error_if_not_boolean_(degrees=degrees)
         self.center = np.array(center, dtype=float)
-        self.rmajor = rmajor
-        self.rminor = rminor
+        self.rmajor = python_number_(rmajor)
+        self.rminor = python_number_(rminor)
         self.alpha = alpha
         self.degrees = degrees
 
@@ -1533,7 +1534,7 @@ class Inversion:
         _ = error_if_not_point_(pole=pole)
         _ = error_if_not_number_(power=power)
         self.pole = np.array(pole, dtype=float)
-        self.power = power
+        self.power = python_number_(power)
         
     def __str__(self):
         return str(self.__dict__)
@@ -3233,7 +3234,7 @@ class Homothety:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(scale=scale)
         self.center = np.array(center, dtype=float)
-        self.scale = scale
+        self.scale = python_number_(scale)
         
     def __str__(self):
         return str(self.__dict__)
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 19da861..ecedb0d 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -17,6 +17,10 @@ def are_equal_(x, y):
 def is_number_(x):
     return isinstance(x, numbers.Number) and (not isinstance(x, complex))
 
+def python_number_(x):
+    # the integers of numpy overflow when they are squared
+    return x.item() if isinstance(x, np.generic) else x
+
 def error_if_not_number_(**kwargs):
     key = list(kwargs.keys())[0]
     x = kwargs[key]
-- 
2.43.0


From c70a1c742f8db91de2c8b4c92984b4db389ca0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 62/63] fix: Ellipse.shape_matrix, random_points: matrix of
 objects when the radii are large integers

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d4dc1e9..6aecd91 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1181,8 +1181,8 @@ class Ellipse:
         X = np.array([
             [A, B/2],
             [B/2, C]
-        ])
-        return X / (self.rmajor * self.rminor)**2
+        ], dtype=float)
+        return X / (float(self.rmajor) * self.rminor)**2
     
     def theta2t(self, theta, degrees=True):
         """Convert angle to eccentric angle.
-- 
2.43.0


From 6cda590f8542bae199f2f216811ee94e1dddc059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 63/63] fix: Ellipse.from_equation: numpy integers overflowed

---
 planegeometry/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6aecd91..f2dfa80 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1249,6 +1249,7 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
+        A, B, C, D, E, F = map(python_number_, (A, B, C, D, E, F))
         if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-- 
2.43.0

