From fd1967e981c47f55df3c48a093eda633dec740b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:47 +0000
Subject: [PATCH 01/45] fix: spherical/cartesian vector transforms used the
 wrong angle

spherical_to_cartesian multiplied the azimuthal component by cos(theta), and
cartesian_to_spherical overwrote phi before computing the polar component.
---
 geoana/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..1424855 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
@@ -397,15 +397,15 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    v_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, v_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From c35707052765d5bbb62a4cbc24de97b62e8be30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:47 +0000
Subject: [PATCH 02/45] fix: orientation setters normalised the caller's array
 in place

---
 geoana/em/base.py            | 2 +-
 geoana/em/fdem/wholespace.py | 2 +-
 geoana/em/tdem/wholespace.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..2bcd8d2 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -219,7 +219,7 @@ class BaseDipole:
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..d2430e5 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -998,7 +998,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..94115ca 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -675,7 +675,7 @@ class TransientPlaneWave(BaseTDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
-- 
2.43.0


From fb0ab13a720923c811208cbb82a73910fef7441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:47 +0000
Subject: [PATCH 03/45] fix: plane wave orientation silently accepted unknown
 strings

---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index d2430e5..dacfc3e 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 94115ca..c2b6797 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
-- 
2.43.0


From f969f5fe1ef77ea00da47c04436071294156e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:47 +0000
Subject: [PATCH 04/45] fix: field outside a sphere was not the gradient of its
 potential

The dipole term of the exterior field was scaled by R/r**4 instead of R**3/r**5.
---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From 3c09876f319ce024095d2550ed5cc77443c61d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:47 +0000
Subject: [PATCH 05/45] fix: near-axis vector potential of a circular loop
 divided by a factor it should multiply

The cubic term of the expansion in rho was singular (NaN) at z = +-radius/2.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..4455ea5 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * (a**2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From c272403a7fe22d5986343d4717081cd0dd726a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 06/45] fix: magnetic field of a line current was NaN on the
 extension of a segment

The field of a straight segment vanishes on the line that extends it; it was
evaluated as 0/0 there, which also poisoned the sum over the other segments.
---
 geoana/em/static/wholespace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 4455ea5..4181a10 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1015,7 +1015,11 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            # there is no field on the line extending the segment (0/0)
+            d_cos = r1_hat[..., 0] - r0_hat[..., 0]
+            temp_storage[..., 1] = np.divide(
+                d_cos, cyl_points[..., 0], out=np.zeros_like(d_cos), where=d_cos != 0.0
+            )
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From ce7d02adc4b195b498a6f63d3df53497b043ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 07/45] fix: line current with a repeated node raised instead
 of ignoring the empty segment

---
 geoana/em/static/wholespace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 4181a10..a14b474 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -864,6 +864,9 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0.0:
+                # repeated nodes do not contribute
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
@@ -997,6 +1000,9 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0.0:
+                # repeated nodes do not contribute
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
-- 
2.43.0


From 1cdca1a3aca965d555974269c5c14f3da78df028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 08/45] fix: moving a point current overwrote the array it was
 created from

The location setter wrote into the stored nodes in place, which may be the
caller's array, possibly shared with other sources.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index a14b474..1bb63f0 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1132,7 +1132,7 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
             raise ValueError(
                 f"location must be array_like with shape (3,), got {len(vec)}"
             )
-        self.nodes[0] = vec
+        self.nodes = vec
 
     def potential(self, xyz):
         """Electric potential for a point current in a wholespace.
-- 
2.43.0


From 53a7d7f2210b7a02b71a319758f5a7c75dfe75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 09/45] fix: static source locations and primary fields
 accepted 2D arrays of 3 rows

---
 geoana/em/static/halfspace.py  | 12 ++++++------
 geoana/em/static/sphere.py     | 16 ++++++++--------
 geoana/em/static/wholespace.py |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..e599563 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -107,9 +107,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -424,9 +424,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -456,9 +456,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index d926076..7edbe24 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 1bb63f0..0650274 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1128,9 +1128,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
         self.nodes = vec
 
-- 
2.43.0


From 0a33216179cc5a55641e21395b7190839322613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:53 +0000
Subject: [PATCH 10/45] fix: half space magnetic dipole failed for a scalar
 frequency

A scalar frequency is accepted at construction, but evaluating more than a
single location raised an IndexError.
---
 geoana/em/fdem/halfspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..0b373e2 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -95,7 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         y = dxy[..., 1]
 
         for dim in range(r.ndim):
-            k = k[:, None]
+            k = k[..., None]
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 03da9362afc9de39ea4eb6b328b02198f2510953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 11/45] fix: sources kept references to the arrays assigned to
 them

In-place updates such as `source.location += shift` modified the caller's array,
and, for dipoles created with the default location, the default shared by all
other instances.
---
 geoana/em/base.py             | 4 ++--
 geoana/em/fdem/base.py        | 2 +-
 geoana/em/static/freespace.py | 2 +-
 geoana/em/tdem/base.py        | 2 +-
 geoana/gravity.py             | 2 +-
 geoana/shapes.py              | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 2bcd8d2..cfe4463 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From c881ecf96907f0ac4a4528350a85d9d0b58c16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 12/45] fix: half space and layered dipoles could be moved to
 invalid depths

The depth of the source was validated at construction only.
---
 geoana/em/fdem/halfspace.py | 10 ++++++++++
 geoana/em/fdem/layered.py   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index 0b373e2..164cded 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -20,6 +20,16 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         if self.location[2] != 0.0:
             raise ValueError("Source must be at the surface of the earth (i.e. z=0.0)")
 
+    @BaseMagneticDipole.location.setter
+    def location(self, vec):
+        previous = getattr(self, "_location", None)
+        BaseMagneticDipole.location.fset(self, vec)
+        try:
+            self._check_is_valid_location()
+        except ValueError:
+            self._location = previous
+            raise
+
 
     def magnetic_field(self, xy, field="secondary"):
         """Magnetic field due to a magnetic dipole over a half space
diff --git a/geoana/em/fdem/layered.py b/geoana/em/fdem/layered.py
index 3cf84ba..8d2f991 100644
--- a/geoana/em/fdem/layered.py
+++ b/geoana/em/fdem/layered.py
@@ -52,6 +52,16 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
         if self.location[2] < 0.0:
             raise ValueError("Source must be above the surface of the earth (i.e. z >= 0.0)")
 
+    @BaseMagneticDipole.location.setter
+    def location(self, vec):
+        previous = getattr(self, "_location", None)
+        BaseMagneticDipole.location.fset(self, vec)
+        try:
+            self._check_is_valid_location()
+        except ValueError:
+            self._location = previous
+            raise
+
     @property
     def frequency(self):
         """Frequency (Hz) used for all computations
-- 
2.43.0


From d5231e88260b0eedc9bb22a61050c39f261fdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:16 +0000
Subject: [PATCH 13/45] fix: prism gradient kernels lost all precision next to
 the line extending an edge

log(y + r) was evaluated with catastrophic cancellation for y < 0, and the corners
of one prism could end up in different branches: off diagonal gradients 1e-9 m away
from that line were off by an order of magnitude.
---
 geoana/kernels/_extensions/potential_field_prism.pyx | 12 ++++++++++--
 geoana/kernels/potential_field_prism.py              | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/geoana/kernels/_extensions/potential_field_prism.pyx b/geoana/kernels/_extensions/potential_field_prism.pyx
index ff6a4dd..971b4e1 100644
--- a/geoana/kernels/_extensions/potential_field_prism.pyx
+++ b/geoana/kernels/_extensions/potential_field_prism.pyx
@@ -135,7 +135,11 @@ cdef api double prism_fzx(double x, double y, double z) nogil:
         double v = 0.0
         double r
     r = sqrt(x * x + y * y + z * z)
-    v = y + r
+    if y < 0.0:
+        # avoid the cancellation in y + r
+        v = (x * x + z * z) / (r - y)
+    else:
+        v = y + r
     if v == 0.0:
         if y < 0:
             v = log(-2 * y)
@@ -168,7 +172,11 @@ cdef api double prism_fzy(double x, double y, double z) nogil:
         double v = 0.0
         double r, temp
     r = sqrt(x * x + y * y + z * z)
-    v = x + r
+    if x < 0.0:
+        # avoid the cancellation in x + r
+        v = (y * y + z * z) / (r - x)
+    else:
+        v = x + r
     if v == 0.0:
         if x < 0:
             v = log(-2 * x)
diff --git a/geoana/kernels/potential_field_prism.py b/geoana/kernels/potential_field_prism.py
index 40d8ce6..90a81f7 100644
--- a/geoana/kernels/potential_field_prism.py
+++ b/geoana/kernels/potential_field_prism.py
@@ -139,7 +139,11 @@ def _prism_fzx(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = y + r
+    v = np.zeros_like(r)
+    neg = y < 0
+    # avoid the cancellation in y + r
+    v[neg] = (x[neg] * x[neg] + z[neg] * z[neg]) / (r[neg] - y[neg])
+    v[~neg] = y[~neg] + r[~neg]
 
     nz = (v == 0) & (y < 0)
     out[nz] = np.log(-2 * y[nz])
@@ -171,7 +175,11 @@ def _prism_fzy(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = x + r
+    v = np.zeros_like(r)
+    neg = x < 0
+    # avoid the cancellation in x + r
+    v[neg] = (y[neg] * y[neg] + z[neg] * z[neg]) / (r[neg] - x[neg])
+    v[~neg] = x[~neg] + r[~neg]
 
     nz = (v == 0) & (x < 0)
     out[nz] = np.log(-2 * x[nz])
-- 
2.43.0


From e141d81c1ebedc47d9b7d6240f5b3fa7ce19da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 14/45] fix: oksar properties did not return what was assigned
 to them

Oksar.V, EarthquakeInterferogram.local_rigidity and .event_date read an attribute
which their setter does not write, which also made displacement_vector unusable.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..78875e9 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From 2b1c71c76ed03fa257f95584e964cdb2b8af4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 15/45] fix: oksar simulation grid did not span the U and V
 directions

The direction matrix was applied transposed, which only makes no difference when
U and V are aligned with the axes.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78875e9..8c256b4 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1290,7 +1290,7 @@ class Oksar:
             np.linspace(0, 1, shape[1])
         )
         square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)
-        grid = origin + np.einsum('ij,...j->...i', R, square)
+        grid = origin + np.einsum('ji,...j->...i', R, square)
 
         return grid
 
-- 
2.43.0


From 2193735f91f9e4e8ddd371560cc27d25c2a28574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 16/45] fix: oksar displacement mixed up points and vector
 components

The displacements are returned with the components along the first axis, and a
fault without strike slip has a displacement for every point too.
---
 geoana/earthquake/oksar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 8c256b4..20ccc86 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1346,9 +1346,9 @@ class Oksar:
 
         u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)
 
-        UX = ct*u[...,0] + st*u[...,1]
-        UY = -st*u[...,0] + ct*u[...,1]
-        UZ = u[..., 2]
+        UX = ct*u[0] + st*u[1]
+        UY = -st*u[0] + ct*u[1]
+        UZ = u[2]
 
         return np.stack([UX, UY, UZ], axis=-1)
 
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros((3, *X.shape))
 
                 # dip-slip contribution
                 if(disl2 != F0):
-- 
2.43.0


From a22148533a4a5ef1679202379d815c190c26adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 17/45] fix: line of sight projection in oksar's
 plot_displacement

get_LOS_vector expects a list of locations, and returns one vector for each.
---
 geoana/earthquake/oksar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 20ccc86..e7d0cbd 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1581,8 +1581,8 @@ class Oksar:
         if eq is None:
             LOS = np.array([0, 0, 1])
         else:
-            LOS = eq.get_LOS_vector(grid)
-        data = DIR.dot(LOS)
+            LOS = eq.get_LOS_vector(list(grid)).T
+        data = np.sum(DIR * LOS, axis=-1)
         data = np.flipud(data.reshape(self.shape, order='F').T)
         # data[data == 0] = np.nan
         # data *= self.scaling
-- 
2.43.0


From 60fe44cbddadd2e4f3d840e6322f5101d40b95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 18/45] fix: plot2Ddata removed vmin and vmax from the
 contourOpts passed in

---
 geoana/plotting_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..9d582b2 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -112,6 +112,8 @@ def plot2Ddata(
     """
 
     # Error checking and set vmin, vmax
+    # do not modify the dictionary passed in
+    contourOpts = dict(contourOpts)
     vlimits = [None, None]
 
     if clim is not None:
-- 
2.43.0


From 6cc32d5c53a59a0aa00c560ceb42a222ff98d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 19/45] fix: plot2Ddata could not draw contour levels of vector
 data

levels and zorder were given twice.
---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 9d582b2..8c8b83e 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -232,7 +232,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
-- 
2.43.0


From e01de5ad4ee9d6cfc4132e670276bbd279030a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 20/45] fix: plot2Ddata could not save a figure when given an
 axis

---
 geoana/plotting_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 8c8b83e..9744fa2 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -271,8 +271,8 @@ def plot2Ddata(
         ax.plot(xyz[:, 0], xyz[:, 1], "k.", ms=2)
     ax.set_aspect("equal", adjustable="box")
     if figname:
-        plt.axis("off")
-        fig.savefig(figname, dpi=200)
+        ax.axis("off")
+        ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
     else:
-- 
2.43.0


From 66035d524fa0666b17479dda6e9671981c5bde74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:23 +0000
Subject: [PATCH 21/45] fix: rotation between opposing normals was arbitrary

For vectors which are opposite up to round off, the quaternion was made of round
off only, and the rotation did not take v0 to v1.
---
 geoana/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 1424855..0389479 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -604,6 +604,9 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
 
     # define the rotation axis, which is the cross product of the two vectors
     rotation_axis = np.cross(v0, v1)
+    if v0dotv1 < 0:
+        # round off can leave the axis of opposing vectors oblique to them
+        rotation_axis -= rotation_axis.dot(v0) * v0
 
     if np.linalg.norm(rotation_axis) < tol:
         # check if vectors were anti-parallel.
@@ -624,7 +627,8 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
                 return Rotation.from_matrix(mat)
 
 
-    w = 1 + v0dotv1
+    # 1 + v0dotv1, without the cancellation for opposing vectors
+    w = 0.5 * np.sum((v0 + v1) ** 2)
     rot = Rotation.from_quat(np.r_[rotation_axis, w])
 
     if as_matrix:
-- 
2.43.0


From 4b59b1b0babcfd03162137c1da64acbf4ab5654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:55 +0000
Subject: [PATCH 22/45] fix: oksar displacement could only be computed for
 three grid points

The accumulated displacement has a value for every point.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index e7d0cbd..a568771 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1359,7 +1359,7 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
+        u = np.zeros((3, *X.shape))
         dub = np.array([F0, F0, F0])
 
         #  %%dccon0 subroutine
-- 
2.43.0


From c7288250d44555d6d416c4de1436e10900f097fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:56 +0000
Subject: [PATCH 23/45] fix: oksar plot_displacement drew the displacement
 upside down

The simulation grid starts at its origin O and goes up along V, as the axes of
the plot do, unlike interferogram data whose first row is the northernmost one.
---
 geoana/earthquake/oksar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index a568771..9e81588 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1583,7 +1583,8 @@ class Oksar:
         else:
             LOS = eq.get_LOS_vector(list(grid)).T
         data = np.sum(DIR * LOS, axis=-1)
-        data = np.flipud(data.reshape(self.shape, order='F').T)
+        # the simulation grid starts at O, the first row is the lowest one
+        data = data.reshape(self.shape, order='F').T
         # data[data == 0] = np.nan
         # data *= self.scaling
 
-- 
2.43.0


From 978a28e90d80b602aec056f3c6df72ac15e6c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:41 +0000
Subject: [PATCH 24/45] fix: compiled rTE kernels rejected read-only arrays

---
 geoana/kernels/_extensions/rTE.pyx | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 5024aca..27e0ebd 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -66,13 +66,14 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         Reflection coefficients, shape = (n_frequency, n_filter)
     """
     # Sigma and mu must be fortran contiguous
-    sigma = np.require(sigma, dtype=np.complex128, requirements="F")
-    mu = np.require(mu, dtype=np.complex128, requirements="F")
+    # (and the typed memoryviews below need writeable buffers, so read-only inputs are copied)
+    sigma = np.require(sigma, dtype=np.complex128, requirements=["F", "W"])
+    mu = np.require(mu, dtype=np.complex128, requirements=["F", "W"])
 
     # These just must be contiguous
-    lamb = np.require(lamb, dtype=np.float64, requirements="C")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="C")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="C")
+    lamb = np.require(lamb, dtype=np.float64, requirements=["C", "W"])
+    frequencies = np.require(frequencies, dtype=np.float64, requirements=["C", "W"])
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements=["C", "W"])
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
@@ -153,11 +154,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         shape = (n_layer, n_frequency, n_filter)
     """
     # Require that they are all the same ordering as sigma
-    sigma = np.require(sigma, dtype=np.complex128, requirements="F")
-    mu = np.require(mu, dtype=np.complex128, requirements="F")
-    lamb = np.require(lamb, dtype=np.float64, requirements="C")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="C")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="C")
+    sigma = np.require(sigma, dtype=np.complex128, requirements=["F", "W"])
+    mu = np.require(mu, dtype=np.complex128, requirements=["F", "W"])
+    lamb = np.require(lamb, dtype=np.float64, requirements=["C", "W"])
+    frequencies = np.require(frequencies, dtype=np.float64, requirements=["C", "W"])
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements=["C", "W"])
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
-- 
2.43.0


From 71d618a6c8af65713048ed2a23b8ab22a396aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:58 +0000
Subject: [PATCH 25/45] fix: compiled rTE kernels raised for empty frequencies
 or wavenumbers

---
 geoana/kernels/_extensions/rTE.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 27e0ebd..5da35b4 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -104,6 +104,9 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
     n_filter = lam.shape[0]
     n_layers = sig.shape[0]
 
+    if n_frequency == 0 or n_filter == 0:
+        return np.empty((n_frequency, n_filter), dtype=np.complex128)
+
     cdef COMPLEX_t[:, :] out = np.empty((n_frequency, n_filter), dtype=np.complex128, order="F")
 
     cdef:
@@ -189,6 +192,13 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
     n_filter = lam.shape[0]
     n_layers = sig.shape[0]
 
+    if n_frequency == 0 or n_filter == 0:
+        return (
+            np.empty((n_layers, n_frequency, n_filter), dtype=np.complex128),
+            np.empty((n_layers-1, n_frequency, n_filter), dtype=np.complex128),
+            np.empty((n_layers, n_frequency, n_filter), dtype=np.complex128),
+        )
+
     cdef COMPLEX_t[:, :, :] gsig = np.empty((n_layers, n_frequency, n_filter), dtype=np.complex128, order="F")
     cdef COMPLEX_t[:, :, :] gh = np.empty((n_layers-1, n_frequency, n_filter), dtype=np.complex128, order="F")
     cdef COMPLEX_t[:, :, :] gmu = np.empty((n_layers, n_frequency, n_filter), dtype=np.complex128, order="F")
-- 
2.43.0


From c70c5035b9b17d86a9efea9894a4beaa03bc33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 26/45] fix: half-space magnetic dipole field was NaN at many
 skin depths

---
 geoana/em/fdem/halfspace.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index 164cded..ed2f711 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.constants import mu_0
-from scipy.special import iv, kv
+from scipy.special import iv, ive, kv, kve
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
 
@@ -8,6 +8,13 @@ __all__ = [
     "MagneticDipoleHalfSpace",
 ]
 
+def _iv_kv(n, z):
+    """Product of the modified Bessel functions, which on their own over/underflow for large z."""
+    scaled = ive(n, z)*kve(n, z)*np.exp(np.abs(z.real) - z)
+    with np.errstate(invalid="ignore"):
+        return np.where(np.abs(z.real) > 300.0, scaled, iv(n, z)*kv(n, z))
+
+
 class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
     r"""Class for a harmonic magnetic dipole in a wholespace.
     """
@@ -111,8 +118,8 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         src_x, src_y, src_z = self.orientation
 
         alpha = 1j*k*r/2.  # (n_freq, ...) * (...)
-        IK1 = iv(1, alpha)*kv(1, alpha)
-        IK2 = iv(2, alpha)*kv(2, alpha)
+        IK1 = _iv_kv(1, alpha)
+        IK2 = _iv_kv(2, alpha)
 
         if src_z != 0.0:
             # Z component of source
-- 
2.43.0


From 2c29e62ae019966b513fc74d9c5840fe5b9a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 27/45] fix: numpy booleans were ignored as quasistatic choice

---
 geoana/em/fdem/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 9f197ca..8708c64 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -77,7 +77,7 @@ def wavenumber(
 
     """
     w = omega(frequency)
-    if quasistatic is True:
+    if quasistatic:
         return np.sqrt(-1j * w * mu * sigma)
     return np.sqrt(w**2 * mu * epsilon - 1j * w * mu * sigma)
 
@@ -158,7 +158,7 @@ def sigma_hat(frequency, sigma, epsilon=epsilon_0, quasistatic=False):
         Conductivity with electric displacement for all frequencies provided
 
     """
-    if quasistatic is True:
+    if quasistatic:
         return sigma
     return sigma + 1j*omega(frequency)*epsilon
 
-- 
2.43.0


From 6d1e2198ce1f29199eadf71ffbee13a6dabb3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:52 +0000
Subject: [PATCH 28/45] fix: complex locations, fields, frequencies and
 thicknesses were cast to real instead of rejected

---
 geoana/em/fdem/layered.py      | 4 ++--
 geoana/em/static/halfspace.py  | 6 +++---
 geoana/em/static/sphere.py     | 8 ++++----
 geoana/em/static/wholespace.py | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/geoana/em/fdem/layered.py b/geoana/em/fdem/layered.py
index 8d2f991..9b64d02 100644
--- a/geoana/em/fdem/layered.py
+++ b/geoana/em/fdem/layered.py
@@ -78,7 +78,7 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
 
         # Ensure float or numpy array of float
         try:
-            value = np.atleast_1d(value).astype(float)
+            value = np.atleast_1d(np.array(value, dtype=float))
         except:
             raise TypeError(f"frequencies are not a valid type")
 
@@ -109,7 +109,7 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
             if value is None:
                 value = np.array([])
             else:
-                value = np.atleast_1d(value).astype(float)
+                value = np.atleast_1d(np.array(value, dtype=float))
         except:
             raise TypeError(f"thickness are not a valid type")
 
diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index e599563..86ab1d7 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -103,7 +103,7 @@ class PointCurrentHalfSpace:
     def location(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
@@ -420,7 +420,7 @@ class DipoleHalfSpace:
     def location_a(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
@@ -452,7 +452,7 @@ class DipoleHalfSpace:
     def location_b(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 7edbe24..26bff06 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -109,7 +109,7 @@ class ElectrostaticSphere:
     @primary_field.setter
     def primary_field(self, vec):
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
@@ -135,7 +135,7 @@ class ElectrostaticSphere:
     def location(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
@@ -620,7 +620,7 @@ class MagnetostaticSphere:
     def primary_field(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
@@ -646,7 +646,7 @@ class MagnetostaticSphere:
     def location(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 0650274..ae5075a 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1124,7 +1124,7 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def location(self, vec):
 
         try:
-            vec = np.atleast_1d(vec).astype(float)
+            vec = np.atleast_1d(np.array(vec, dtype=float))
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-- 
2.43.0


From c28678a6bbe2a57c72a1e188765c1481fc412aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 29/45] fix: point current accepted several locations at
 construction

---
 geoana/em/static/wholespace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index ae5075a..a920070 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1107,7 +1107,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(nodes=np.zeros(3), current=current)
+        self.rho = rho
+        self.location = location
 
     @property
     def location(self):
-- 
2.43.0


From c6d1ed5c58a6b7e0e14133f8dd4dbed75e1866ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 30/45] fix: interferogram and fault kept references to
 assigned arrays

---
 geoana/earthquake/oksar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 9e81588..30660f6 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
-- 
2.43.0


From 55d24dda1937f149498b451a5e4c9b9060a28855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:31 +0000
Subject: [PATCH 31/45] fix: coordinate transforms mishandled flattened vector
 arrays

---
 geoana/spatial.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 0389479..38ceb6e 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -52,6 +52,14 @@ __all__ = [
 ]
 
 
+def _vectors_at(grid, vec):
+    """Vectors as an array; a flattened (column major) array gets the shape of the grid."""
+    vec = np.asarray(vec)
+    if vec.ndim == 1 and grid.ndim > 1 and vec.size == grid.size:
+        vec = vec.reshape(grid.shape, order='F')
+    return vec
+
+
 def cylindrical_to_cartesian(grid, vec=None):
     """
     Transform gridded locations or a set of vectors from cylindrical coordinates
@@ -122,7 +130,7 @@ def cylindrical_to_cartesian(grid, vec=None):
         if grid.shape[-1] == 3:
             out.append(grid[..., 2])
     else:
-        vec = np.asarray(vec)
+        vec = _vectors_at(grid, vec)
 
         out = [
             vec[..., 0] * np.cos(grid[..., 1]) - vec[..., 1] * np.sin(grid[..., 1]),
@@ -208,7 +216,7 @@ def cartesian_to_cylindrical(grid, vec=None):
                 grid[..., 2]
             )
     else:
-        vec = np.asarray(vec)
+        vec = _vectors_at(grid, vec)
 
         theta = np.arctan2(grid[..., 1], grid[..., 0])
         out = [
@@ -290,7 +298,7 @@ def spherical_to_cartesian(grid, vec=None):
         y = rho * np.sin(grid[..., 1])
         return np.stack([x, y, z], axis=-1)
 
-    vec = np.asarray(vec)
+    vec = _vectors_at(grid, vec)
 
     phi = grid[..., 1]
     theta = grid[..., 2]
@@ -389,7 +397,7 @@ def cartesian_to_spherical(grid, vec=None):
         r = np.linalg.norm(grid, axis=-1)
         return np.stack([r, phi, theta], axis=-1)
 
-    vec = np.asarray(vec)
+    vec = _vectors_at(grid, vec)
 
     r = (
         vec[..., 0] * np.sin(theta) * np.cos(phi) +
-- 
2.43.0


From b6dc86504e5faebd54334a87f1c615a315aa15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:31 +0000
Subject: [PATCH 32/45] fix: mkvc returned None for more than three dimensions

---
 geoana/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geoana/utils.py b/geoana/utils.py
index 3fff434..a49a0ec 100644
--- a/geoana/utils.py
+++ b/geoana/utils.py
@@ -88,6 +88,7 @@ def mkvc(x, n_dims=1):
         return x.flatten(order='F')[:, np.newaxis]
     elif n_dims == 3:
         return x.flatten(order='F')[:, np.newaxis, np.newaxis]
+    return append_ndim(x.flatten(order='F'), n_dims - 1)
 
 
 def ndgrid(*args, **kwargs):
-- 
2.43.0


From e0b1f6edd5bcbfbe90251fdee7afe2ec7dd5ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:31 +0000
Subject: [PATCH 33/45] fix: ndgrid returned None for other than one to three
 vectors

---
 geoana/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geoana/utils.py b/geoana/utils.py
index a49a0ec..35a145a 100644
--- a/geoana/utils.py
+++ b/geoana/utils.py
@@ -160,6 +160,7 @@ def ndgrid(*args, **kwargs):
             return np.c_[X1, X2, X3]
         else:
             return XYZ[2], XYZ[1], XYZ[0]
+    raise ValueError(f"ndgrid takes 1, 2 or 3 vectors, got {len(xin)}")
 
 
 def check_xyz_dim(xyz, dim=3, dtype=float):
-- 
2.43.0


From bc88c8bea01d3569ee4edfda861a8a3fea0d3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:31 +0000
Subject: [PATCH 34/45] fix: repeat_scalar accepted arrays that are not a set
 of scalars

---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 38ceb6e..b622f80 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -557,7 +557,7 @@ def repeat_scalar(scalar, dim=3):
     (n, dim) numpy.ndarray
         The repeated and stacked set of scalar values
     """
-    assert len(scalar) in scalar.shape, (
+    assert scalar.ndim == 1, (
         "input must be a scalar. The shape you provided is {}".format(
             scalar.shape
         )
-- 
2.43.0


From a2a605a5e75cce54373ca231e557efd7b2fb6c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:33 +0000
Subject: [PATCH 35/45] fix: oksar displacement raised for points on the line
 extending a fault edge

---
 geoana/earthquake/oksar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 30660f6..82b771c 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1435,16 +1435,15 @@ class Oksar:
                 c2_x11[(dc_xi < F0) & (dc_q == F0) & (dc_et == F0)] = F0
 
                 ret = c2_r + dc_et
-                if np.any(ret < 1e-14):
-                    raise Exception('dccon2 b %f %f %f %f %f' % (
+                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
+                if np.any(ret[~ind] < 1e-14):
+                    raise Exception('dccon2 b %s %s %s %s %s' % (
                         ret, c2_r, dc_et, dc_q, dc_xi
                     ))
 
                 c2_ale = np.log(ret)
                 c2_y11 = F1/(c2_r*ret)
 
-                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
-
                 # if((c2_r-dc_et) < 1e-14):
                 #     raise Exception('dccon2 a %f %f %f %f %f' % (
                 #         c2_3-dc_et, c2_r, dc_et, dc_q, dc_xi)
-- 
2.43.0


From 8d80b39d5f609629dd7a4e11b3a37d705b0ba386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 36/45] fix: oksar plot_mask drew nothing over the pixels
 without data

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 82b771c..41c830f 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -769,7 +769,7 @@ class EarthquakeInterferogram:
         out = ax.pcolormesh(
             vectorNx,
             vectorNy,
-            np.ma.masked_where(~np.isnan(data), data),
+            np.ma.masked_where(~np.isnan(data), np.zeros_like(data)),
             cmap=cmap
         )
 
-- 
2.43.0


From 34315c4b15d8b0f2cc4cc1ebf24238394aecd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:54 +0000
Subject: [PATCH 37/45] fix: large integer coordinates overflow in
 cartesian_to_cylindrical

---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index b622f80..d3686ce 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -208,7 +208,7 @@ def cartesian_to_cylindrical(grid, vec=None):
 
     if vec is None:
         out = [
-            np.sqrt(grid[..., 0]**2 + grid[..., 1]**2),
+            np.hypot(grid[..., 0], grid[..., 1]),
             np.arctan2(grid[..., 1], grid[..., 0]),
         ]
         if grid.shape[-1] == 3:
-- 
2.43.0


From 0a8f55ff4f72b5d901d1ae093e41626f10c2061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 38/45] fix: contradicting colour limits below 1e-8 are
 accepted by plot2Ddata

---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 9744fa2..460f89f 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -124,7 +124,7 @@ def plot2Ddata(
             if vlimits[i] is None:
                 vlimits[i] = contourOpts.pop(key)
             else:
-                if not np.isclose(contourOpts[key], vlimits[i]):
+                if not np.isclose(contourOpts[key], vlimits[i], atol=0):
                     raise Exception(
                         "The values provided in the colorbar limit, clim {} "
                         "does not match the value of {} provided in the "
-- 
2.43.0


From b40331be71799f471be66a4981e6d55ce4a5d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:56 +0000
Subject: [PATCH 39/45] fix: Oksar displacement next to the fault trace
 depended on the width of the grid

Coordinates were set to zero relative to the widest extent of the grid, separately
for each corner of the fault, so a point near the trace was given a wrong displacement
or an exception in a wide grid.  Only the absolute threshold is kept, and the sums that
motivated the relative one are computed without cancellation.
---
 geoana/earthquake/oksar.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 41c830f..53a4af8 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1407,15 +1407,11 @@ class Oksar:
                 # %%dccon2 subroutine
                 # % calculates station geometry constants for finite source
 
-                dc_max = np.max(np.abs(np.c_[xi, et, q]))
+                xi[np.abs(xi) < EPS] = F0
 
-                # dc_max = max(np.abs(xi),max(np.abs(et),np.abs(q)))
+                et[np.abs(et) < EPS] = F0
 
-                xi[(np.abs(xi/dc_max) < EPS) | (np.abs(xi) < EPS)] = F0
-
-                et[(np.abs(et/dc_max) < EPS) | (np.abs(et) < EPS)] = F0
-
-                q[(np.abs(q/dc_max) < EPS) | (np.abs(q) < EPS)] = F0
+                q[np.abs(q) < EPS] = F0
 
                 dc_xi = xi
                 dc_et = et
@@ -1430,13 +1426,22 @@ class Oksar:
                 c2_tt = np.arctan(dc_xi * dc_et / (dc_q * c2_r))
                 c2_tt[dc_q == F0] = F0
 
-                rxi = c2_r + dc_xi
+                # the sums below without cancellation for negative xi and et
+                rxi = np.where(
+                    dc_xi < F0,
+                    (dc_et*dc_et + dc_q*dc_q) / (c2_r - dc_xi),
+                    c2_r + dc_xi
+                )
                 c2_x11 = F1/(c2_r*rxi)
                 c2_x11[(dc_xi < F0) & (dc_q == F0) & (dc_et == F0)] = F0
 
-                ret = c2_r + dc_et
+                ret = np.where(
+                    dc_et < F0,
+                    (dc_xi*dc_xi + dc_q*dc_q) / (c2_r - dc_et),
+                    c2_r + dc_et
+                )
                 ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
-                if np.any(ret[~ind] < 1e-14):
+                if np.any(ret[~ind] <= F0):
                     raise Exception('dccon2 b %s %s %s %s %s' % (
                         ret, c2_r, dc_et, dc_q, dc_xi
                     ))
-- 
2.43.0


From 5c14074e1a0c41f48996cd2dfc50400f97f803db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:31 +0000
Subject: [PATCH 40/45] fix: circular loop potential and flux next to the wire:
 keep the complementary modulus of the elliptic integral

---
 geoana/em/static/wholespace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index a920070..2227248 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import ellipk, ellipe
+from scipy.special import ellipe, ellipkm1
 
 from ..base import BaseDipole, BaseMagneticDipole, BaseEM, BaseLineCurrent
 from ... import spatial
@@ -594,7 +594,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
         k_sq = 1 - alpha_sq/beta_sq
 
         ek = ellipe(k_sq)
-        kk = ellipk(k_sq)
+        kk = ellipkm1(alpha_sq / beta_sq)
 
         A_cyl = np.zeros_like(r_vec)
 
@@ -726,7 +726,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
         k_sq = 1 - alpha_sq / beta_sq
 
         ek = ellipe(k_sq)
-        kk = ellipk(k_sq)
+        kk = ellipkm1(alpha_sq / beta_sq)
 
         B_cyl = np.zeros_like(r_cyl)
 
-- 
2.43.0


From c80ca3caf4db412f1a6f9587785ab9960068b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 41/45] fix: circular loop potential and flux far from the wire
 lost all digits to cancellation

---
 geoana/em/static/wholespace.py | 74 +++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 2227248..a60e2e9 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import ellipe, ellipkm1
+from scipy.special import ellipe, ellipkm1, hyp2f1
 
 from ..base import BaseDipole, BaseMagneticDipole, BaseEM, BaseLineCurrent
 from ... import spatial
@@ -598,28 +598,25 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
 
         A_cyl = np.zeros_like(r_vec)
 
-        # when rho is small relative to the radius and z
-        small_rho = rho**2/(a**2 + z**2) < 1E-6
-
-        temp = np.sqrt(a**2 + z[small_rho]**2)
-        A_cyl[small_rho, 1] = np.pi * C * (
-                # A(rho=0) = 0
-                rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
-                # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 * (a**2 - 4 * z[small_rho]**2) / (
-                    32 * np.sqrt(a**2 + z[small_rho]**2)**7
-                )
-        )
-        z = z[~small_rho]
-        beta = beta[~small_rho]
-        beta_sq = beta_sq[~small_rho]
-        rho = rho[~small_rho]
-        ek = ek[~small_rho]
-        kk = kk[~small_rho]
+        # away from the wire, the elliptic integrals cancel each other, their
+        # difference is a hypergeometric function.
+        far = k_sq < 0.5
+
+        m = 4 * a * rho[far] / beta_sq[far]
+        A_cyl[far, 1] = np.pi * C * a**2 * rho[far] / (
+            4 * beta[far]**3
+        ) * hyp2f1(1.5, 1.5, 3, m)
+
+        z = z[~far]
+        beta = beta[~far]
+        beta_sq = beta_sq[~far]
+        rho = rho[~far]
+        ek = ek[~far]
+        kk = kk[~far]
 
         # singular if alpha = 0
         # (a.k.a. the point was numerically on the loop)
-        A_cyl[~small_rho, 1] = C / (2 * rho * beta) * (
+        A_cyl[~far, 1] = C / (2 * rho * beta) * (
             (a**2 + rho**2 + z**2) * kk - beta_sq * ek
         )
 
@@ -730,31 +727,32 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
 
         B_cyl = np.zeros_like(r_cyl)
 
-        # when rho is small relative to the radius and z
-        small_rho = rho**2/(a**2 + z**2) < 1E-6
+        # away from the wire, the elliptic integrals cancel each other, their
+        # difference is a hypergeometric function.
+        far = k_sq < 0.5
 
-        temp = np.sqrt(a**2 + z[small_rho]**2)
-        B_cyl[small_rho, 0] = 3 * C * np.pi * a**2 * z[small_rho] * (
-            rho[small_rho] /(4 * temp ** 5)
-            + rho[small_rho]**3 * (15 * a**2 - 20 * z[small_rho]**2)/(32 * temp**9)
+        m = 4 * a * rho[far] / beta_sq[far]
+        diff = 3 * np.pi / 8 * m * hyp2f1(0.5, 1.5, 3, m)
+        B_cyl[far, 0] = C * a * z[far] * diff / (2 * alpha_sq[far] * beta[far])
+        B_cyl[far, 2] = C / (2 * alpha_sq[far] * beta[far]) * (
+            2 * a**2 * ek[far] - a * rho[far] * diff
         )
 
+        z = z[~far]
+        alpha_sq = alpha_sq[~far]
+        beta = beta[~far]
+        rho = rho[~far]
+        ek = ek[~far]
+        kk = kk[~far]
+
         # this expectedly blows up when rho = radius and z = 0
         # Meaning it is literally on the loop...
-        B_cyl[:, 2] = C / (2 * alpha_sq * beta) * (
-            (a**2 - rho**2 - z**2) * ek + alpha_sq * kk
-        )
-
-        z = z[~small_rho]
-        alpha_sq = alpha_sq[~small_rho]
-        beta = beta[~small_rho]
-        rho = rho[~small_rho]
-        ek = ek[~small_rho]
-        kk = kk[~small_rho]
-
-        B_cyl[~small_rho, 0] = C * z / (2 * alpha_sq * beta * rho) * (
+        B_cyl[~far, 0] = C * z / (2 * alpha_sq * beta * rho) * (
                 (a**2 + rho**2 + z**2) * ek - alpha_sq * kk
         )
+        B_cyl[~far, 2] = C / (2 * alpha_sq * beta) * (
+            (a**2 - rho**2 - z**2) * ek + alpha_sq * kk
+        )
 
         B = cylindrical_to_cartesian(r_cyl, B_cyl)
 
-- 
2.43.0


From 418ad40347c6e22d6ddf8bf1f42580a6ca2ed542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:19 +0000
Subject: [PATCH 42/45] fix: half-space transients at late times lost all
 digits to cancellation

---
 geoana/em/tdem/simple_functions.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/geoana/em/tdem/simple_functions.py b/geoana/em/tdem/simple_functions.py
index 4e6a682..f28f896 100644
--- a/geoana/em/tdem/simple_functions.py
+++ b/geoana/em/tdem/simple_functions.py
@@ -1,7 +1,7 @@
 from tabnanny import check
 
 import numpy as np
-from scipy.special import erf, ive
+from scipy.special import gammainc, ive
 from scipy.constants import mu_0
 from geoana.em.tdem.base import theta
 from geoana.utils import append_ndim, check_xyz_dim
@@ -77,9 +77,9 @@ def vertical_magnetic_field_horizontal_loop(
 
     """
     ta = theta(t, sigma, mu) * radius
-    t1 = (3 / (np.sqrt(np.pi) * ta)) * np.exp(-(ta ** 2))
-    t2 = (1 - (3 / (2 * ta ** 2))) * erf(ta)
-    hz = (t1 + t2) / (2 * radius)
+    # gammainc(3/2, ta**2) = erf(ta) - 2 * ta / sqrt(pi) * exp(-ta**2), and so on:
+    # the differences of erf and exp cancel at late times
+    hz = (gammainc(1.5, ta**2) - 3 / (2 * ta**2) * gammainc(2.5, ta**2)) / (2 * radius)
     return turns * current * hz
 
 
@@ -240,7 +240,7 @@ def vertical_magnetic_flux_time_deriv_horizontal_loop(
     """
     a = radius
     ta = theta(t, sigma, mu) * a
-    term = 3 * erf(ta) - 2 * ta / np.sqrt(np.pi) * (3 + 2 * ta**2) * np.exp(-ta**2)
+    term = 3 * gammainc(2.5, ta**2)
     return -turns * current / (sigma * a**3) * term
 
 
@@ -325,8 +325,7 @@ def magnetic_field_vertical_magnetic_dipole(
     thr = theta(t, sigma, mu=mu) * r #will be positive...
 
     h_z = 1.0 / r**3 * (
-        (9 / (2 * thr**2) - 1) * erf(thr)
-        - (9 / thr + 4 * thr) / np.sqrt(np.pi) * np.exp(-thr**2)
+        9 / (2 * thr**2) * gammainc(2.5, thr**2) - gammainc(1.5, thr**2)
     )
     # positive here because z+ up
 
@@ -422,14 +421,15 @@ def magnetic_field_time_deriv_magnetic_dipole(
     tr = theta(t, sigma, mu) * r
 
     dhz_dt = 1 / (r**3 * t) * (
-        9 / (2 * tr**2) * erf(tr)
-        - (4 * tr**3 + 6 * tr + 9/tr)/np.sqrt(np.pi)*np.exp(-tr**2)
+        9 / (2 * tr**2) * gammainc(2.5, tr**2)
+        - 4 * tr**3 / np.sqrt(np.pi) * np.exp(-tr**2)
     )
 
     # iv(k, v) = ive(k, v) * exp(abs(arg))
     dhr_dt = -2 * tr**2 / (r**3 * t) * (
-        (1 + tr**2) * ive(0, tr**2 / 2) -
-        (2 + tr**2 + 4 / tr**2) * ive(1, tr**2 / 2)
+        tr**2 * ive(0, tr**2 / 2) -
+        (2 + tr**2) * ive(1, tr**2 / 2) +
+        ive(2, tr**2 / 2)
     )
     angle = np.arctan2(y, x)
     dhx_dt = np.cos(angle) * dhr_dt
-- 
2.43.0


From 732851f864bb96b431441ce4b43605cbd947ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:19 +0000
Subject: [PATCH 43/45] fix: transient electric dipole fields at late times
 lost all digits to cancellation

---
 geoana/em/tdem/wholespace.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index c2b6797..e22e97e 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -1,4 +1,4 @@
-from scipy.special import erf
+from scipy.special import erf, gammainc
 import numpy as np
 
 from geoana.em.tdem.base import BaseTDEM
@@ -189,12 +189,15 @@ class ElectricDipoleWholeSpace(BaseTDEM, BaseElectricDipole):
 
         front = self.current * self.length / (4 * np.pi * self.sigma * r**3)
 
-        common_part = theta_r / root_pi * np.exp(-theta_r**2)
-
-        sym_term = 3 * erf(theta_r) - (4 * theta_r**2 + 6) * common_part
+        # the differences of erf and exp cancel at late times, unlike the
+        # incomplete gamma functions they are equal to
+        sym_term = 3 * gammainc(2.5, theta_r**2)
         sym_direction = r_hat.dot(self.orientation)[..., None] * r_hat
 
-        orient_term = erf(theta_r) - (4 * theta_r**2 + 2) * common_part
+        orient_term = (
+            gammainc(1.5, theta_r**2)
+            - 4 * theta_r**3 / root_pi * np.exp(-theta_r**2)
+        )
         orient_dir = self.orientation
 
         return front * (sym_term * sym_direction - orient_term * orient_dir)
@@ -354,7 +357,7 @@ class ElectricDipoleWholeSpace(BaseTDEM, BaseElectricDipole):
         theta_r = theta * r
 
         term1 = (self.current * self.length) / (4 * np.pi * r**2)
-        term2 = erf(theta_r) - 2 / np.sqrt(np.pi) * theta_r * np.exp(-theta_r**2)
+        term2 = gammainc(1.5, theta_r**2)
 
         direction = np.cross(self.orientation, r_hat)
 
-- 
2.43.0


From 581b8f90c95b4b8f7c7d98fc92cc50890ac76566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:38 +0000
Subject: [PATCH 44/45] fix: half-space secondary fields at low induction
 numbers lost all digits to cancellation

---
 geoana/em/fdem/base.py             | 30 ++++++++++++++++++++++++++++++
 geoana/em/fdem/halfspace.py        | 24 ++++++++++++++----------
 geoana/em/fdem/simple_functions.py | 10 ++++++++--
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8708c64..ee2376d 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -163,6 +163,36 @@ def sigma_hat(frequency, sigma, epsilon=epsilon_0, quasistatic=False):
     return sigma + 1j*omega(frequency)*epsilon
 
 
+def _half_space_series(x):
+    r"""Response of a half-space close to the source, relative to the free-space field.
+
+    The closed forms are differences of almost equal numbers there; what is left of them is
+    the remainder of the exponential after four terms.
+
+    Parameters
+    ----------
+    x : complex numpy.ndarray
+        :math:`ikr`, smaller than about one.
+
+    Returns
+    -------
+    h_dip : numpy.ndarray
+        Secondary vertical field of a vertical magnetic dipole, in units of
+        :math:`m/(4 \pi r^3)`
+    h_loop : numpy.ndarray
+        Secondary vertical field at the center of a horizontal loop, in units of
+        :math:`I/(2 r)`
+    """
+    # remainder of exp(-x), over x**2
+    remainder = term = x**2 / 24
+    for n in range(5, 22):
+        term = -term * x / n
+        remainder = remainder + term
+    h_dip = -x**2 - x**3/3 - x**4/3 + 2*(9 + 9*x + 4*x**2 + x**3)*remainder
+    h_loop = x**3/3 - 2*(3 + 3*x + x**2)*remainder
+    return h_dip, h_loop
+
+
 ###############################################################################
 #                                                                             #
 #                                  Classes                                    #
diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index ed2f711..a1bd791 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -2,7 +2,7 @@ import numpy as np
 from scipy.constants import mu_0
 from scipy.special import iv, ive, kv, kve
 from geoana.em.base import BaseMagneticDipole
-from geoana.em.fdem.base import BaseFDEM
+from geoana.em.fdem.base import BaseFDEM, _half_space_series
 
 __all__ = [
     "MagneticDipoleHalfSpace",
@@ -121,9 +121,19 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         IK1 = _iv_kv(1, alpha)
         IK2 = _iv_kv(2, alpha)
 
+        # the closed forms cancel close to the source
+        near = np.abs(k*r) < (1.0 if field == "secondary" else 1E-3)
+        h_dip, h_loop = _half_space_series(np.where(near, 1j*k*r, 0.0))
+
+        def select(closed, primary, secondary):
+            if field == "secondary":
+                return np.where(near, secondary, closed - primary)
+            return np.where(near, primary + secondary, closed)
+
         if src_z != 0.0:
             # Z component of source
-            em_z += src_z*2.0/(k**2*r**5)*(9-(9+9*1j*k*r-4*k**2*r**2-1j*k**3*r**3)*np.exp(-1j*k*r))
+            Hz = 2.0/(k**2*r**5)*(9-(9+9*1j*k*r-4*k**2*r**2-1j*k**3*r**3)*np.exp(-1j*k*r))
+            em_z += src_z*select(Hz, -1/r**3, h_dip/r**3)
             Hr = (k**2/r)*(IK1 - IK2)
             angle = np.arctan2(y, x)
             em_x += src_z*np.cos(angle)*Hr
@@ -133,6 +143,8 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
             # X component of source
             phi = 2/(k**2*r**4)*(3 + k**2*r**2 - (3 + 3j*k*r - k**2*r**2)*np.exp(-1j*k*r))
             dphi_dr = 2/(k**2*r**5)*(-2*k**2*r**2 - 12 + (-1j*k**3*r**3 - 5*k**2*r**2 + 12j*k*r + 12)*np.exp(-1j*k*r))
+            phi = select(phi, 1/r**2, -h_loop/r**2)
+            dphi_dr = select(dphi_dr, -2/r**3, (h_loop - h_dip)/r**3)
             if src_x != 0.0:
                 em_x += src_x*(-1.0/r**3)*(y**2*phi + x**2*r*dphi_dr)
                 em_y += src_x*(1.0/r**3)*x*y*(phi - r*dphi_dr)
@@ -144,12 +156,4 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
                 em_y += src_y*(-1.0/r**3)*(x**2*phi + y**2*r*dphi_dr)
                 em_z -= src_y*(k**2*y/r**2)*(IK1 - IK2)
 
-        if field == "secondary":
-            # subtract out primary field from above
-            mdotr = src_x*x + src_y*y # + m[2]*(z=0)
-
-            em_x -= 3*x*mdotr/r**5 - src_x/r**3
-            em_y -= 3*y*mdotr/r**5 - src_y/r**3
-            em_z -= -src_z/r**3 # + 3*(z=0)*mdotr/r**5
-
         return self.moment/(4*np.pi)*np.stack((em_x, em_y, em_z), axis=-1).squeeze()
diff --git a/geoana/em/fdem/simple_functions.py b/geoana/em/fdem/simple_functions.py
index c43cc6b..56ccb1d 100644
--- a/geoana/em/fdem/simple_functions.py
+++ b/geoana/em/fdem/simple_functions.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.constants import mu_0
+from geoana.em.fdem.base import _half_space_series
 
 __all__ = [
     "vertical_magnetic_field_horizontal_loop",
@@ -88,9 +89,14 @@ def vertical_magnetic_field_horizontal_loop(
         * (3 - (3 + 3j * k * a - k ** 2 * a ** 2) * np.exp(-1j * k * a))
     )
 
+    Hzp = current / 2.0 / a
+    # the closed form cancels for small loops
+    near = np.abs(k * a) < (1.0 if secondary else 1E-3)
+    Hzs = Hzp * _half_space_series(np.where(near, 1j * k * a, 0.0))[1]
     if secondary:
-        Hzp = current / 2.0 / a
-        Hz = Hz - Hzp
+        Hz = np.where(near, Hzs, Hz - Hzp)
+    else:
+        Hz = np.where(near, Hzp + Hzs, Hz)
     return turns * Hz
 
 
-- 
2.43.0


From dde34212d829dd92793a9bdc3c67f4557edcc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 45/45] fix: radial half-space transients at early times lost
 all digits to cancellation

---
 geoana/em/tdem/simple_functions.py | 37 ++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/geoana/em/tdem/simple_functions.py b/geoana/em/tdem/simple_functions.py
index f28f896..5267510 100644
--- a/geoana/em/tdem/simple_functions.py
+++ b/geoana/em/tdem/simple_functions.py
@@ -17,6 +17,32 @@ __all__ = [
   "magnetic_flux_time_deriv_magnetic_dipole",
 ]
 
+def _bessel_differences(v):
+    """Differences of exponentially scaled modified Bessel functions.
+
+    Returns ``ive(1, v) - ive(2, v)`` and
+    ``2 * v * (ive(0, v) - ive(1, v)) - 2 * ive(1, v) + ive(2, v)``,
+    for large arguments, where the functions cancel, by their asymptotic series.
+    """
+    i_0, i_1, i_2 = ive(0, v), ive(1, v), ive(2, v)
+    w = np.maximum(v, 30.0)
+    # t_n are the terms of the series of sqrt(2 * pi * w) * ive(n, w)
+    t_0, t_1, t_2 = 1 / (8 * w), -3 / (8 * w), -15 / (8 * w)
+    field = deriv = 0.0
+    for k in range(2, 20):
+        field = field + t_1 - t_2
+        deriv = deriv - 2 * t_1 + t_2
+        t_0 = t_0 * (2 * k - 1)**2 / (8 * k * w)
+        t_1 = t_1 * ((2 * k - 1)**2 - 4) / (8 * k * w)
+        t_2 = t_2 * ((2 * k - 1)**2 - 16) / (8 * k * w)
+        deriv = deriv + 2 * w * (t_0 - t_1)
+    scale = np.sqrt(2 * np.pi * w)
+    return (
+        np.where(v > 30.0, field / scale, i_1 - i_2),
+        np.where(v > 30.0, deriv / scale, 2 * v * (i_0 - i_1) - 2 * i_1 + i_2),
+    )
+
+
 def vertical_magnetic_field_horizontal_loop(
     t, sigma=1.0, mu=mu_0, radius=1.0, current=1.0, turns=1
 ):
@@ -329,9 +355,7 @@ def magnetic_field_vertical_magnetic_dipole(
     )
     # positive here because z+ up
 
-    h_r = 2 * thr**2 / r**3 * (
-        ive(1, thr**2 / 2) - ive(2, thr**2 / 2)
-    )
+    h_r = 2 * thr**2 / r**3 * _bessel_differences(thr**2 / 2)[0]
     angle = np.arctan2(y, x)
     h_x = np.cos(angle) * h_r
     h_y = np.sin(angle) * h_r
@@ -425,12 +449,7 @@ def magnetic_field_time_deriv_magnetic_dipole(
         - 4 * tr**3 / np.sqrt(np.pi) * np.exp(-tr**2)
     )
 
-    # iv(k, v) = ive(k, v) * exp(abs(arg))
-    dhr_dt = -2 * tr**2 / (r**3 * t) * (
-        tr**2 * ive(0, tr**2 / 2) -
-        (2 + tr**2) * ive(1, tr**2 / 2) +
-        ive(2, tr**2 / 2)
-    )
+    dhr_dt = -2 * tr**2 / (r**3 * t) * _bessel_differences(tr**2 / 2)[1]
     angle = np.arctan2(y, x)
     dhx_dt = np.cos(angle) * dhr_dt
     dhy_dt = np.sin(angle) * dhr_dt
-- 
2.43.0

