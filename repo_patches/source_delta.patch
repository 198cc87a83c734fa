From 39e7c7da661a5b91a46a546fe7ce0e3ab16be4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 01/31] fix: RigidMotion.itwist must be expressed in the
 reference frame

T_rn = -Ad_rn T_nr; it was computed with Ad_nr, so idadjoint (and with it
every djacobian and nleffects downstream of a joint whose adjoint does not
commute with its twist) was wrong.
---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From b1a6c0df8f73a19d90946fe9339fc593de9ee9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 02/31] fix: principalframe must return an orthogonal rotation
 for repeated moments

eig() gives no orthogonality for repeated eigenvalues of a (numerically
almost) symmetric matrix, so the returned matrix was not a homogeneous one.
Use eigh(), and keep the axes ordered as those of the original frame.
---
 arboris/massmatrix.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..9f38bcc 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -5,8 +5,8 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
-from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy        import diag, eye, dot, array, allclose, argmax, argsort
+from   numpy.linalg import eigh, eigvals, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -98,7 +98,13 @@ def principalframe(M):
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
+    # RSR is symmetric: eigh ensures R is orthogonal even if some principal
+    # moments are equal
+    [S, R] = eigh(RSR)
+    # order the principal axes after the axes of the original frame
+    order = argsort(argmax(abs(R), axis=0))
+    S = S[order]
+    R = R[:, order]
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-- 
2.43.0


From ad1444955b27ec434ec1432d1246d91ce6f9e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/31] fix: accept plane normals normalized up to round-off

Plane() normalizes its coefficients, but the norm of the result is not
always exactly 1., and the plane solver then raised an AssertionError.
---
 arboris/collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..f8168ef 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -277,7 +277,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3])-1) < 1e-9
     assert radius1 >= 0.
     normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-- 
2.43.0


From 9ebf50b2c54d3e23f06437775a1504f1b5d55aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/31] fix: contact point on the wrong side of a sphere
 penetrating a plane

The sphere point closest along the plane normal is at -radius1*normal
whatever the sign of the distance (as for the other solvers).
---
 arboris/collisions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index f8168ef..c427f90 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -286,7 +286,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     H_gc0 = Hg.zaligned(normal)
     H_gc0[0:3, 3] = p_01 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_01 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From 5005cd8e64b503f208d0c73ea501c35b60b6f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/31] fix: plane/sphere contact frames must be relative to
 the ground

They were returned in the plane frame coordinates.
---
 arboris/collisions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index c427f90..e703baa 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -279,14 +279,14 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     assert Hg.ishomogeneousmatrix(H_g0)
     assert abs(norm(coeffs0[0:3])-1) < 1e-9
     assert radius1 >= 0.
-    normal = coeffs0[0:3] # the plane normal
+    normal = Hg.vdot(H_g0, coeffs0[0:3]) # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
+    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3] # signed distance from the center
     sdist = csdist - radius1
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From 80dfef9efd7796180c86b9d3006ee1a13b547be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 06/31] fix: box/sphere normal must be expressed in the ground
 frame

When the sphere center is inside the box, the normal was expressed in the
box frame.
---
 arboris/collisions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index e703baa..ca658a7 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -375,6 +375,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
         f_g = Hg.pdot(H_g0, f_0)
+        normal = Hg.vdot(H_g0, normal)
         sdist = -norm(f_g - p_g1)-radius1
     else:
         # find the point x inside the box that is the nearest to
-- 
2.43.0


From 7c3c07d3c0874b0dd79c6b6db4e946752e13b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 07/31] fix: joints built from integer positions or velocities

The arrays kept an integer dtype, so integrate() raised an UFuncTypeError.
---
 arboris/core.py   | 4 ++--
 arboris/joints.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..c6940b1 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -279,11 +279,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..67fffab 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From 92fb2ee8d7e34723758c7c9d92361c4348857568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/31] fix: PD control of joints with different numbers of dof

array() cannot stack positions of different lengths.
---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From cf5a3d1d7093e86388837bf0d6efd60965a816cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/31] fix: detect duplicated names when name_all_elements is
 given an iterator

The first loop consumed the iterator and nothing was left to check.
---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index c6940b1..a206865 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -140,6 +140,7 @@ class DuplicateNameError(Exception):
 
 def name_all_elements(nlist, check_unicity=False):
     # give a unique name for all unnamed elements
+    nlist = list(nlist) # it may be an iterator
     for elem in nlist: 
         if elem.name is None:
             elem.name = str(id(elem))
-- 
2.43.0


From 08a5a6f092d1b16490a2de2b42e54517d1aa9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 10/31] fix: NamedObjectsList.as_dict raised TypeError on
 duplicated names

---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index a206865..98c0a03 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        "Duplicated name: {0}".format(obj.name))
         return result
 
 
-- 
2.43.0


From 4f306d728725339d5df31743399ff5f154928ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 11/31] fix: Hdf5Logger could only write (4,4) data

State and model data have other shapes.
---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..f14d50f 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -393,7 +393,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From f06454883eddda1ff3ddbb7c1668c271cf17d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 12/31] fix: subframes must own their pose

Two MovingSubFrames built from the same array were moving together.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 98c0a03..1317b35 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1115,7 +1115,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From 69b23e117fc07ed0d43a4815731aa0a515a31334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 13/31] fix: add_link must refuse to link a root below itself

The ground, or a root body, has no parent joint and could be attached to one
of its descendants; the world was then no more a tree. The joint is now left
untouched when the link is refused.
---
 arboris/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 1317b35..f71a4fb 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -528,8 +528,10 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
+        if (frame1.body.parentjoint is None and
+                frame1.body is not frame0.body and
+                frame1.body not in frame0.body.iter_ancestor_bodies()):
+            joint.set_frames(frame0, frame1)
             frame1.body.parentjoint = joint
         else:
             raise ValueError("frame1's body already has a parent joint, " + \
-- 
2.43.0


From e610e338d9990649479ab99d74c00f0b7631c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 14/31] fix: EnergyMonitor raised an AssertionError on massless
 bodies

---
 arboris/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f14d50f..4cdd9d1 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -62,7 +62,8 @@ class EnergyMonitor(Observer):
         self._com_pos           = {}
         self._bodies = self._world.ground.iter_descendant_bodies
         for body in self._bodies():
-            self._com_pos[body]  = principalframe(body.mass)[:, 3]
+            if body.mass[5, 5] > 0: # massless bodies have no energy
+                self._com_pos[body]  = principalframe(body.mass)[:, 3]
 
     def update(self, dt):
         self.time.append(self._world.current_time)
@@ -70,7 +71,7 @@ class EnergyMonitor(Observer):
                  dot(self._world.mass, self._world.gvel) )/2.
         self.kinetic_energy.append(Ec)
         Ep = 0.
-        for body in self._bodies():
+        for body in self._com_pos:
             h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)
             Ep += body.mass[3, 3] * h
         Ep *= 9.81
-- 
2.43.0


From 9d44cf4724681d1487aa974ee310e92a4c11ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 15/31] fix: sliding force of SoftFingerContact out of the
 friction cone

The matrix whose eigenvalues give the sliding force was built with scalar
products where outer products are needed (dot(v, v.T) is a scalar for 1-d
arrays), and with the wrong sign for the beta*b.T term: the force was not on
the friction ellipsoid.
---
 arboris/constraints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..a0e934c 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, outer, diag, logical_and, arange
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -753,7 +753,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -821,11 +821,11 @@ class SoftFingerContact(PointContact):
                 b = self._mu/y_n * Y_c
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
+                Y_that = Y_t - outer(Y_c, Y_c)/y_n
                 B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
-- 
2.43.0


From c7eb7c3c4e4ca76c735d61226d6b0447115ebae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/31] fix: SoftFingerContact.solve raised when some
 eigenvalues are complex

The real eigenvalues selected out of a complex array are still of complex
type, which cannot be subtracted in place from the admittance.
---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index a0e934c..45e7f26 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -830,7 +830,7 @@ class SoftFingerContact(PointContact):
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                S = S.real[logical_and(S.imag == 0, S.real <= 0)]
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From 2bfa79fa4b98bb1bcbd922d1c915d24b4f1cfa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/31] fix: JointLimits ignored the max limits of a joint when
 a min one is violated

A joint with several dof may reach the min limit of one of its dof and the
max limit of another one at the same time. Each dof is now considered
separately.
---
 arboris/constraints.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 45e7f26..ccc6a7b 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,8 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, outer, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, outer, diag, logical_and, arange, \
+                         where, ix_
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -75,15 +76,18 @@ class JointLimits(Constraint):
         pred = self._pos0 + dt*(vel - dot(admittance, self._force))
         prev_force = self._force.copy()
         # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
+        low = pred <= self._min
+        high = logical_and(self._max <= pred, ~low)
+        if (low | high).any():
+            # some limits are violated, we want pos == min or pos == max for
+            # these dof, and no generalized force for the other ones
+            idx = (low | high).nonzero()[0]
+            limit = where(low, self._min, self._max)
+            self._force = zeros(self.ndol)
+            self._force[idx] = dot(pinv(admittance[ix_(idx, idx)]),
+                                   (limit - pred)[idx]/dt)
+            self._force[low] = self._force[low].clip(min=0)
+            self._force[high] = self._force[high].clip(max=0)
             dforce = self._force - prev_force
         else:
             # the joint is within its limits, we ensure the
-- 
2.43.0


From 30ff7640979520759db60f28183de31d7dc2db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 18/31] fix: SoftFingerContact.solve raised on a grazing
 contact

When the surfaces just touch without any force, no force is needed: the
sliding problem is singular in that case.
---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index ccc6a7b..e5c7740 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -788,7 +788,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
+        if self._sdist + dt*vel_no_force[3] >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
-- 
2.43.0


From 77c1d4b8fe12b9152698ef85123474534ba5ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 19/31] fix: SoftFingerContact.solve raised on a frictionless
 sliding contact

The sliding problem is singular when the friction coefficient is zero, the
contact force is then along the normal.
---
 arboris/constraints.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index e5c7740..210df42 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -811,6 +811,13 @@ class SoftFingerContact(PointContact):
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
+            elif self._mu == 0:
+                # there is no friction at all, only the normal force remains
+                alpha = vel_no_force[3] + self._sdist/dt
+                dforce = -self._force
+                dforce[3] -= alpha/admittance[3, 3]
+                self._force = self._force + dforce
+                return dforce
             else:
                 # the elliptic dry friction law is not respected.
                 # We have to look for a solution with sliding
-- 
2.43.0


From 8affc13ddd5624ac0071c5440b84577b45a59b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 20/31] fix: derivative of the CoM jacobian of bodies whose CoM
 is off their origin

---
 arboris/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 4cdd9d1..66a9c11 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -509,8 +509,9 @@ class CoMObserver(Observer):
                 self._CoMJacobian[:] += self.mass[i] * dot(Ad_com2_body, self.bodies[i].jacobian)[3:6,:]
 
                 ##### For dJacobian
+                # the origin of com2 follows the com of the body
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3,3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From bd0797fe64efc958e81e5b8d8eab0bcf2a65b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 21/31] fix: choose_solver must find the Box/Point solver in
 both orders

---
 arboris/collisions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index ca658a7..2ca5b4c 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -58,6 +58,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 530ad0c2082248f9ad85e61a2c7ed8aea70f0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 22/31] fix: normal of a sphere whose center is on the surface
 of a box

The direction from the box to the center was lost to round-off, raising an
AssertionError or giving a wrong normal.
---
 arboris/collisions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 2ca5b4c..85f5570 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -387,8 +387,8 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         for i in arange(3):
             f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])
         f_g = Hg.pdot(H_g0, f_0)
-        vec = p_g1 - f_g
-        normal = vec/norm(vec)
+        vec = p_01 - f_0
+        normal = Hg.vdot(H_g0, vec/norm(vec))
         sdist = norm(vec) - radius1
     H_gc0 = Hg.zaligned(normal)
     H_gc1 = H_gc0.copy()
-- 
2.43.0


From 093f6fc1ed2af0e93c4ff9b0c5b25a6ad0430ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 23/31] fix: flat drawing of the moving subframes at their pose

---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From fcfa9f6706fd0a01c10c1a947440067b17f2c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 24/31] fix: isadjointmatrix refused adjoint matrices because
 of round-off

---
 arboris/adjointmatrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..5d54a92 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -21,12 +21,12 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import numpy as np
 
-def isadjointmatrix(Ad):
+def isadjointmatrix(Ad, _tol=1e-9):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
-        Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
-        Ad[0:3, 3:6]==np.zeros((3, 3))).all()
+        abs(np.linalg.det(Ad[0:3, 0:3])-1) <= _tol) and (
+        abs(Ad[0:3, 0:3]-Ad[3:6, 3:6]) <= _tol).all() and (
+        abs(Ad[0:3, 3:6]) <= _tol).all()
 
 
 def inv(Ad):
-- 
2.43.0


From 2d27c0880f418bcd8dfde93175ae8ccce141bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 25/31] fix: isadjointmatrix accepted any translation block

---
 arboris/adjointmatrix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index 5d54a92..5121c03 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -23,10 +23,14 @@ import numpy as np
 
 def isadjointmatrix(Ad, _tol=1e-9):
     """ Return true if *Ad* is an adjoint matrix. """
-    return (Ad.shape == (6, 6)) and (
-        abs(np.linalg.det(Ad[0:3, 0:3])-1) <= _tol) and (
-        abs(Ad[0:3, 0:3]-Ad[3:6, 3:6]) <= _tol).all() and (
-        abs(Ad[0:3, 3:6]) <= _tol).all()
+    if Ad.shape != (6, 6):
+        return False
+    R = Ad[0:3, 0:3]
+    px = np.dot(Ad[3:6, 0:3], R.T) # should be skew-symmetric
+    return (abs(np.linalg.det(R)-1) <= _tol) and (
+        abs(R-Ad[3:6, 3:6]) <= _tol).all() and (
+        abs(Ad[0:3, 3:6]) <= _tol).all() and (
+        abs(px+px.T) <= _tol).all()
 
 
 def inv(Ad):
-- 
2.43.0


From feca29ba04123500e2488a532e78a6aa846d811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 26/31] fix: SocketCom must send bytes when it closes the
 connection

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 66a9c11..79e7e88 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -443,7 +443,7 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 2b2667c779c58a0b2310ba02b8b8e0e0aa2fb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 27/31] fix: SocketCom failed at the end of a simulation
 without a client

---
 arboris/observers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 79e7e88..f1aef54 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -443,7 +443,8 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send(b"close_connection")
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 43a4c7fc124cd3560602e34893949e7f0b9682b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:47 +0000
Subject: [PATCH 28/31] fix: a proportional-derivative controller of no joint
 raised IndexError

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index d794418..82a2cb8 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -130,7 +130,7 @@ class ProportionalDerivativeController(Controller):
             else:
                 self._cndof += j.ndof
                 dof_map.extend(list(range(j.dof.start, j.dof.stop)))
-        self._dof_map = array(dof_map)
+        self._dof_map = array(dof_map, dtype=int)
         self.joints = joints
         self._wndof = None
 
@@ -165,7 +165,7 @@ class ProportionalDerivativeController(Controller):
         dof_map = []
         for j in self.joints:
             dof_map.extend(list(range(j.dof.start, j.dof.stop)))
-        self._dof_map = array(dof_map)
+        self._dof_map = array(dof_map, dtype=int)
 
     def update(self, dt):
         """ Compute the generalized force that generate a PD-control. """
-- 
2.43.0


From c631327174e6dc6993bbc80127a74eaad2152fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 29/31] fix: the name of spheres and points was dropped by the
 drawer driver

---
 arboris/visu/world_drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index c48a39a..8f3b326 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -128,10 +128,10 @@ class DrawerDriver():
         pass
 
     def create_sphere(self, radius, color, name=None):
-        return self.create_ellipsoid([radius] * 3, color)
+        return self.create_ellipsoid([radius] * 3, color, name)
 
     def create_point(self, color, name=None):
-        return self.create_sphere(self._options['point radius'], color)
+        return self.create_sphere(self._options['point radius'], color, name)
 
     @abstractmethod
     def create_box(self, half_extents, color, name=None):
-- 
2.43.0


From 89a0643f2e57b48865cc5173159e8f32307347b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:48 +0000
Subject: [PATCH 30/31] fix: a proportional-derivative controller failed when
 its joints were given as an iterator

---
 arboris/controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 82a2cb8..74d419b 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -123,6 +123,7 @@ class ProportionalDerivativeController(Controller):
         Controller.__init__(self, name=name)
         self._cndof = 0
         dof_map = []
+        joints = list(joints) # may be an iterator
         for j in joints:
             if not isinstance(j, LinearConfigurationSpaceJoint):
                 raise ValueError('Joints must be ' +\
-- 
2.43.0


From 81dfd9249223adb0078937ecba2ce6dbcea275a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:16 +0000
Subject: [PATCH 31/31] fix: a logger silently replaced the transform of a body
 by the one of a moving frame of the same name

---
 arboris/observers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f1aef54..acea009 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -261,18 +261,19 @@ class SaveLogger(Observer):
             self._arb_transforms     = {}
             self._transforms         = {}
             self._root['transforms'] = self._transforms
+            moving = list(self._world.itermovingsubframes())
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
+                name_all_elements(self._world.getbodies() + moving, True)
                 for b in self._world.iterbodies():
                     self._arb_transforms[b.name] = b
             else:
                 nonflatlist = [j.frames[1] for j in self._world.getjoints()]
+                nonflatlist.extend([f for f in moving if f not in nonflatlist])
                 name_all_elements(nonflatlist, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
 
-            for f in self._world.itermovingsubframes():
+            for f in moving:
                 self._arb_transforms[f.name] = f
 
             for k in self._arb_transforms.keys():
-- 
2.43.0

