From 34c9a2f62519d2265da9b36c8eff8d39f201c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 01/26] fix: adding an object or assembly with a transform no
 longer fails

add_object() and add_assembly() compared the transform array with == None,
which is an elementwise comparison and raises on an ambiguous truth value.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From e963f4770c2800cd934e072546ffb6eb4ab9914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:57 +0000
Subject: [PATCH 02/26] fix: frames keep their own copy of the arrays that set
 them

set_transform() kept a reference to the caller's matrix, so set_location() and
set_rotation() afterwards wrote into it (moving every other object given the
same matrix), and integer matrices truncated later locations.
---
 tracer/has_frame.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..d5cea22 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,14 +43,14 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
+        self._loc = N.array(location, dtype=float)
         self._transform[:3,3] = location
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
+        self._rot = N.array(rotation, dtype=float)
         self._transform[:3,:3] = rotation
 
     def set_transform(self, transform):
@@ -59,7 +59,9 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        # A copy, so that neither later changes to the caller's array move this
+        # frame, nor later changes to this frame alter the caller's array.
+        self._transform = N.array(transform, dtype=float)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From 110e981387a68b536b0a056d4f2138a83c646ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:24 +0000
Subject: [PATCH 03/26] fix: editing a nested frame keeps the frames above it

Setting the frame of an object, sub-assembly or surface inside a moved
container (or adding members to it) recomputed global frames as if the
container were at the origin, until the container was moved again. Each frame
now remembers the container transform it was last given.
---
 tracer/assembly.py  |  8 ++++++--
 tracer/has_frame.py |  4 ++++
 tracer/object.py    |  5 ++++-
 tracer/surface.py   | 15 +++++++++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..27399c1 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -120,14 +120,18 @@ class Assembly(HasFrame):
         HasFrame.set_transform(self, transform)
         self.transform_children()
 
-    def transform_children(self, assembly_transform=N.eye(4)):
+    def transform_children(self, assembly_transform=None):
         """
         Transforms the entire assembly
         
         Arguments:
         assembly_transform - the transformation into the parent assembly containing the 
-            current assembly
+            current assembly. If None, the one last given is used (initially
+            the global coordinates).
         """
+        if assembly_transform is None:
+            assembly_transform = self._container
+        self._container = N.array(assembly_transform, dtype=float)
         const_t = self.get_transform()
         for obj in self._assemblies + self._objects:
             obj.transform_children(N.dot(assembly_transform, const_t))
diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index d5cea22..d506aa5 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -20,6 +20,9 @@ class HasFrame(object):
     
     .. [1] John J. Craig, Introduction to Robotics, 3rd ed., 2005.
     """
+    # Global transform of the containing object, as last reported by it.
+    _container = N.eye(4)
+    
     def __init__(self,  location=None,  rotation=None):
         # default location and rotation:
         if location is None:
@@ -73,5 +76,6 @@ class HasFrame(object):
         coordinates. I.e., if the object the surface is in is rotated, than the surface
         is also rotated.  It then defines a temporary rotated frame for use of
         calculations."""
+        self._container = N.array(transform, dtype=float)
         self._temp_frame = N.dot(transform, self._transform)
 
diff --git a/tracer/object.py b/tracer/object.py
index cf74f85..a13f63a 100644
--- a/tracer/object.py
+++ b/tracer/object.py
@@ -58,8 +58,11 @@ class AssembledObject(Assembly):
     def get_boundaries(self):
         return self.boundaries
     
-    def transform_children(self, assembly_transform=N.eye(4)):
+    def transform_children(self, assembly_transform=None):
         """Transforms an object if the assembly is transformed""" 
+        if assembly_transform is None:
+            assembly_transform = self._container
+        self._container = N.array(assembly_transform, dtype=float)
         const_t = self.get_transform()
         for member in self.surfaces + self.boundaries:
             member.transform_frame(N.dot(assembly_transform, const_t))
diff --git a/tracer/surface.py b/tracer/surface.py
index 6b771de..53a07f7 100644
--- a/tracer/surface.py
+++ b/tracer/surface.py
@@ -27,6 +27,21 @@ class Surface(HasFrame):
         self._geom = geometry
         self._opt = optics
         
+    def set_location(self, location):
+        """Sets the location within the object, updating the global frame."""
+        HasFrame.set_location(self, location)
+        self.transform_frame(self._container)
+    
+    def set_rotation(self, rotation):
+        """Sets the rotation within the object, updating the global frame."""
+        HasFrame.set_rotation(self, rotation)
+        self.transform_frame(self._container)
+    
+    def set_transform(self, transform):
+        """Sets the transform within the object, updating the global frame."""
+        HasFrame.set_transform(self, transform)
+        self.transform_frame(self._container)
+    
     def get_optics_manager(self):
         """
         Returns the optics-manager callable. May be useful for introspection.
-- 
2.43.0


From 71a6a6088ac4e9edd61af7480c216134ae524385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:29 +0000
Subject: [PATCH 04/26] fix: the far side of a quadric is not missed by rays
 starting on it

The root at a ray's own starting point comes out as a tiny number of either
sign; when positive it was selected as the hit, then discarded by the engine,
so that about a third of the rays leaked through the surface.
---
 tracer/quadric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..58f09e6 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -77,6 +77,10 @@ class QuadricGM(GeometryManager):
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
+        # A root this close is the surface the ray starts from (see
+        # TracerEngine.intersect_ray), it mustn't hide the other root.
+        hits[hits <= 1e-6] = 0.
+        
         # Quadrics can have two intersections. Here we allow child classes
         # to choose based on own method:
         select = self._select_coords(inters_coords, hits)
-- 
2.43.0


From 7f8e24992f014a3c799198af4a90ec256adf97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:29 +0000
Subject: [PATCH 05/26] fix: the self-intersection cutoff does not depend on
 other rays

Intersections closer than 1e-6 were discarded only when some ray of the bundle
had one below 1e-10, so the path of a ray depended on its companions.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..2483197 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From d3b9fdc7e5f2d43c1db73dcf90e349e495fb0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/26] fix: no NaN energy or direction at normal incidence and
 critical angle

Rounding in the dot product of the ray and the normal took arccos and sqrt out
of their domains, and the reflected and refracted rays got NaN.
---
 tracer/optics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..6272daf 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,10 +22,12 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    # Rounding may take the cosine over 1 at normal incidence, and the radicand
+    # below 0 at the critical angle.
+    theta_in = N.arccos(N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1.))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 0.))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -80,7 +82,7 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0.))
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From b0b0c8c7afe349a54b3e32d6f10301e69c76d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:08 +0000
Subject: [PATCH 07/26] fix: ray history can be queried from the ray tree

ray_history() had no self argument, indexed with floats, and stopped one
bundle before the source although it starts one bundle too late.
---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..31e6484 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=int)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From 46d101533ceed0b4f7b52e15801c67f88ae5cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 08/26] fix: a surface can be used again after an interrupted
 trace

When a trace was interrupted between the storing of two pieces of data, the
next trace's done() tried to discard data that was never stored and raised
AttributeError.
---
 tracer/geometry_manager.py | 1 +
 tracer/quadric.py          | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracer/geometry_manager.py b/tracer/geometry_manager.py
index d6c95a7..a808a59 100644
--- a/tracer/geometry_manager.py
+++ b/tracer/geometry_manager.py
@@ -39,6 +39,7 @@ class GeometryManager(object):
         """
         if hasattr(self, '_working_frame'):
             del self._working_frame
+        if hasattr(self, '_working_bundle'):
             del self._working_bundle
     
     def select_rays(self, idxs):
diff --git a/tracer/quadric.py b/tracer/quadric.py
index 58f09e6..3e42f34 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -170,8 +170,9 @@ class QuadricGM(GeometryManager):
         """
         if hasattr(self, '_vertices'):
             del self._vertices
-        if hasattr(self, '_idxs'):
+        if hasattr(self, '_norm'):
             del self._norm
+        if hasattr(self, '_idxs'):
             del self._idxs
         GeometryManager.done(self)
 
-- 
2.43.0


From 078f80983216533e06877662e94f715d57aca08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 09/26] fix: an interrupted trace leaves numpy's error handling
 as it was

---
 tracer/flat_surface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tracer/flat_surface.py b/tracer/flat_surface.py
index a800918..1cc19e3 100644
--- a/tracer/flat_surface.py
+++ b/tracer/flat_surface.py
@@ -138,9 +138,8 @@ class FiniteFlatGM(FlatGeometryManager):
         del self._params
         
         # Global coordinates on the surface:
-        oldsettings = N.seterr(invalid='ignore')
-        self._global = v + p[None,:]*d
-        N.seterr(**oldsettings)
+        with N.errstate(invalid='ignore'):
+            self._global = v + p[None,:]*d
         # above we ignore invalid values. Those rays can't be selected anyway.
         
         # Local should be deleted by children in their find_intersections.
-- 
2.43.0


From a802d046c239efe24d9cdecce26b8fc8ea6e2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:25 +0000
Subject: [PATCH 10/26] fix: a receiver's absorbed energies stay paired with
 their hit points

The two were stored in separate lists, one after the other; a trace
interrupted in between, or two traces at once, shifted every later pair.
Reporting only empty hits also failed.
---
 tracer/optics_callables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..4daf234 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -50,12 +50,11 @@ class AbsorptionAccountant(object):
     
     def reset(self):
         """Clear the memory of hits (best done before a new trace)."""
-        self._absorbed = []
-        self._hits = []
+        self._hits = [] # pairs of (energy absorbed, hit points)
     
     def __call__(self, geometry, rays, selector):
-        self._absorbed.append(rays.get_energy()[selector]*self._opt._abs)
-        self._hits.append(geometry.get_intersection_points_global())
+        self._hits.append((rays.get_energy()[selector]*self._opt._abs,
+            geometry.get_intersection_points_global()))
         return self._opt(geometry, rays, selector)
     
     def get_all_hits(self):
@@ -66,11 +65,11 @@ class AbsorptionAccountant(object):
         absorbed - the energy absorbed by each hit-point
         hits - the corresponding global coordinates for each hit-point.
         """
-        if not len(self._absorbed):
+        hits = [pair for pair in self._hits if len(pair[0])]
+        if not len(hits):
             return N.array([]), N.array([]).reshape(3,0)
         
-        return N.hstack([a for a in self._absorbed if len(a)]), \
-            N.hstack([h for h in self._hits if h.shape[1]])
+        return N.hstack([a for a, h in hits]), N.hstack([h for a, h in hits])
 
 class ReflectiveReceiver(AbsorptionAccountant):
     """A wrapper around AbsorptionAccountant with a Reflective optics"""
-- 
2.43.0


From 2c8e95410d4bd7d8714b1a5f806439037635aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:45 +0000
Subject: [PATCH 11/26] fix: a bounding cylinder cuts where it is placed

It transformed points out of its frame instead of into it, ignored its
rotation, and accepted only lists of exactly three points, so that a sphere
cut by a cylinder could not be traced.
---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 73ea14e83f46e1fcf8068f694d6cb4cf5241d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:14 +0000
Subject: [PATCH 12/26] fix: lenses with a planar front can be created

The planar front used an undefined name, and was not placed at the lens depth
nor counted in the dimensions of the bounding cylinder.
---
 tracer/models/spherical_lens.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..19f86ca 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,10 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            self._front.set_location(N.r_[0., 0., pd + depth])
+            cyl_loc += (pd + depth)/2.
+            cyl_height += pd + depth
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From 2b36641163b57b09a2151319dfdd0dd0d2964252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:19 +0000
Subject: [PATCH 13/26] fix: faces after a degenerate one are placed at their
 own vertices

Degenerate and collinear faces were dropped from every array but that of the
face locations, so each of the following faces was located at the place of an
earlier one.
---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..a271edd 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -30,6 +30,7 @@ class TriangulatedSurface(AssembledObject):
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
+        pos = pos[non_degenerate]
         
         xs = edges[:,0] / edge_norms[:,0,None]
         zs = np.cross(xs, edges[:,1])
@@ -39,6 +40,7 @@ class TriangulatedSurface(AssembledObject):
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
+        pos = pos[non_collinear]
         
         rots = np.concatenate((xs[...,None], ys[...,None], zs[...,None]), axis=2)
         edges_local = np.sum(rots.transpose(0,2,1)[:,None,...]*\
-- 
2.43.0


From 1e927433b918abb377ce0d39efe2744ed73607cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:24 +0000
Subject: [PATCH 14/26] fix: refractive optics accept an empty selection

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 4daf234..b5274a5 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -127,7 +127,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 389d2d7be2c0eeee7ffa0be553603352ad722d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:29 +0000
Subject: [PATCH 15/26] fix: square bundles have as many directions as vertices

When the number of rays is not a perfect square, the grid has another number
of points, and the bundle could not be traced.
---
 tracer/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..74892b9 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,11 +96,11 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
     range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
     xs, ys = N.mgrid[range, range]
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
+    directions = N.tile(direction[:,None], (1, vertices_global.shape[1]))
 
     rayb = RayBundle()
     rayb.set_vertices(vertices_global + center)
-- 
2.43.0


From b9bcde06c25ac4948947a23891e9c06a12c91c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 16/26] fix: inherited ray properties are copies also with the
 default selector

---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..b25ac3d 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = N.array(self.__dict__['get_' + p](selector))
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From f046856789c1815336d3751698356c96483de2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 17/26] fix: a trace of no iterations without a tree keeps the
 source bundle

ray_tracer(..., reps=0, tree=False) raised NameError.
---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 2483197..3a8ee84 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -100,6 +100,7 @@ class TracerEngine():
         """
         self.tree = RayTree()
         bund = bundle
+        record = [bund]
         if tree is True:
             self.tree.append(bund)
         
-- 
2.43.0


From 86c5317a83767907b8bf7896567a75ed4a957d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:31 +0000
Subject: [PATCH 18/26] fix: ray segments are drawn from their own rays'
 vertices

Segments of escaping rays were connected to vertices by their index among the
shown rays instead of among all rays, drawing wrong lines whenever a ray with
no energy or an unselected ray preceded them; rays not selected for display
were drawn anyway if they hit a surface.
---
 tracer/mayavi_ui/scene_view.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..e035b73 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -242,27 +242,28 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         if ray_selector is not None:
             non_degenerate &= ray_selector(start_rays)
         
+        shown = N.nonzero(non_degenerate)[0]
         sv = start_rays.get_vertices()[:,non_degenerate]
         sd = start_rays.get_directions()[:,non_degenerate]
         
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = shown
         else:
             end_rays = tree[level + 1]
-            escaping = ~N.any(
-                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)
+            escaping = ~N.any(shown == end_rays.get_parents()[:,None], 0)
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(), shown[escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
-        connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+        drawn = non_degenerate[parents]
+        connections.append(N.hstack((accum_points[level] + parents[drawn,None],
+            accum_points[level + 1] + N.nonzero(drawn)[0][:,None] )) )
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From 18d45f70f2f256ddfaeead0b87b992b41362c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:36 +0000
Subject: [PATCH 19/26] fix: surfaces no longer in the assembly are removed
 from the scene

set_assembly() left the meshes of the replaced assembly on the scene, and
update_surfaces() failed when a removed surface had no mesh (after
clear_scene()).
---
 tracer/mayavi_ui/scene_view.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index e035b73..d7beb21 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -32,6 +32,7 @@ class TracerScene(t_api.HasTraits):
         """
         t_api.HasTraits.__init__(self)
         self._esc = escaping
+        self._meshes = {}
         
         self.set_assembly(assembly)
         self._source = source
@@ -68,6 +69,9 @@ class TracerScene(t_api.HasTraits):
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
         self._asm = asm
+        for surf, mesh in self._meshes.itervalues():
+            if mesh is not None:
+                mesh.remove()
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
     
@@ -82,9 +86,10 @@ class TracerScene(t_api.HasTraits):
         surf_ids = [id(s) for s in current_surfs]
         
         # Remove:
-        for sid in self._meshes.keys():
+        for sid in list(self._meshes.keys()):
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0


From 2c4395bac60ee6d2ef677e850f52aa40ec7e89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:41 +0000
Subject: [PATCH 20/26] fix: the scene renders again after a failed trace

---
 tracer/mayavi_ui/scene_view.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index d7beb21..64affa4 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -154,13 +154,14 @@ class TracerScene(t_api.HasTraits):
             self._lines = None
         
         # Trace new rays:
-        engine = TracerEngine(self._asm)
-        params = engine.ray_tracer(self._source, 
-            self._num_trace_iters, self._min_energy)[0]
-        self._lines = show_rays(self._scene, engine.tree, self._esc, 
-            self._ray_selector)
-        
-        self._scene.disable_render = False
+        try:
+            engine = TracerEngine(self._asm)
+            params = engine.ray_tracer(self._source, 
+                self._num_trace_iters, self._min_energy)[0]
+            self._lines = show_rays(self._scene, engine.tree, self._esc, 
+                self._ray_selector)
+        finally:
+            self._scene.disable_render = False
     
     @staticmethod
     def scene_view_item(height=400, width=300):
-- 
2.43.0


From fc22f1d2a6929037018310b39b2861f54b3b07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:41 +0000
Subject: [PATCH 21/26] fix: the assembly tree shows the top assembly's caption

The caption given to the top assembly, by tag or by editing it in the tree,
was recorded but never shown, unlike those of all other items.
---
 tracer/qt/assembly_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracer/qt/assembly_tree.py b/tracer/qt/assembly_tree.py
index 3917bff..511ecb0 100644
--- a/tracer/qt/assembly_tree.py
+++ b/tracer/qt/assembly_tree.py
@@ -47,7 +47,10 @@ class AssemblyTree(QtGui.QTreeWidget):
         self.clear()
         
         # Repopulate:
-        asm_item = AssemblyTreeItem(["Top assembly"], asm)
+        caption = self.get_tag(asm, 'caption')
+        if caption is None:
+            caption = "Top assembly"
+        asm_item = AssemblyTreeItem([caption], asm)
         asm_item.setFlags(asm_item.flags()|QtCore.Qt.ItemIsEditable)
         self.itemChanged.connect(asm_item.update_caption)
         
-- 
2.43.0


From 499255e3244bf7707e11cf3420d0e873dd0ee0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:27 +0000
Subject: [PATCH 22/26] fix: ray properties of more than two dimensions merge
 along the rays

The rays are on the last axis, but bundles were merged along the second.
---
 tracer/ray_bundle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index b25ac3d..b3e2a94 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -161,9 +161,9 @@ class RayBundle:
                     newbund._create_property(attr[1:], None)
                 
                 # Do addition.
-                newbund.__dict__['set' + attr](N.hstack((
+                newbund.__dict__['set' + attr](N.concatenate((
                     self.__dict__['get' + attr](),
-                    added.__dict__['get' + attr]() )) )
+                    added.__dict__['get' + attr]() ), axis=-1) )
         
         return newbund
 
@@ -217,8 +217,8 @@ def concatenate_rays(bundles):
             
             # This is the actual concatenation:
             getter = 'get' + attr
-            newbund.__dict__['set' + attr](N.hstack(
-                [b.__dict__[getter]() for b in bundles]))
+            newbund.__dict__['set' + attr](N.concatenate(
+                [b.__dict__[getter]() for b in bundles], axis=-1))
     
     return newbund
 
-- 
2.43.0


From 5f43b36b2ba72ea10943a841f1f3cdde4938c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:38 +0000
Subject: [PATCH 23/26] fix: rays of one bundle do not swap their hits on
 hemispheres and cut spheres

When only one of the two intersections is inside the bounds, the indices of
the valid one were taken in the wrong order, so that as soon as some rays use
their first and others their second intersection, the choices were assigned to
other rays.
---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From 69a88804eb4140cdfc77d1d5254f8e03c6942b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:49 +0000
Subject: [PATCH 24/26] fix: heliostat fields accept whole-number positions

Aiming a field whose positions were given as an integer array failed, as the
tower vectors were normalised in place, and a field kept a reference to the
caller's array.
---
 tracer/models/heliostat_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..2add28c 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -30,7 +30,8 @@ class HeliostatField(Assembly):
         apsorpt - part of incident energy absorbed by the heliostat.
         aim_height - the height (Z coordinate) of the target for aiming
         """
-        self._pos = positions  # Save collecting positions from the hstats.
+        # Save collecting positions from the hstats.
+        self._pos = N.array(positions, dtype=float)
         self._th = aim_height
         face_down = rotx(N.pi)
         
-- 
2.43.0


From 72f96d647ce276defc688297586921181607c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:49 +0000
Subject: [PATCH 25/26] fix: a view renders again when its old rays can't be
 removed

---
 tracer/mayavi_ui/scene_view.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 64affa4..a450ed7 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -148,13 +148,13 @@ class TracerScene(t_api.HasTraits):
         
         self._scene.disable_render = True
         
-        # Remove previous rays:
-        if self._lines is not None:
-            self._lines.remove()
-            self._lines = None
-        
-        # Trace new rays:
         try:
+            # Remove previous rays:
+            if self._lines is not None:
+                self._lines.remove()
+                self._lines = None
+            
+            # Trace new rays:
             engine = TracerEngine(self._asm)
             params = engine.ray_tracer(self._source, 
                 self._num_trace_iters, self._min_energy)[0]
-- 
2.43.0


From d8a4cfd204d9c9f9966526eb893019240f5b8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:49 +0000
Subject: [PATCH 26/26] fix: rays of a removed source are taken off the view

---
 tracer/mayavi_ui/scene_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index a450ed7..b866304 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -142,10 +142,6 @@ class TracerScene(t_api.HasTraits):
         from the scene's source, retraces its rays, and plots them on the
         scene.
         """
-        # Allow a scene with no source:
-        if self._source is None:
-            return
-        
         self._scene.disable_render = True
         
         try:
@@ -154,6 +150,10 @@ class TracerScene(t_api.HasTraits):
                 self._lines.remove()
                 self._lines = None
             
+            # Allow a scene with no source:
+            if self._source is None:
+                return
+            
             # Trace new rays:
             engine = TracerEngine(self._asm)
             params = engine.ray_tracer(self._source, 
-- 
2.43.0

