From 473b160a803585ef747660c25b10c19ab1d915aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 01/63] fix: axial interpolation reads past the coefficient
 array at the last z value

---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..51b4bb2 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (there are N_z-1 intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (there are N_z-1 intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..6da5432 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (there are N_z-1 intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (there are N_z-1 intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From bbcbde4f874a5e86558fca521f7c5324f5ab6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 02/63] fix: ellipk returned NaN for parameters k <= -1

---
 traceon/backend/elliptic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index 5bb20d7..e754fe5 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -37,7 +37,7 @@ EXPORT double ellipkm1(double p) {
 EXPORT double ellipk(double k) {
 	if(k > -1) return ellipkm1(1-k);
 	
-	return ellipkm1(1./(1-k))/sqrt(k);
+	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
 
 EXPORT double ellipem1(double p) {
-- 
2.43.0


From 3958f2418ad921c1754d60631e08e544b6a665d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 03/63] fix: field_3d_derivs did not return the computed field

---
 traceon/backend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..4b2916e 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
-- 
2.43.0


From fad00d2d6a7283ac589c03dbc7bbe4ff8fc9abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 04/63] fix: magnetostatic field could not be evaluated at a
 point given as integers

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 4b2916e..dcf01e1 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -516,7 +516,7 @@ def current_field(p0, currents, jac_buffer, pos_buffer):
     assert np.all(pos_buffer[:, :, 1] == 0.)
     
     result = np.zeros( (3,) )
-    backend_lib.current_field(p0, result, currents, jac_buffer, pos_buffer, N)
+    backend_lib.current_field(p0.astype(np.float64), result, currents, jac_buffer, pos_buffer, N)
     return result
 
 def current_axial_derivatives_radial(z, currents, jac_buffer, pos_buffer):
-- 
2.43.0


From 1384a820a42fdf11b67b00db229376d1150395c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 05/63] fix: 2D element wrappers passed two component views of
 which the backend reads a third component

---
 traceon/backend/__init__.py | 14 ++++++++++----
 traceon/solver.py           |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index dcf01e1..319eeda 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -148,10 +148,10 @@ backend_functions = {
     'ellipem1' : (dbl, dbl),
     'ellipe': (dbl, dbl),
     'normal_2d': (None, v2, v2, v2),
-    'higher_order_normal_radial': (None, dbl, v2, v2, v2, v2, v2),
+    'higher_order_normal_radial': (None, dbl, v3, v3, v3, v3, v2),
     'normal_3d': (None, arr(shape=(3,3)), v3),
     'position_and_jacobian_3d': (None, dbl, dbl, arr(ndim=2), v3, dbl_p),
-    'position_and_jacobian_radial': (None, dbl, v2, v2, v2, v2, v2, dbl_p),
+    'position_and_jacobian_radial': (None, dbl, v3, v3, v3, v3, v2, dbl_p),
     'trace_particle': (sz, times_block, tracing_block, field_fun, bounds, dbl, vp),
     'potential_radial_ring': (dbl, dbl, dbl, dbl, dbl, vp), 
     'dr1_potential_radial_ring': (dbl, dbl, dbl, dbl, dbl, vp), 
@@ -230,9 +230,15 @@ def kronrod_adaptive(fun, a, b, epsabs=1.49e-08, epsrel=1.49e-08):
     callback = integration_cb_1d(lambda x, _: fun(x))
     return backend_lib.kronrod_adaptive(callback, a, b, vp(None), epsabs, epsrel)
 
+def _to_3d_points(points):
+    # The backend reads the z coordinate of a point at index 2.
+    points = np.array(points, dtype=np.float64)
+    return points if points.shape[-1] == 3 else np.insert(points, 1, 0.0, axis=-1)
+
 def higher_order_normal_radial(alpha, vertices):
     normal = np.zeros(2)
-    backend_lib.higher_order_normal_radial(alpha, vertices[0, :2], vertices[2, :2], vertices[3, :2], vertices[1, :2], normal)
+    v = _to_3d_points(vertices)
+    backend_lib.higher_order_normal_radial(alpha, v[0], v[2], v[3], v[1], normal)
     assert np.isclose(np.linalg.norm(normal), 1.0)
     return normal
     
@@ -323,7 +329,7 @@ def position_and_jacobian_radial(alpha, v1, v2, v3, v4):
     pos = np.zeros(2)
     jac = C.c_double(0.0)
      
-    backend_lib.position_and_jacobian_radial(alpha, v1[:2], v2[:2], v3[:2], v4[:2], pos, C.pointer(jac))
+    backend_lib.position_and_jacobian_radial(alpha, _to_3d_points(v1), _to_3d_points(v2), _to_3d_points(v3), _to_3d_points(v4), pos, C.pointer(jac))
     
     return jac.value, pos
 
diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..5bd8e8f 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -258,7 +258,7 @@ class MagnetostaticSolver(Solver):
             if self.is_2d() and not self.is_higher_order():
                 normals[i] = backend.normal_2d(v[0], v[1])
             elif self.is_2d() and self.is_higher_order():
-                normals[i] = backend.higher_order_normal_radial(0.0, v[:, :2])
+                normals[i] = backend.higher_order_normal_radial(0.0, v)
             elif self.is_3d() and not self.is_higher_order():
                 normals[i] = backend.normal_3d(v)
         
-- 
2.43.0


From daf8b4512061069b2a6859358b1c1b96d13b36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 06/63] fix: radial matrix rows were skipped when a thread was
 assigned a single row

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 319eeda..44d065c 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -584,7 +584,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
-- 
2.43.0


From fddc5cec61cd887e519c1a53cfc0b44876380995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 07/63] fix: split_collect lost the exceptions raised by its
 threads and started threads without work

---
 traceon/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..d67bbeb 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -59,12 +59,17 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         logging.log_debug(f'Running function \'{f.__name__}\' on a single thread since DEBUG=True')
         return [f(array)]
     
-    args = np.array_split(array, get_number_of_threads())
+    # Never hand out more chunks than there are elements, an empty chunk is not useful to any thread
+    args = np.array_split(array, max(1, min(get_number_of_threads(), len(array))))
      
     results = [np.zeros(0)]*len(args)
+    exceptions: List[BaseException] = []
     
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as e:
+            exceptions.append(e)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -72,6 +77,10 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
+    
+    # An exception in a thread is otherwise lost, leaving part of the result uncomputed
+    if exceptions:
+        raise exceptions[0]
 
     return results
             
-- 
2.43.0


From 7ecc80ed8d8b78ae1ac1e8546d94ccfe2f484867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 08/63] fix: the operators -,* and negation of BEM fields
 raised an exception

---
 traceon/solver.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 5bd8e8f..0a06385 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -574,40 +574,34 @@ class FieldBEM(Field, ABC):
         return len(self.magnetostatic_point_charges) > 0 or len(self.current_point_charges) > 0 
      
     def __add__(self, other):
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
         return self.__class__(
             self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
             self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
             self.current_point_charges.__add__(other.current_point_charges))
      
     def __sub__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__sub__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__sub__(other.magnetostatic_point_charges),
-            self.current_point_charges.__sub__(other.current_point_charges))
+        return self.__add__(-other)
     
     def __radd__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__radd__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__radd__(other.magnetostatic_point_charges),
-            self.current_point_charges.__radd__(other.current_point_charges))
+        return self.__add__(other)
     
     def __mul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__mul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__mul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__mul__(other.current_point_charges))
+        if isinstance(other, int) or isinstance(other, float):
+            return self.__class__(
+                other*self.electrostatic_point_charges,
+                other*self.magnetostatic_point_charges,
+                other*self.current_point_charges)
+        
+        return NotImplemented
     
-    def __neg__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__neg__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__neg__(other.magnetostatic_point_charges),
-            self.current_point_charges.__neg__(other.current_point_charges))
+    def __neg__(self):
+        return -1*self
      
     def __rmul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__rmul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__rmul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__rmul__(other.current_point_charges))
+        return self.__mul__(other)
      
     def area_of_elements(self, indices):
         """Compute the total area of the elements at the given indices.
-- 
2.43.0


From de8dfa8b25c1b592742bc14af63a274b38355d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 09/63] fix: 3D BEM fields could not be added, since the
 constructor accepted no current charges

---
 traceon/solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 0a06385..d8bb1c9 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -838,14 +838,19 @@ class Field3D_BEM(FieldBEM):
     """An electrostatic field resulting from a general 3D geometry. The field is a result of the surface charges as computed by the
     `solve_direct` function. See the comments in `FieldBEM`."""
      
-    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None):
+    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None, current_point_charges=None):
         
         if electrostatic_point_charges is None:
             electrostatic_point_charges = EffectivePointCharges.empty_3d()
         if magnetostatic_point_charges is None:
             magnetostatic_point_charges = EffectivePointCharges.empty_3d()
          
-        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, EffectivePointCharges.empty_3d())
+        if current_point_charges is None:
+            current_point_charges = EffectivePointCharges.empty_3d()
+        
+        assert len(current_point_charges) == 0, "Currents are not supported in 3D"
+        
+        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, current_point_charges)
         
         self.symmetry = E.Symmetry.THREE_D
 
-- 
2.43.0


From 4c8da97e7687e836bc2f070cdb8115ac60152d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 10/63] fix: the operators +,-,* of interpolated fields raised
 an exception

---
 traceon/interpolation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 05a264b..ac4b35c 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -1,3 +1,4 @@
+import copy
 import time
 from abc import ABC, abstractmethod
 
@@ -33,6 +34,12 @@ class FieldAxial(S.Field, ABC):
         self.has_electrostatic = np.any(self.electrostatic_coeffs != 0.)
         self.has_magnetostatic = np.any(self.magnetostatic_coeffs != 0.)
      
+    def _with_coeffs(self, electrostatic_coeffs, magnetostatic_coeffs):
+        # The constructors of derived classes have a different signature
+        result = copy.copy(self)
+        FieldAxial.__init__(result, self.z, electrostatic_coeffs, magnetostatic_coeffs)
+        return result
+     
     def is_electrostatic(self):
         return self.has_electrostatic
 
@@ -48,7 +55,7 @@ class FieldAxial(S.Field, ABC):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._with_coeffs(self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
          
         return NotImplemented
     
@@ -60,7 +67,7 @@ class FieldAxial(S.Field, ABC):
      
     def __mul__(self, other):
         if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+            return self._with_coeffs(other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
          
         return NotImplemented
     
-- 
2.43.0


From 8579ebd38b155d3c361b73b31a795c177e0b9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 11/63] fix: default sampling of the axial interpolation was
 zero points for a field produced by coils only

---
 traceon/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index ac4b35c..61cf59b 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -122,7 +122,9 @@ class FieldRadialAxial(FieldAxial):
     def _get_interpolation_coefficients(field: S.FieldRadialBEM, zmin, zmax, N=None):
         assert zmax > zmin, "zmax should be bigger than zmin"
 
-        N_charges = max(len(field.electrostatic_point_charges.charges), len(field.magnetostatic_point_charges.charges))
+        N_charges = max(len(field.electrostatic_point_charges.charges),
+                        len(field.magnetostatic_point_charges.charges),
+                        len(field.current_point_charges.charges))
         N = N if N is not None else int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges)
         z = np.linspace(zmin, zmax, N)
         
-- 
2.43.0


From a80c5bebbfc676879c80a2774c6634186d11da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 12/63] fix: upgrading a mesh to higher order undid the normal
 orientation of boundary elements

---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..491f92a 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -541,7 +541,8 @@ class Mesh(Saveable, GeometricObject):
 
         return Mesh(points=points,
             lines=lines, physical_to_lines=self.physical_to_lines,
-            triangles=triangles, physical_to_triangles=self.physical_to_triangles)
+            triangles=triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def __str__(self):
         physical_lines = ', '.join(self.physical_to_lines.keys())
-- 
2.43.0


From 2c91d9d77ef52558054174900f211581538e8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 13/63] fix: flip_normals had no effect on the named elements
 of a mesh

---
 traceon/mesher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 491f92a..9346ebe 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -475,7 +475,8 @@ class Mesh(Saveable, GeometricObject):
         
         return Mesh(self.points, lines, triangles,
             physical_to_lines=self.physical_to_lines,
-            physical_to_triangles=self.physical_to_triangles)
+            physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def remove_lines(self):
         """Remove all the lines from the mesh.
-- 
2.43.0


From a03cd52798a570242f613aeaf7f91f558737a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 14/63] fix: add_magnetostatic_boundary printed to standard
 output regardless of the log level

---
 traceon/excitation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index f7c7ea7..d3c31d1 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -224,7 +224,6 @@ class Excitation:
         """
         if ensure_inward_normals:
             for electrode in args:
-                print('flipping normals', electrode)
                 self.mesh.ensure_inward_normals(electrode)
         
         self.add_magnetizable(**{a:0 for a in args})
-- 
2.43.0


From 569a382d64a5570ad8dc661e692e029bc0d28b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 15/63] fix: meshing a collection with
 ensure_outward_normals=False still reoriented the normals

---
 traceon/geometry.py | 8 +++++---
 traceon/mesher.py   | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d9de84b..ceaae70 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -775,8 +775,9 @@ class PathCollection(GeometricObject):
         name = self.name if name is None else name
         
         for p in self.paths:
-            mesh = mesh + p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
-                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._add(p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
+                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals),
+                        ensure_outward_normals=ensure_outward_normals)
 
         return mesh
 
@@ -1348,7 +1349,8 @@ class SurfaceCollection(GeometricObject):
         name = self.name if name is None else name
         
         for s in self.surfaces:
-            mesh = mesh + s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._add(s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals),
+                        ensure_outward_normals=ensure_outward_normals)
          
         return mesh
      
diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9346ebe..7997b0b 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -279,6 +279,10 @@ class Mesh(Saveable, GeometricObject):
         A new mesh consisting of the elements of the added meshes"""
         if not isinstance(other, Mesh):
             return NotImplemented
+        
+        return self._add(other)
+    
+    def _add(self, other, ensure_outward_normals=True):
          
         N_points = len(self.points)
         N_lines = len(self.lines)
@@ -298,7 +302,8 @@ class Mesh(Saveable, GeometricObject):
                     lines=lines,
                     triangles=triangles,
                     physical_to_lines=physical_lines,
-                    physical_to_triangles=physical_triangles)
+                    physical_to_triangles=physical_triangles,
+                    ensure_outward_normals=ensure_outward_normals)
      
     def extract_physical_group(self, name):
         """Extract a named group from the mesh.
-- 
2.43.0


From 315349f132b6e11552233fe363a87daa652da694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 16/63] fix: field bounds were ignored when tracing through a
 3D BEM field

---
 traceon/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..18d6386 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -175,7 +175,7 @@ class Tracer3D_BEM(Tracer):
         velocity = _convert_velocity_to_SI(velocity)
         bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From b650adabb85fddee5a2dc834a1de6069c8ba2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 17/63] fix: the z field bounds were ignored when tracing
 through a radial BEM field

---
 traceon/backend/tracing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..ae5c404 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
-- 
2.43.0


From 5624e002cef74816f7b78b0c71db34a5e644ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 18/63] fix: field bounds given as integers were reinterpreted
 as floats by the backend

---
 traceon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index d8bb1c9..c98bf1d 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -564,7 +564,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
+        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
     def is_electrostatic(self):
-- 
2.43.0


From 07e4c123882dc44224316ac3d2644d2cc6aadacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 19/63] fix: fields evaluated outside the field bounds were not
 zero

---
 traceon/solver.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/traceon/solver.py b/traceon/solver.py
index c98bf1d..2fa6859 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -567,6 +567,10 @@ class FieldBEM(Field, ABC):
         self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
+    def _outside_field_bounds(self, point):
+        return self.field_bounds is not None and \
+            not np.all((self.field_bounds[:, 0] < point) & (point < self.field_bounds[:, 1]))
+     
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
 
@@ -665,6 +669,8 @@ class FieldRadialBEM(FieldBEM):
     def current_field_at_point(self, point_):
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        if self._outside_field_bounds(point):
+            return np.zeros(3)
             
         currents = self.current_point_charges.charges
         jacobians = self.current_point_charges.jacobians
@@ -686,6 +692,8 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        if self._outside_field_bounds(point):
+            return np.zeros(3)
           
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
@@ -727,6 +735,8 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        if self._outside_field_bounds(point):
+            return np.zeros(3)
         current_field = self.current_field_at_point(point)
         
         charges = self.magnetostatic_point_charges.charges
@@ -875,6 +885,8 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        if self._outside_field_bounds(point):
+            return np.zeros(3)
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
         positions = self.electrostatic_point_charges.positions
@@ -915,6 +927,8 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        if self._outside_field_bounds(point):
+            return np.zeros(3)
         charges = self.magnetostatic_point_charges.charges
         jacobians = self.magnetostatic_point_charges.jacobians
         positions = self.magnetostatic_point_charges.positions
-- 
2.43.0


From 2e2eaf6f0b1072c4f43a8898f34d829c816d0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 20/63] fix: meshing a surface with breakpoints in both
 directions connected the wrong sections

---
 traceon/mesher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 7997b0b..a1b0eda 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1051,17 +1051,18 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
     # Normalize all the point stacks to the max depth of all sections 
     point_with_quads = [p.normalize_to_depth(max_depth, q, start_depth) for p, q in zip(point_stacks, quads)]
     
-    # Copy over the edges
+    # Copy over the edges. Note that Surface._sections(..) yields the section
+    # with indices (i, j) at position i*Ny + j.
     Nx, Ny = len(surface.breakpoints1)+1, len(surface.breakpoints2)+1
     assert len(point_with_quads) == Nx*Ny
 
     for i in range(Nx-1):
         for j in range(Ny): # Horizontal copying
-            _copy_over_edge(point_with_quads[j*Nx + i][-1, :], point_with_quads[j*Nx + i + 1][0, :])
+            _copy_over_edge(point_with_quads[i*Ny + j][-1, :], point_with_quads[(i+1)*Ny + j][0, :])
      
     for i in range(Nx):
         for j in range(Ny-1): # Vertical copying
-            _copy_over_edge(point_with_quads[j*Nx + i][:, -1], point_with_quads[(j+1)*Nx + i][:, 0])
+            _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
-- 
2.43.0


From 9496479116ac114ffb161cb3ba7e9d93438c16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 21/63] fix: adding a path collection to a path failed, and +=
 on collections resulted in None

---
 traceon/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index ceaae70..e7f6d22 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -684,7 +684,7 @@ class Path(GeometricObject):
             return PathCollection([self, other])
         
         if isinstance(other, PathCollection):
-            return PathCollection([self] + [other.paths])
+            return PathCollection([self] + other.paths)
 
         return NotImplemented
      
@@ -807,6 +807,8 @@ class PathCollection(GeometricObject):
             self.paths.append(other)
         else:
             self.paths.extend(other.paths)
+        
+        return self
        
     def revolve_x(self, angle=2*pi):
         return self._map_to_surfaces(Path.revolve_x, angle=angle)
@@ -1372,6 +1374,8 @@ class SurfaceCollection(GeometricObject):
             self.surfaces.append(other)
         else:
             self.surfaces.extend(other.surfaces)
+        
+        return self
 
     def __str__(self):
         return f"<SurfaceCollection with {len(self.surfaces)} surfaces, name: {self.name}>"
-- 
2.43.0


From 549f1fb2c77ce873b9a8a6a85725434129148782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 22/63] fix: extrude_boundary_by_path treated the path as a
 vector

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index e7f6d22..c50d796 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1199,7 +1199,7 @@ class Surface(GeometricObject):
         SurfaceCollection"""
         
         boundary = self.get_boundary_paths()
-        extruded_boundary = boundary.extrude(path)
+        extruded_boundary = boundary.extrude_by_path(path)
 
         if enclose:
             path_vector = path.endpoint() - path.starting_point()
-- 
2.43.0


From eb332b67de84d46ebeaec7438202e81173f41e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 23/63] fix: revolve_y turned clockwise, such that
 revolve_boundary_y was not closed by its rotated copy

---
 traceon/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index c50d796..b728b58 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -446,9 +446,10 @@ class Path(GeometricObject):
          
         def f(u, v):
             p = self(u)
-            theta = atan2(p[2], p[0])
+            # Anti-clockwise around the y-axis goes from the z-axis to the x-axis
+            theta = atan2(p[0], p[2])
             r = sqrt(p[0]*p[0] + p[2]*p[2])
-            return np.array([r*cos(theta + v/length2*angle), p[1], r*sin(theta + v/length2*angle)])
+            return np.array([r*sin(theta + v/length2*angle), p[1], r*cos(theta + v/length2*angle)])
          
         return Surface(f, self.path_length, length2, self.breakpoints, name=self.name)
     
-- 
2.43.0


From 2576879feef19f81ad0a6f1aae7aeb45bc18bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 24/63] fix: breakpoints given to Path.from_irregular_function
 ended up at the wrong position

---
 traceon/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index b728b58..5e5e3bb 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -111,7 +111,10 @@ class Path(GeometricObject):
 
         path_length = path_lengths[-1]
         
-        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[b*path_length for b in breakpoints])
+        # The breakpoints are given in terms of u, convert to path length
+        length_at = CubicSpline(u, path_lengths)
+        
+        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[float(length_at(b)) for b in breakpoints])
     
     @staticmethod
     def spline_through_points(points, N=100):
-- 
2.43.0


From 09dfb5c8ed6dbf4406e4068f980a89f68596b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 25/63] fix: the surface created by from_boundary_paths did not
 have the given paths as its boundary

---
 traceon/geometry.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 5e5e3bb..254d2e1 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1000,16 +1000,19 @@ class Surface(GeometricObject):
             c = v
             d = u
             
-            return 1/2*(a*p1(u*p1.path_length) + \
+            # Coons patch, which interpolates all four paths exactly
+            corners = a*b*p1.starting_point() + a*d*p1.endpoint() + c*d*p3.starting_point() + c*b*p3.endpoint()
+             
+            return a*p1(u*p1.path_length) + \
                         b*p4((1-v)*p4.path_length) + \
                         c*p3((1-u)*p3.path_length) + \
-                        d*p2(v*p2.path_length))
+                        d*p2(v*p2.path_length) - corners
         
-        # Scale the breakpoints appropriately
+        # Scale the breakpoints appropriately, note that p3 and p4 are traversed in the opposite direction
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-                [b/p3.path_length * path_length_p1_and_p3 for b in p3.breakpoints])
+                [(1 - b/p3.path_length) * path_length_p1_and_p3 for b in p3.breakpoints])
         b2 = sorted([b/p2.path_length * path_length_p2_and_p4 for b in p2.breakpoints] + \
-                [b/p4.path_length * path_length_p2_and_p4 for b in p4.breakpoints])
+                [(1 - b/p4.path_length) * path_length_p2_and_p4 for b in p4.breakpoints])
         
         return Surface(f, path_length_p1_and_p3, path_length_p2_and_p4, b1, b2)
      
-- 
2.43.0


From 62f3c86b935ee1aec4433fb8bfe95c5a00aef2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 26/63] fix: Path.arc raised an exception for points given as
 integers

---
 traceon/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 254d2e1..7a38aa5 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -385,7 +385,7 @@ class Path(GeometricObject):
         Returns
         ----------------------------
         Path"""
-        start_arr, center_arr, end_arr = np.array(start), np.array(center), np.array(end)
+        start_arr, center_arr, end_arr = np.array(start, dtype=float), np.array(center, dtype=float), np.array(end, dtype=float)
          
         x_unit = start_arr - center_arr
         x_unit /= np.linalg.norm(x_unit)
@@ -405,7 +405,7 @@ class Path(GeometricObject):
           
         def f(l):
             theta = l/path_length * theta_max
-            return center + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
+            return center_arr + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
         
         return Path(f, path_length)
      
-- 
2.43.0


From f81cd4311645f6aa7dd75b4fbf1348418b733a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 27/63] fix: solve_direct_superposition gave wrong fields for
 currents, magnetostatic potentials and mixed excitations

---
 traceon/excitation.py |  5 ++++-
 traceon/solver.py     | 29 ++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index d3c31d1..9b6f044 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -233,7 +233,8 @@ class Excitation:
         # Names that have a fixed voltage excitation, not equal to 0.0
         types = self.excitation_types
         non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
-                                                                    ExcitationType.CURRENT] and v != 0.0]
+                                                                    ExcitationType.CURRENT,
+                                                                    ExcitationType.MAGNETOSTATIC_POT] and v != 0.0]
         
         excitations = []
          
@@ -250,6 +251,8 @@ class Excitation:
                     new_types_dict[n] = (t, 0.0)
                 elif t == ExcitationType.CURRENT:
                     new_types_dict[n] = (t, 0.0)
+                elif t == ExcitationType.MAGNETOSTATIC_POT:
+                    new_types_dict[n] = (t, 0.0)
                 else:
                     new_types_dict[n] = (t, v)
             
diff --git a/traceon/solver.py b/traceon/solver.py
index 2fa6859..d3ec034 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -418,19 +418,30 @@ def solve_direct_superposition(excitation):
     # Speedup: invert matrix only once, when using superposition
     excitations = excitation._split_for_superposition()
     
+    # An excitation with a unit voltage produces only an electrostatic field, while an
+    # excitation with a unit current or magnetostatic potential produces only a magnetostatic field.
+    types = excitation.excitation_types
+    elec_names = [n for n in excitations if types[n][0].is_electrostatic()]
+    mag_names = [n for n in excitations if types[n][0].is_magnetostatic()]
+    fields = {}
+    
     # Solve for elec fields
-    elec_names = [n for n, v in excitations.items() if v.is_electrostatic()]
-    right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
-    solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
-    elec_dict = {n:s for n, s in zip(elec_names, solutions)}
+    if elec_names:
+        right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
+        fields.update(zip(elec_names, ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)))
     
     # Solve for mag fields 
-    mag_names = [n for n, v in excitations.items() if v.is_magnetostatic()]
-    right_hand_sides = np.array([MagnetostaticSolver(excitations[n]).get_right_hand_side() for n in mag_names])
-    solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
-    mag_dict = {n:s for n, s in zip(mag_names, solutions)}
+    if mag_names:
+        solvers = [MagnetostaticSolver(excitations[n]) for n in mag_names]
+        right_hand_sides = np.array([s.get_right_hand_side() for s in solvers])
+        solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
         
-    return {**elec_dict, **mag_dict}
+        for name, solver, field in zip(mag_names, solvers, solutions):
+            # The matrix is shared between the solutions, the currents are not
+            field.current_point_charges = solver.current_charges
+            fields[name] = field
+     
+    return fields
 
 def solve_direct(excitation):
     """
-- 
2.43.0


From e2e202e9fc3bd17909b0535966b4e02bcb6e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 28/63] fix: named groups were lost when converting a mesh to
 meshio, and Mesh.read could not read what Mesh.write wrote

---
 traceon/mesher.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index a1b0eda..aec87b8 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -379,7 +379,10 @@ class Mesh(Saveable, GeometricObject):
     
     def write(self, filename):
         self.write_file(filename)
-        
+    
+    @staticmethod
+    def read(filename):
+        return Mesh.read_file(filename)
      
     def to_meshio(self):
         """Convert the Mesh to a meshio object.
@@ -388,16 +391,23 @@ class Mesh(Saveable, GeometricObject):
         ------------------------------------
         meshio.Mesh"""
         to_write = []
+        physical = []
         
+        # Not all meshio formats support unsigned integers
         if len(self.lines):
             line_type = 'line' if self.lines.shape[1] == 2 else 'line4'
-            to_write.append( (line_type, self.lines) )
+            to_write.append( (line_type, self.lines.astype(np.int64)) )
+            physical.append(self.physical_to_lines)
         
         if len(self.triangles):
             triangle_type = 'triangle' if self.triangles.shape[1] == 3 else 'triangle6'
-            to_write.append( (triangle_type, self.triangles) )
+            to_write.append( (triangle_type, self.triangles.astype(np.int64)) )
+            physical.append(self.physical_to_triangles)
+        
+        empty = np.empty( (0,), dtype=np.int64)
+        cell_sets = {name: [p.get(name, empty) for p in physical] for name in dict.fromkeys(chain(*physical))}
         
-        return meshio.Mesh(self.points, to_write)
+        return meshio.Mesh(self.points, to_write, cell_sets=cell_sets)
      
     @staticmethod
     def from_meshio(mesh: meshio.Mesh):
-- 
2.43.0


From 915962b0c2da2845fcaa075ebe53ea6557807c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 29/63] fix: plot_mesh truncated the color names of triangles
 and used an invalid default color for lines

---
 traceon/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 3bf7ec6..49961e2 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -263,7 +263,7 @@ def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
-    colors = np.full(len(triangles), '#CCCCCC')
+    colors = np.full(len(triangles), '#CCCCCC', dtype=object)
     dict_ = _create_point_to_physical_dict(mesh)
     
     for i, (A, B, C) in enumerate(triangles):
@@ -359,7 +359,7 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     points = mesh.points 
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCC'
+            color = '#CCCCCC'
             
             if A in dict_ and B in dict_:
                 phys1, phys2 = dict_[A], dict_[B]
-- 
2.43.0


From 1d307337ca51ab368e6828bddbfd8e3a394504f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 30/63] fix: flux of a triangle was wrong or NaN when the
 dimensions are in the order of micrometers

---
 traceon/backend/triangle.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index f24dfd3..163574e 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -130,10 +130,14 @@ double _flux_integrand(double y, void *args_p) {
 
 	flux[0] = 1 / sqrt(r2 + xmax2) - 1 / sqrt(r2 + xmin2);
 
-	// Singularity when r2 is small...
-	if (fabs(r2) < 1e-9) {
-		flux[1] = ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
-		flux[2] = -((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
+	// Cancellation when r2 is small, compared to the dimensions of the triangle...
+	if (xmin*xmax > 0.0 && r2 < 1e-9*MIN(xmin2, xmax2)) {
+		double sign = xmin > 0.0 ? 1.0 : -1.0;
+		flux[1] = sign * (xmin2 - xmax2) * (y + y0) / (2.0 * xmax2 * xmin2);
+		flux[2] = -sign * (xmin2 - xmax2) * z / (2.0 * xmax2 * xmin2);
+	} else if (r2 == 0.0) {
+		flux[1] = 0.0;
+		flux[2] = 0.0;
 	} else {
 		double denom_max = r2 * sqrt(r2 + xmax2);
 		double denom_min = r2 * sqrt(r2 + xmin2);
-- 
2.43.0


From 15ac586fdac10d8a294a13ea5a4dbc478786e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 31/63] fix: triangles with dimensions in the order of
 micrometers were removed as being degenerate

---
 traceon/mesher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index aec87b8..f89ab00 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -210,8 +210,13 @@ class Mesh(Saveable, GeometricObject):
         return Mesh(new_points, self.lines, self.triangles, self.physical_to_lines, self.physical_to_triangles)
     
     def _remove_degenerate_triangles(self):
+        if not len(self.triangles):
+            return
+        
         areas = triangle_areas(self.points[self.triangles[:,:3]])
-        degenerate = areas < 1e-12
+        # Small triangles are not degenerate when the geometry itself is small
+        extent = np.max(np.ptp(self.points, axis=0))
+        degenerate = areas <= 1e-12*min(1.0, extent**2)
         map_index = np.arange(len(self.triangles)) - np.cumsum(degenerate)
          
         self.triangles = self.triangles[~degenerate]
-- 
2.43.0


From 6d7794104bbc6918cd086e0f4205f413df61a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 32/63] fix: plane_intersection read out of bounds for an empty
 trajectory

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 44d065c..3dd1676 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -618,7 +618,7 @@ def plane_intersection(positions, p0, normal):
     assert positions.shape == (len(positions), 6)
     
     result = np.zeros(6)
-    found = backend_lib.plane_intersection(p0, normal, positions, len(positions), result)
+    found = len(positions) > 1 and backend_lib.plane_intersection(p0, normal, positions, len(positions), result)
      
     if not found:
         raise ValueError("Plane intersection not found. Does the trajectory actually cross the plane?")
-- 
2.43.0


From 58b055a598c0899651ba7cd33c479b109332481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 33/63] fix: plane_intersection reported an intersection for
 trajectories that do not cross the plane

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 3dd1676..8bd5ec6 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -188,7 +188,7 @@ backend_functions = {
     'fill_matrix_radial': (None, arr(ndim=2), lines, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_2d, pos_buffer_2d, sz, sz, C.c_int, C.c_int),
     'fill_jacobian_buffer_3d': (None, jac_buffer_3d, pos_buffer_3d, vertices, sz),
     'fill_matrix_3d': (None, arr(ndim=2), vertices, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_3d, pos_buffer_3d, sz, sz, C.c_int, C.c_int),
-    'plane_intersection': (bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
+    'plane_intersection': (C.c_bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
     'triangle_areas': (None, vertices, arr(ndim=1), sz)
 }
 
-- 
2.43.0


From 24367c9c844295f89aa9d26c288441907f6291e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 34/63] fix: joining a path to a joined or cut path failed by
 rounding of the path lengths

---
 traceon/geometry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 7a38aa5..340fe44 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -227,12 +227,15 @@ class Path(GeometricObject):
         total = self.path_length + other.path_length
          
         def f(t):
-            assert 0 <= t <= total
+            # The path lengths are rounded when they are added and subtracted (by cutting,
+            # or by combining paths of paths), so t might end up slightly outside the range.
+            tolerance = 1e-10*total
+            assert -tolerance <= t <= total + tolerance
             
             if t <= self.path_length:
-                return self(t)
+                return self(max(t, 0.))
             else:
-                return other(t - self.path_length)
+                return other(min(t - self.path_length, other.path_length))
         
         return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
 
-- 
2.43.0


From e2024f38eb73c7b22fb7e0ff68bfcf70899461f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 35/63] fix: rotating by a zero angle raised a NameError

---
 traceon/mesher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index f89ab00..5f55a37 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -88,6 +88,8 @@ class GeometricObject(ABC):
         origin = np.array(origin)
         assert origin.shape == (3,), "Please supply a 3D point for origin"
          
+        matrix = np.eye(3) # Nothing to rotate if all angles are zero
+         
         if Rx != 0.:
             matrix = np.array([[1, 0, 0],
                 [0, np.cos(Rx), -np.sin(Rx)],
-- 
2.43.0


From acecfb50870a91b98686c461d900eaeccdf1a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 36/63] fix: breakpoints of the second path were not shifted
 when joining paths

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 340fe44..6a9919d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -237,7 +237,7 @@ class Path(GeometricObject):
             else:
                 return other(min(t - self.path_length, other.path_length))
         
-        return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
+        return Path(f, total, self.breakpoints + [self.path_length] + [self.path_length + b for b in other.breakpoints], name=self.name)
 
     def starting_point(self):
         """Returns the starting point of the path.
-- 
2.43.0


From 7bfe8cbecd9f06003b54880dccdfbf1ee4e94ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 37/63] fix: revolving the boundary of a surface that touches
 the axis produced NaN points

---
 traceon/geometry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 6a9919d..6546993 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1166,6 +1166,13 @@ class Surface(GeometricObject):
         
         return boundary
 
+    def _get_boundary_paths_off_axis(self, i, j):
+        # Boundary paths lying on the axis of revolution do not sweep out a surface. The
+        # coordinates i and j are the coordinates perpendicular to the axis.
+        boundary = self.get_boundary_paths()
+        return PathCollection([p for p in boundary.paths
+                    if p.average(lambda x: sqrt(x[i]**2 + x[j]**2)) > 1e-10*p.path_length])
+    
     def extrude_boundary(self, vector, enclose=True):
         """
         Extrude the boundary paths of the surface along a vector. The vector gives both
@@ -1232,7 +1239,7 @@ class Surface(GeometricObject):
         -----------------------
         SurfaceCollection"""
 
-        boundary = self.get_boundary_paths()
+        boundary = self._get_boundary_paths_off_axis(1, 2)
         revolved_boundary = boundary.revolve_x(angle)
 
         if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
@@ -1255,7 +1262,7 @@ class Surface(GeometricObject):
         -----------------------
         SurfaceCollection"""
 
-        boundary = self.get_boundary_paths()
+        boundary = self._get_boundary_paths_off_axis(0, 2)
         revolved_boundary = boundary.revolve_y(angle)
 
         if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
@@ -1278,7 +1285,7 @@ class Surface(GeometricObject):
         -----------------------
         SurfaceCollection"""
 
-        boundary = self.get_boundary_paths()
+        boundary = self._get_boundary_paths_off_axis(0, 1)
         revolved_boundary = boundary.revolve_z(angle)
         
         if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
-- 
2.43.0


From 400b59bee780b3b72839cc3589bbe67d74aadffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 38/63] fix: parts of a surface were not meshed when quads were
 split in one direction after the other

---
 traceon/mesher.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 5f55a37..ff87425 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1018,17 +1018,19 @@ def _subdivide_quads(pstack, mesh_size, to_subdivide=[], quads=[]):
         h = horizontal > ms or (horizontal > 2.5*vertical and horizontal > 1/8*ms)
         v = vertical > ms or (vertical > 2.5*horizontal and vertical > 1/8*ms)
             
+        # Note that a quad which has been split in only one direction spans multiple
+        # indices in the other direction, and that i0+i1 is halfway 2*i0 and 2*i1.
         if h and v: # Split both horizontally and vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0+1, 2*j0+2))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0+1, 2*j0+2))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, j0+j1, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, j0+j1, 2*j1))
         elif h and not v: # Split only horizontally
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0+1, 2*j0+2)) 
+            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, j0+j1))
+            to_subdivide.append((depth+1, 2*i0, 2*i1, j0+j1, 2*j1)) 
         elif v and not h: # Split only vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, 2*i0, i0+i1, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, i0+i1, 2*i1, 2*j0, 2*j1))
         else: # We are done, both sides are within mesh size limits
             quads.append((depth, i0, i1, j0, j1))
 
-- 
2.43.0


From bd266b0e345f6853af18712b5c514a2e985fce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 39/63] fix: coincident points around zero were not merged,
 leaving connected surfaces disconnected

---
 traceon/mesher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index ff87425..b1e8892 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -237,7 +237,10 @@ class Mesh(Saveable, GeometricObject):
         # Step 1: Make a copy of the points array using np.array
         points_copy = np.array(self.points, dtype=np.float64)
 
-        # Step 2: Zero the low 16 bits of the mantissa of the X, Y, Z coordinates
+        # Step 2: Round off the low 16 bits of the mantissa of the X, Y, Z coordinates. Rounding errors
+        # around zero are not in the low bits, so these need to be removed separately.
+        points_copy[np.abs(points_copy) < 1e-14*np.max(np.abs(points_copy))] = 0.
+        points_copy.view(np.uint64)[:] += np.uint64(0x8000)
         points_copy.view(np.uint64)[:] &= np.uint64(0xFFFFFFFFFFFF0000)
 
         # Step 3: Use Numpy lexsort directly on points_copy
-- 
2.43.0


From a77ff8716cd2bb6ca7983219ddeb64d6336b0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 40/63] fix: extracting a group of lines and triangles lost the
 triangles

---
 traceon/mesher.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index b1e8892..68fa4ce 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -330,28 +330,27 @@ class Mesh(Saveable, GeometricObject):
         Subset of the mesh consisting only of the elements with the given name."""
         assert name in self.physical_to_lines or name in self.physical_to_triangles, "Physical group not in mesh, so cannot extract"
 
+        lines, triangles = self.lines[:0], self.triangles[:0]
+        physical_to_lines, physical_to_triangles = {}, {}
+
+        # Note that a group can contain both lines and triangles
         if name in self.physical_to_lines:
-            elements = self.lines
-            physical = self.physical_to_lines
-        elif name in self.physical_to_triangles:
-            elements = self.triangles
-            physical = self.physical_to_triangles
-         
-        elements_indices = np.unique(physical[name])
-        elements = elements[elements_indices]
+            lines = self.lines[np.unique(self.physical_to_lines[name])]
+            physical_to_lines = {name:np.arange(len(lines))}
+        
+        if name in self.physical_to_triangles:
+            triangles = self.triangles[np.unique(self.physical_to_triangles[name])]
+            physical_to_triangles = {name:np.arange(len(triangles))}
           
         points_mask = np.full(len(self.points), False)
-        points_mask[elements] = True
+        points_mask[lines] = True
+        points_mask[triangles] = True
         points = self.points[points_mask]
           
         new_index = np.cumsum(points_mask) - 1
-        elements = new_index[elements]
-        physical_to_elements = {name:np.arange(len(elements))}
-         
-        if name in self.physical_to_lines:
-            return Mesh(points=points, lines=elements, physical_to_lines=physical_to_elements)
-        elif name in self.physical_to_triangles:
-            return Mesh(points=points, triangles=elements, physical_to_triangles=physical_to_elements)
+        
+        return Mesh(points=points, lines=new_index[lines], triangles=new_index[triangles],
+            physical_to_lines=physical_to_lines, physical_to_triangles=physical_to_triangles)
      
     @staticmethod
     def read_file(filename,  name=None):
-- 
2.43.0


From d1858e44f86bbb3bcfdacd1a6711f685c80abff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 41/63] fix: the name given to read_file was also given to
 groups without elements, and its normals were not oriented

---
 traceon/mesher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 68fa4ce..eda1838 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -370,8 +370,12 @@ class Mesh(Saveable, GeometricObject):
         mesh = Mesh.from_meshio(meshio_obj)
          
         if name is not None:
-            mesh.physical_to_lines[name] = np.arange(len(mesh.lines))
-            mesh.physical_to_triangles[name] = np.arange(len(mesh.triangles))
+            if len(mesh.lines):
+                mesh.physical_to_lines[name] = np.arange(len(mesh.lines))
+            if len(mesh.triangles):
+                mesh.physical_to_triangles[name] = np.arange(len(mesh.triangles))
+            
+            mesh.ensure_outward_normals(name)
          
         return mesh
      
-- 
2.43.0


From 046c9dda1804b9b74ba19ba77b24610d8309b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 42/63] fix: orienting the normals of higher order triangles
 raised an exception

---
 traceon/mesher.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index eda1838..3e1758a 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -732,11 +732,19 @@ def _are_line_normals_pointing_outwards(lines, points):
 ## Code related to ensuring normals over a connected surface/path agree in orientation.
 ## These functios allow us to flip all normals 'inward' or all 'outward'
 
+def _flip_triangle(triangle):
+    # The last three points of a higher order triangle are the midpoints of its edges
+    order = [0, 2, 1] if len(triangle) == 3 else [0, 2, 1, 5, 4, 3]
+    return triangle[order]
+
 def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
      
-    vertex_to_triangles = _compute_vertex_to_indices(triangles)
+    # The backend expects only the corners of a (possibly higher order) triangle
+    corners = np.array(triangles[:, :3], dtype=np.uint64, order='C')
+     
+    vertex_to_triangles = _compute_vertex_to_indices(corners)
         
     oriented = np.full(len(triangles), False)
     active = [0]
@@ -744,13 +752,13 @@ def _reorient_triangles(triangles, points):
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
      
-    triangles_ctypes = triangles.ctypes.data_as(C.c_void_p)
+    triangles_ctypes = corners.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
     while active:
         ti = active.pop()
 
-        for n in _get_element_neighbours(triangles[ti], vertex_to_triangles):
+        for n in _get_element_neighbours(corners[ti], vertex_to_triangles):
             assert 0 <= n < len(triangles)
             
             if oriented[n]:
@@ -761,8 +769,8 @@ def _reorient_triangles(triangles, points):
             if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
                 continue
             elif equal_orientation == 0: # Not equal orientation
-                v0, v1, v2 = triangles[n]
-                triangles[n] = [v0, v2, v1] # Flip normal
+                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+                corners[n] = triangles[n, :3]
              
             oriented[n] = True
             active.append(n)
@@ -776,8 +784,7 @@ def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     
     if outwards != should_be_outwards:
         for i in range(len(triangles)):
-            v0, v1, v2 = triangles[i]
-            triangles[i] = [v0, v2, v1]
+            triangles[i] = _flip_triangle(triangles[i])
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From 382c76aa4d6370b0c008aa3f04e7c24dcd2e5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 43/63] fix: the first triangle of a surface was flipped
 relative to the triangles it shares no complete edge with

---
 traceon/mesher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 3e1758a..9ad2e11 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -746,7 +746,9 @@ def _reorient_triangles(triangles, points):
      
     vertex_to_triangles = _compute_vertex_to_indices(corners)
         
+    # The first triangle is the reference, and should not be flipped with respect to itself
     oriented = np.full(len(triangles), False)
+    oriented[0] = True
     active = [0]
 
     assert triangles.dtype == np.uint64
-- 
2.43.0


From c9b877c49a55b8d22992571de14e31b4761c36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 44/63] fix: normals of elements that are only connected to
 elements of a different size were not oriented

---
 traceon/mesher.py | 61 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9ad2e11..9b81ab9 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -2,7 +2,7 @@ from math import sqrt
 import numpy as np
 import time
 from typing import Callable, Any
-from itertools import chain
+from itertools import chain, combinations
 from abc import ABC, abstractmethod
 import ctypes as C
 from typing import Dict
@@ -737,6 +737,39 @@ def _flip_triangle(triangle):
     order = [0, 2, 1] if len(triangle) == 3 else [0, 2, 1, 5, 4, 3]
     return triangle[order]
 
+def _walks_edge(triangle, v0, v1):
+    # Whether vertex v1 directly follows v0 in the triangle
+    return any(triangle[i-1] == v0 and triangle[i] == v1 for i in range(3))
+
+def _get_split_edges(triangles, points):
+    # When elements of different size meet on a curved surface, the larger triangle does not share 
+    # its edge with the smaller triangles. The edges do share a vertex, and are almost parallel. Find 
+    # these pairs of edges (most parallel first) among the edges that belong to a single triangle.
+    edge_to_triangles: Dict[tuple, list] = {}
+    
+    for index, (v0, v1, v2) in enumerate(triangles):
+        for a, b in [(v0, v1), (v1, v2), (v2, v0)]:
+            edge_to_triangles.setdefault((min(a,b), max(a,b)), []).append(index)
+    
+    vertex_to_edges: Dict[int, list] = {}
+    
+    for (a, b), indices in edge_to_triangles.items():
+        if len(indices) == 1:
+            vertex_to_edges.setdefault(a, []).append( (indices[0], b) )
+            vertex_to_edges.setdefault(b, []).append( (indices[0], a) )
+    
+    pairs = []
+    
+    for v, edges in vertex_to_edges.items():
+        for (t1, w1), (t2, w2) in combinations(edges, 2):
+            e1, e2 = points[w1] - points[v], points[w2] - points[v]
+            cos_angle = np.dot(e1, e2) / (np.linalg.norm(e1)*np.linalg.norm(e2))
+            
+            if t1 != t2 and cos_angle > 0.7:
+                pairs.append( (-cos_angle, v, t1, w1, t2, w2) )
+    
+    return [p[1:] for p in sorted(pairs)]
+
 def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
@@ -757,6 +790,12 @@ def _reorient_triangles(triangles, points):
     triangles_ctypes = corners.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
+    def flip(n):
+        triangles[n] = _flip_triangle(triangles[n]) # Flip normal
+        corners[n] = triangles[n, :3]
+    
+    split_edges = None
+    
     while active:
         ti = active.pop()
 
@@ -771,11 +810,27 @@ def _reorient_triangles(triangles, points):
             if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
                 continue
             elif equal_orientation == 0: # Not equal orientation
-                triangles[n] = _flip_triangle(triangles[n]) # Flip normal
-                corners[n] = triangles[n, :3]
+                flip(n)
              
             oriented[n] = True
             active.append(n)
+        
+        if active or np.all(oriented):
+            continue
+        
+        # The remaining triangles share no complete edge with the triangles oriented so far
+        if split_edges is None:
+            split_edges = _get_split_edges(corners, points)
+        
+        for vertex, t1, w1, t2, w2 in split_edges:
+            if oriented[t1] != oriented[t2]:
+                # The orientation is equal if the edges are walked in opposite directions
+                if _walks_edge(corners[t1], vertex, w1) == _walks_edge(corners[t2], vertex, w2):
+                    flip(t2 if oriented[t1] else t1)
+                
+                active.append(t2 if oriented[t1] else t1)
+                oriented[t1] = oriented[t2] = True
+                break
 
 def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     # Ensure the triangles forming a closed surface have their
-- 
2.43.0


From d4232ea05ca709c1ca84f158fe2792c3fc1a49ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 45/63] fix: tracing read freed memory when the arrays of the
 effective point charges are not contiguous

---
 traceon/backend/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 8bd5ec6..2ecfbc2 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -108,9 +108,12 @@ class EffectivePointCharges2D(C.Structure):
         assert eff.is_2d()
         super(EffectivePointCharges2D, self).__init__(*args, **kwargs)
          
-        self.charges = ensure_contiguous_aligned(eff.charges).ctypes.data_as(dbl_p)
-        self.jacobians = ensure_contiguous_aligned(eff.jacobians).ctypes.data_as(dbl_p)
-        self.positions = ensure_contiguous_aligned(eff.positions).ctypes.data_as(dbl_p)
+        # Keep the arrays alive, the pointers do not own their data
+        self._arrays = [ensure_contiguous_aligned(a) for a in (eff.charges, eff.jacobians, eff.positions)]
+         
+        self.charges = self._arrays[0].ctypes.data_as(dbl_p)
+        self.jacobians = self._arrays[1].ctypes.data_as(dbl_p)
+        self.positions = self._arrays[2].ctypes.data_as(dbl_p)
         self.N = len(eff)
         
 class EffectivePointCharges3D(C.Structure):
@@ -125,9 +128,12 @@ class EffectivePointCharges3D(C.Structure):
         assert eff.is_3d()
         super(EffectivePointCharges3D, self).__init__(*args, **kwargs)
          
-        self.charges = ensure_contiguous_aligned(eff.charges).ctypes.data_as(dbl_p)
-        self.jacobians = ensure_contiguous_aligned(eff.jacobians).ctypes.data_as(dbl_p)
-        self.positions = ensure_contiguous_aligned(eff.positions).ctypes.data_as(dbl_p)
+        # Keep the arrays alive, the pointers do not own their data
+        self._arrays = [ensure_contiguous_aligned(a) for a in (eff.charges, eff.jacobians, eff.positions)]
+         
+        self.charges = self._arrays[0].ctypes.data_as(dbl_p)
+        self.jacobians = self._arrays[1].ctypes.data_as(dbl_p)
+        self.positions = self._arrays[2].ctypes.data_as(dbl_p)
         self.N = len(eff)
 
 bounds = arr(shape=(3, 2))
-- 
2.43.0


From 96b0b315c7be48bbe626b41ca15457356a3ab28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 46/63] fix: axial fields could not be evaluated at a point
 given as integers

---
 traceon/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 61cf59b..e94dcb3 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -152,7 +152,7 @@ class FieldRadialAxial(FieldAxial):
         -------
         Numpy array containing the field strengths (in units of V/mm) in the r and z directions.
         """
-        point = np.array(point_)
+        point = np.array(point_, dtype=np.double)
         assert point.shape == (3,), "Please supply a three dimensional point"
         return backend.field_radial_derivs(point, self.z, self.electrostatic_coeffs)
     
@@ -169,7 +169,7 @@ class FieldRadialAxial(FieldAxial):
         -------
         (2,) np.ndarray of float64 containing the field strength (in units of A/m) in the x, y and z directions.
         """
-        point = np.array(point_)
+        point = np.array(point_, dtype=np.double)
         assert point.shape == (3,), "Please supply a three dimensional point"
         return backend.field_radial_derivs(point, self.z, self.magnetostatic_coeffs)
      
@@ -186,7 +186,7 @@ class FieldRadialAxial(FieldAxial):
         -------
         Potential as a float value (in units of V).
         """
-        point = np.array(point_)
+        point = np.array(point_, dtype=np.double)
         assert point.shape == (3,), "Please supply a three dimensional point"
         return backend.potential_radial_derivs(point, self.z, self.electrostatic_coeffs)
     
@@ -203,7 +203,7 @@ class FieldRadialAxial(FieldAxial):
         -------
         Potential as a float value (in units of A).
         """
-        point = np.array(point_)
+        point = np.array(point_, dtype=np.double)
         assert point.shape == (3,), "Please supply a three dimensional point"
         return backend.potential_radial_derivs(point, self.z, self.magnetostatic_coeffs)
     
-- 
2.43.0


From dc9e5e983d0491ff2510bfd14f0cb74481990dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 47/63] fix: breakpoints of paths and surfaces were shared with
 the caller

---
 traceon/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 6546993..17f03a3 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -77,7 +77,7 @@ class Path(GeometricObject):
         # and returns the point on the path
         self.fun = fun
         self.path_length = path_length
-        self.breakpoints = breakpoints
+        self.breakpoints = list(breakpoints) # not shared with the caller, nor with other paths
         self.name = name
     
     @staticmethod
@@ -840,8 +840,8 @@ class Surface(GeometricObject):
         self.fun = fun
         self.path_length1 = path_length1
         self.path_length2 = path_length2
-        self.breakpoints1 = breakpoints1
-        self.breakpoints2 = breakpoints2
+        self.breakpoints1 = list(breakpoints1)
+        self.breakpoints2 = list(breakpoints2)
         self.name = name
 
     def _sections(self): 
-- 
2.43.0


From e3d831839449eb791b672a6d2bebcde7606c3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 48/63] fix: meshes shared the index arrays of their groups
 with the meshes they were made from

---
 traceon/mesher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9b81ab9..7c198e5 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -175,8 +175,8 @@ class Mesh(Saveable, GeometricObject):
         else:
             self.triangles = np.empty((0, 3), dtype=np.uint64)
          
-        self.physical_to_lines = physical_to_lines.copy()
-        self.physical_to_triangles = physical_to_triangles.copy()
+        self.physical_to_lines = {k:np.copy(v) for k, v in physical_to_lines.items()}
+        self.physical_to_triangles = {k:np.copy(v) for k, v in physical_to_triangles.items()}
 
         self._remove_degenerate_triangles()
         self._deduplicate_points()
-- 
2.43.0


From 7e5c03f7481e25e89793c620880cc739709e75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 49/63] fix: velocity_vec overflowed for directions of narrow
 integers

---
 traceon/tracing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index 18d6386..df2cac8 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -37,13 +37,13 @@ def velocity_vec(eV, direction_):
     """
     assert eV > 0.0, "Please provide a positive energy in eV"
 
-    direction = np.array(direction_)
+    direction = np.array(direction_, dtype=np.float64)
     assert direction.shape == (3,), "Please provide a three dimensional direction vector"
     
     if eV > 40000:
         logging.log_warning(f'Velocity vector with large energy ({eV} eV) requested. Note that relativistic tracing is not yet implemented.')
     
-    return eV * np.array(direction)/np.linalg.norm(direction)
+    return eV * direction/np.linalg.norm(direction)
 
 def velocity_vec_spherical(eV, theta, phi):
     """Compute initial velocity vector given energy and direction computed from spherical coordinates.
-- 
2.43.0


From a857628bc257659f34ce87a2245a3eaefadf7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 50/63] fix: complete elliptic integral K loses ten digits for
 parameters between -1 and 0

---
 traceon/backend/elliptic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index e754fe5..e7f2580 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -35,7 +35,7 @@ EXPORT double ellipkm1(double p) {
 }
 
 EXPORT double ellipk(double k) {
-	if(k > -1) return ellipkm1(1-k);
+	if(k >= 0) return ellipkm1(1-k);
 	
 	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
-- 
2.43.0


From 999ae80b719545a1b6e6e91df4432bda9ba1f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 51/63] fix: potential of a triangle is wrong when the triangle
 is small

---
 traceon/backend/triangle.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index 163574e..33a751b 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -38,11 +38,12 @@ double _potential_integrand(double y, void *args_p) {
 		
 	double denom = sqrt((y+args.y0)*(y+args.y0) + args.z*args.z);
 
-	if(denom < 1e-12) {
+	if(denom < 1e-12*fmax(fabs(xmin), fabs(xmax))) {
 		// The asinh(xmax/denom) - asinh(xmin/denom) is numerical 
 		// unstable when denom is small. Taking the taylor expansion
 		// of denom -> 0 we find
-		return log(fabs(xmax)) - log(fabs(xmin));
+		double ln = log(fabs(xmax)) - log(fabs(xmin));
+		return xmax > 0.0 ? ln : -ln;
 	}
     return asinh(xmax/denom) - asinh(xmin/denom);
 }
@@ -73,7 +74,8 @@ potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	
 	struct _normalized_triangle tri = {x0, y0, a,b,c,z};
 
-	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	// The integrand is dimensionless, so the absolute tolerance scales with the interval
+	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9*c, 1e-9);
 }
 
 EXPORT double self_potential_triangle_v0(double v0[3], double v1[3], double v2[3]) {
-- 
2.43.0


From 9fd367ff805967d7b396db8b255775f00f10fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 52/63] fix: self potential of small radial elements is
 integrated to an absolute tolerance only

---
 traceon/backend/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 2ecfbc2..c0e6158 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -561,7 +561,8 @@ def self_potential_radial(vertices):
     assert vertices.shape == (4,3) and vertices.dtype == np.double
     user_data = vertices.ctypes.data_as(C.c_void_p)
     low_level = LowLevelCallable(backend_lib.self_potential_radial, user_data=user_data)
-    return quad(low_level, -1, 1, points=(0,), epsabs=1e-9, epsrel=1e-9, limit=250)[0]
+    # The integral is proportional to the size of the element, only a relative tolerance works at every scale
+    return quad(low_level, -1, 1, points=(0,), epsabs=0., epsrel=1e-9, limit=250)[0]
 
 class SelfFieldDotNormalRadialArgs(C.Structure):
     _fields_ = [("line_points", C.POINTER(C.c_double)), ("K", C.c_double)]
-- 
2.43.0


From 07969af1d122708d2e8c71d22edb59eef28e0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 53/63] fix: magnetic field of a current loop is NaN within
 1e-8 of the loop

---
 traceon/backend/radial_ring.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/traceon/backend/radial_ring.c b/traceon/backend/radial_ring.c
index 8d1b6ef..5068cda 100644
--- a/traceon/backend/radial_ring.c
+++ b/traceon/backend/radial_ring.c
@@ -84,7 +84,8 @@ current_field_radial_ring(double x0, double y0, double x, double y, double resul
 	double A = pow(z, 2) + pow(a+r, 2);
 	double B = pow(z, 2) + pow(r-a, 2);
 	
-	double k = 4*r*a/A;
+	// Complementary parameter 1 - 4*r*a/A, computed without cancellation close to the ring
+	double p = B/A;
 	
 	if(x < MIN_DISTANCE_AXIS) {
 		// Unphysical situation, infinitely small ring
@@ -98,9 +99,9 @@ current_field_radial_ring(double x0, double y0, double x, double y, double resul
 		result[0] = 0.;
 	}
 	else {
-		result[0] = 1./M_PI * z/(2*r*sqrt(A)) * ( (pow(z,2) + pow(r,2) + pow(a,2))/B * ellipe(k) - ellipk(k) );
+		result[0] = 1./M_PI * z/(2*r*sqrt(A)) * ( (pow(z,2) + pow(r,2) + pow(a,2))/B * ellipem1(p) - ellipkm1(p) );
 	}
-	result[1] = 1./M_PI * 1/(2*sqrt(A)) * ( (pow(a,2) - pow(z,2) - pow(r,2))/B * ellipe(k) + ellipk(k) );
+	result[1] = 1./M_PI * 1/(2*sqrt(A)) * ( (pow(a,2) - pow(z,2) - pow(r,2))/B * ellipem1(p) + ellipkm1(p) );
 }
 
 EXPORT void
-- 
2.43.0


From b7d8325103597398f073a886ff205bbde9b5ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:07 +0000
Subject: [PATCH 54/63] fix: reject a voltage function in superposition also
 when no fixed excitation is non-zero

---
 traceon/excitation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index 9b6f044..9d13876 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -232,6 +232,7 @@ class Excitation:
         
         # Names that have a fixed voltage excitation, not equal to 0.0
         types = self.excitation_types
+        assert all(t != ExcitationType.VOLTAGE_FUN for t, _ in types.values()), "VOLTAGE_FUN excitation not supported for superposition."
         non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
                                                                     ExcitationType.CURRENT,
                                                                     ExcitationType.MAGNETOSTATIC_POT] and v != 0.0]
@@ -243,8 +244,6 @@ class Excitation:
             new_types_dict = {}
              
             for n, (t, v) in types.items():
-                assert t != ExcitationType.VOLTAGE_FUN, "VOLTAGE_FUN excitation not supported for superposition."
-                 
                 if n == name:
                     new_types_dict[n] = (t, 1.0)
                 elif t == ExcitationType.VOLTAGE_FIXED:
-- 
2.43.0


From bb3fe8eb611fdd10f2c9ec2dc1f95a184eb2121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 55/63] fix: reject a current that is not finite, as potentials
 are

---
 traceon/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/solver.py b/traceon/solver.py
index d3ec034..1826b10 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -295,6 +295,7 @@ class MagnetostaticSolver(Solver):
             # Current supplied is total current, not a current density, therefore
             # divide by the area.
             area = np.sum(jac[indices])
+            assert np.isfinite(v[1]), f"Current applied to '{n}' should be finite"
             currents.extend(np.full(len(indices), v[1]/area))
             jacobians.extend(jac[indices])
             positions.extend(pos[indices])
-- 
2.43.0


From a3756d8ecf38e1aeff130c2333e8f5eed0358034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 56/63] fix: colour the elements of a group in plots, not the
 elements whose points are in it

---
 traceon/plotting.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 49961e2..f74dfce 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -249,28 +249,20 @@ def _get_vedo_grid(field, surface, N0, N1):
 
     return grid
     
-def _create_point_to_physical_dict(mesh):
-    d = {}
+def _get_element_colors(N, physical_to_elements, phys_colors):
+    colors = np.full(N, '#CCCCCC', dtype=object)
     
-    for physical, elements in [(mesh.physical_to_lines, mesh.lines), (mesh.physical_to_triangles, mesh.triangles)]:
-        for k, v in physical.items():
-            for element_index in v:
-                for p in elements[element_index]:
-                    d[p] = k
-    return d
+    for name, indices in physical_to_elements.items():
+        if name in phys_colors:
+            colors[indices] = phys_colors[name]
+     
+    return colors
 
 def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
-    colors = np.full(len(triangles), '#CCCCCC', dtype=object)
-    dict_ = _create_point_to_physical_dict(mesh)
-    
-    for i, (A, B, C) in enumerate(triangles):
-        if A in dict_ and B in dict_ and C in dict_:
-            phys1, phys2, phys3 = dict_[A], dict_[B], dict_[C]
-            if phys1 == phys2 and phys2 == phys3 and phys1 in phys_colors:
-                colors[i] = phys_colors[phys1]
+    colors = _get_element_colors(len(triangles), mesh.physical_to_triangles, phys_colors)
      
     meshes = []
     
@@ -353,23 +345,14 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     lines = mesh.lines[:, :2]
     start = np.zeros( (len(lines), 3) )
     end = np.zeros( (len(lines), 3) )
-    colors_ = np.zeros(len(lines), dtype=object) 
+    colors_ = _get_element_colors(len(lines), mesh.physical_to_lines, phys_colors)
     normals = []
-    dict_ = _create_point_to_physical_dict(mesh)
     points = mesh.points 
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCCC'
-            
-            if A in dict_ and B in dict_:
-                phys1, phys2 = dict_[A], dict_[B]
-                if phys1 == phys2 and phys1 in phys_colors:
-                    color = phys_colors[phys1]
-            
             p1, p2 = points[A], points[B]
             start[i] = p1
             end[i] = p2
-            colors_[i] = color
 
             normal = backend.normal_2d(np.array([p1[0], p1[2]]), np.array([p2[0], p2[2]])) 
             normals.append(np.array([normal[0], 0.0, normal[1]]))
-- 
2.43.0


From 66d17d80b022d334e63cd3a5d463151ae967bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 57/63] fix: plot charge density on the elements that are
 charged, not on coils or on lines in 3D

---
 traceon/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index f74dfce..09b97b7 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -155,11 +155,11 @@ class Figure:
         if not len(mesh.triangles) and not len(mesh.lines):
             raise RuntimeError("Trying to plot empty mesh.")
         
-        if len(mesh.triangles):
+        # The charges are on the triangles in 3D, and on the lines in radial symmetry
+        if excitation.symmetry.is_3d():
             meshes = _get_vedo_charge_density_3d(excitation, field, color_map)
             self.to_plot.append(meshes)
-            
-        if len(mesh.lines):
+        else:
             lines = _get_vedo_charge_density_2d(excitation, field, color_map)
             self.to_plot.append(lines)
          
-- 
2.43.0


From 0f56193c4a6cd5d033fd64f18d73f064a06380ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 58/63] fix: equipotential plot evaluated surfaces at
 coordinates rounded to outside of them

---
 traceon/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 09b97b7..7be58b9 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -241,8 +241,9 @@ def _get_vedo_grid(field, surface, N0, N1):
     x = np.linspace(0, surface.path_length1, N0)
     y = np.linspace(0, surface.path_length2, N1)
 
-    grid = vedo.Grid(s=(x, y))
-    points = np.array([surface(x_, y_) for x_, y_, _ in grid.vertices])
+    # The vertices are stored in single precision, in which rounding could bring x, y outside of the surface
+    grid = vedo.Grid(s=(np.arange(N0), np.arange(N1)))
+    points = np.array([surface(x[round(i)], y[round(j)]) for i, j, _ in grid.vertices])
     grid.vertices = points
     grid.pointdata['z'] = np.array([field.potential_at_point(p) for p in points])
     grid.lw(0)
-- 
2.43.0


From 54c532f4e90dc6249add5ad52b21a485370f4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:05 +0000
Subject: [PATCH 59/63] fix: arithmetic on fields dropped their field bounds

---
 traceon/solver.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 1826b10..13891fb 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -593,10 +593,17 @@ class FieldBEM(Field, ABC):
         if not isinstance(other, FieldBEM):
             return NotImplemented
         
-        return self.__class__(
+        assert np.array_equal(self.field_bounds, other.field_bounds), "Cannot add fields if their field bounds are different."
+        
+        result = self.__class__(
             self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
             self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
             self.current_point_charges.__add__(other.current_point_charges))
+        
+        if self.field_bounds is not None:
+            result.set_bounds(self.field_bounds)
+        
+        return result
      
     def __sub__(self, other):
         return self.__add__(-other)
@@ -606,10 +613,15 @@ class FieldBEM(Field, ABC):
     
     def __mul__(self, other):
         if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(
+            result = self.__class__(
                 other*self.electrostatic_point_charges,
                 other*self.magnetostatic_point_charges,
                 other*self.current_point_charges)
+            
+            if self.field_bounds is not None:
+                result.set_bounds(self.field_bounds)
+            
+            return result
         
         return NotImplemented
     
-- 
2.43.0


From 436b9a84b7a7ffdb73b9a42fbfeef8ac143830bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 60/63] fix: near field quadrature of slender triangles
 depended on the order of their corners

---
 traceon/backend/tracing.c      | 4 ++--
 traceon/backend/utilities_3d.c | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index ae5c404..0b690df 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -306,7 +306,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 				// Position of first integration point. Check if 
 				// close to the target triangle.
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge(triangle_points[j]);
 				
 				if(i == j) {
 					matrix[i*N_matrix + j] = self_potential_triangle(&triangle_points[j][0][0], &triangle_points[j][1][0], &triangle_points[j][2][0], target);
@@ -340,7 +340,7 @@ EXPORT void fill_matrix_3d(double *restrict matrix,
 			for (int j = 0; j < N_lines; j++) {  
 					
 				double distance = distance_3d(triangle_points[j][0], target);
-				double characteristic_length = distance_3d(triangle_points[j][0], triangle_points[j][1]);
+				double characteristic_length = longest_edge(triangle_points[j]);
 
 				if(i == j) {
 					matrix[i*N_matrix + j] = -1.0;
diff --git a/traceon/backend/utilities_3d.c b/traceon/backend/utilities_3d.c
index 2850213..c37948a 100644
--- a/traceon/backend/utilities_3d.c
+++ b/traceon/backend/utilities_3d.c
@@ -101,6 +101,11 @@ triangle_area(double v0[3], double v1[3], double v2[3]) {
 	return norm_3d(out[0], out[1], out[2])/2.0;
 }
 
+double
+longest_edge(triangle t) {
+	return fmax(distance_3d(t[0], t[1]), fmax(distance_3d(t[1], t[2]), distance_3d(t[2], t[0])));
+}
+
 EXPORT void
 normal_3d(triangle t, double *normal) {
 	double x1 = t[0][0], y1 = t[0][1], z1 = t[0][2];
-- 
2.43.0


From b68b7afffa665adf1c64434cf99e7b066658a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 61/63] fix: path and surface collections kept the list they
 were made from, adding to the collection added to that list

---
 traceon/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 17f03a3..e9f3ed3 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -758,7 +758,7 @@ class PathCollection(GeometricObject):
     
     def __init__(self, paths):
         assert all([isinstance(p, Path) for p in paths])
-        self.paths = paths
+        self.paths = list(paths)
         self._name = None
     
     @property
@@ -1344,7 +1344,7 @@ class SurfaceCollection(GeometricObject):
      
     def __init__(self, surfaces):
         assert all([isinstance(s, Surface) for s in surfaces])
-        self.surfaces = surfaces
+        self.surfaces = list(surfaces)
         self._name = None
 
     @property
-- 
2.43.0


From fd5deae7b599fce019b620fa4997be3e056f56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:14 +0000
Subject: [PATCH 62/63] fix: plane_intersection raised ctypes.ArgumentError for
 a plane given as integers

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index c0e6158..7b02e26 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -625,7 +625,7 @@ def plane_intersection(positions, p0, normal):
     assert positions.shape == (len(positions), 6)
     
     result = np.zeros(6)
-    found = len(positions) > 1 and backend_lib.plane_intersection(p0, normal, positions, len(positions), result)
+    found = len(positions) > 1 and backend_lib.plane_intersection(p0.astype(np.float64), normal.astype(np.float64), positions, len(positions), result)
      
     if not found:
         raise ValueError("Plane intersection not found. Does the trajectory actually cross the plane?")
-- 
2.43.0


From 0c87663dbb8ec460379f411672b5e88bc22ef1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:42 +0000
Subject: [PATCH 63/63] fix: a field that is zero, such as zero times an axial
 field, could not be evaluated at a point

---
 traceon/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 13891fb..a236965 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -495,7 +495,7 @@ class Field(ABC):
         
         if elec and not mag:
             return self.electrostatic_field_at_point(point)
-        elif not elec and mag:
+        elif not elec:
             return self.magnetostatic_field_at_point(point)
          
         raise RuntimeError("Cannot use field_at_point when both electric and magnetic fields are present, " \
@@ -518,7 +518,7 @@ class Field(ABC):
          
         if elec and not mag:
             return self.electrostatic_potential_at_point(point)
-        elif not elec and mag:
+        elif not elec:
             return self.magnetostatic_potential_at_point(point)
          
         raise RuntimeError("Cannot use potential_at_point when both electric and magnetic fields are present, " \
-- 
2.43.0

