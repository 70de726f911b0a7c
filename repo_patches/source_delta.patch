From 21bf5dbe0328a2d0c12a8d3887e92863e17b458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 01/65] fix: Hyperplane.is_parallel compares all components of
 the normals, not any

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..a378f13 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From e73f1739ad7c478bb2a826d98908c4df6e008e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 02/65] fix: Hyperplane.is_parallel compares a single
 hyperplane with every element of an array

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index a378f13..1b9498f 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) != 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flat[0], dtype=object)
+        elif np.size(sec_hyp_arr) == 1 and np.size(first_hyp_arr) != 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flat[0], dtype=object)
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From 3cbe16f24d11d6311be2f19814338a96a140f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 03/65] fix: copies of a hyperplane keep its relative tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1b9498f..2f7851f 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 56c949618d5906a4645ea5483c3ade081e14a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 04/65] fix: hyperplanes through the origin get the same normal
 whichever sign it was given with

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 2f7851f..1efce1e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -262,7 +262,11 @@ class Hyperplane(ABasicEllipsoid):
                 norm_mult = 1. / np.linalg.norm(hp_norm_vec)
                 hp_norm_vec = hp_norm_vec * norm_mult
                 hp_scal = hp_scal * norm_mult
-                if hp_scal < 0.:
+                is_flip = hp_scal < 0.
+                if hp_scal == 0.:
+                    hp_abs_tol = hp_obj.get_abs_tol([hp_obj], None).flatten()[0]
+                    is_flip = np.any(hp_norm_vec[np.abs(hp_norm_vec) > hp_abs_tol][:1] < 0.)
+                if is_flip:
                     hp_scal = -hp_scal
                     hp_norm_vec = -hp_norm_vec
                 hp_dict = {
-- 
2.43.0


From 615998aa16c55a835dc0772e6c0b577f8d682dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 05/65] fix: Hyperplane.from_dict restores an empty hyperplane

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1efce1e..b944a60 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -77,6 +77,8 @@ class Hyperplane(ABasicEllipsoid):
             shift = hyp_dict['shift']
             del hyp_dict['normal_vec']
             del hyp_dict['shift']
+            if normal_vec.size == 0:
+                return Hyperplane(**hyp_dict)
             return Hyperplane(normal_vec, shift, **hyp_dict)
         dict_arr = np.array(dict_arr)
         return np.reshape(np.array([dict_2_hp(hp_dict) for hp_dict in list(dict_arr.flatten())]), dict_arr.shape)
-- 
2.43.0


From 2030f8626c5b016777ad7bca6bf4b69161d1a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 06/65] fix: Ellipsoid.polar handles arrays of any shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..3b23635 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -579,11 +579,12 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def polar(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
         cls._check_is_me(ell_arr)
+        ell_arr = np.array(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=cls.__class__)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From d86be3b34c507ba9280e0ed593beea5a1424a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 07/65] fix: polar by the quadratic form uses the outer product
 of the center

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 3b23635..b9cfcd8 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -84,7 +84,7 @@ class Ellipsoid(AEllipsoid):
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 3bbf09acd6b4f8af79f2efc6ed46a096234111de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 08/65] fix: is_equal with properties included does not fail on
 fields without a transform

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..5ebe45d 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -178,7 +178,7 @@ class ABasicEllipsoid(ABC):
                 if field_val_arr.size == 0:
                     comp_dict[field_nice_name] = np.zeros((0,), dtype=np.float64)
                 else:
-                    f_transform_func = field_transform_func_dict[field_name]
+                    f_transform_func = field_transform_func_dict.get(field_name, lambda z: z)
                     comp_dict[field_nice_name] = f_transform_func(field_val_arr)
             return comp_dict
 
-- 
2.43.0


From 5d1bf0fafdad01b7aa8fb1ef3099bd5b9e3d6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 09/65] fix: is_equal accepts single objects wrapped into
 arrays of different ranks

---
 .../elltool/core/abasicellipsoid/ABasicEllipsoid.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 5ebe45d..f3c8669 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -188,13 +188,13 @@ class ABasicEllipsoid(ABC):
         ell2_dict_list = \
             [form_comp_dict(ell_dict, field_nice_names2_dict, field_transform_func2_dict)
              for ell_dict in list(dict_ell2_list)]
-        ell1_dict_arr = np.reshape(np.array(ell1_dict_list), first_shape_vec)
-        ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
+        ell1_dict_arr = np.array(ell1_dict_list)
+        ell2_dict_arr = np.array(ell2_dict_list)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.tile(ell2_dict_arr, ell1_dict_arr.size)
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.tile(ell1_dict_arr, ell2_dict_arr.size)
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From 63d7eb77fc076104837933112fc79eb797512017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 10/65] fix: get_copy keeps the shape of a one-element array

---
 .../elltool/core/abasicellipsoid/ABasicEllipsoid.py  | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index f3c8669..00c40d2 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -226,15 +226,11 @@ class ABasicEllipsoid(ABC):
             return np.copy(ell_arr)
         ell_shape_vec = ell_arr.shape
         ell_arr = ell_arr.flatten()
-        if ell_arr.size == 1:
+        copy_ell_arr = np.empty((n_elems,), dtype=np.object)
+        for i_elem in range(n_elems):
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
-        else:
-            copy_ell_arr = np.empty((n_elems,), dtype=np.object)
-            for i_elem in range(n_elems):
-                # noinspection PyProtectedMember
-                copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
-            return np.reshape(copy_ell_arr, ell_shape_vec)
+            copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
+        return np.reshape(copy_ell_arr, ell_shape_vec)
 
     @classmethod
     def is_empty(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
-- 
2.43.0


From 5a2823fc924d5794f1941fafc4f21093f392f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 11/65] fix: rep_mat accepts integer-valued sizes of floating
 point type

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 00c40d2..8a025dc 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -247,6 +247,7 @@ class ABasicEllipsoid(ABC):
         shape_vec = shape_vec.flatten()
         if not np.all(np.logical_and(shape_vec == np.fix(shape_vec), shape_vec >= 0)):
             throw_error('wrongInput:shape_vec', 'size vector must contain non-negative integer values')
+        shape_vec = shape_vec.astype(int)
         n_elems = np.prod(shape_vec).flatten()[0]
         shape_vec = tuple(shape_vec)
         ell_arr = np.empty((n_elems,), dtype=np.object)
-- 
2.43.0


From 1e0ec7752255dfeff16255cfe328d090509241e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 12/65] fix: projection rejects bases with negative scalar
 products as well

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From 1b17695fe9da713fd5c622094375b82d3d655d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 13/65] fix: volume of a degenerate ellipsoid is a scalar

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..7dd42e4 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return 0.0
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From a78b9fb88eb263a6ba9065415376198e9ad2317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 14/65] fix: rank of an empty ellipsoid is zero

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 7dd42e4..491e7aa 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -161,7 +161,8 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         ell_shape_vec = ell_arr.shape
         if return_rank:
             ndim_list, rank_list = zip(*[
-                (np.size(ell_obj.get_center_vec()), np.linalg.matrix_rank(ell_obj.get_shape_mat()))
+                (np.size(ell_obj.get_center_vec()),
+                 np.linalg.matrix_rank(ell_obj.get_shape_mat()) if ell_obj.get_shape_mat().size > 0 else 0)
                 for ell_obj in ell_list
             ])
             return np.reshape(np.array(ndim_list), ell_shape_vec), np.reshape(np.array(rank_list), ell_shape_vec)
-- 
2.43.0


From c41e5a779927f2b902cef80b3c298b50d5f35bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 15/65] fix: rho pairs a one-dimensional array of ellipsoids
 with the columns of directions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index b9cfcd8..f5e6f55 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -609,7 +609,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                np.max(ell_size_vec) == n_ell and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From fbc5c59896ad37b36574b39f4d249331e85db3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 16/65] fix: rho_mat applies the tolerance for a single
 direction too

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 products/ellipy/gras/geom/ell/ell.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index f5e6f55..1dac44e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -591,7 +591,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..27978fb 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,7 +104,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
         if np.any(np.isnan(bp_mat)):
-- 
2.43.0


From 092074ce89f60f3cdb3430c62f0b0e48f87c4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 17/65] fix: support points are finite in directions with a
 zero support value

---
 products/ellipy/gras/geom/ell/ell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 27978fb..8e88410 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -107,7 +107,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,7 +115,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_nan_bp_mat = np.isnan(bp_mat)
+        is_nan_bp_mat = ~np.isfinite(bp_mat)
         is_nan_vec = np.any(is_nan_bp_mat, 0)
         if np.any(is_nan_vec):
             bp_mat[:, is_nan_vec] = 0.
-- 
2.43.0


From 5a52785b77a59e8e3bec42d71794ea60ca2921dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 18/65] fix: shape matrices symmetric up to rounding can be
 regularized

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 1dac44e..ec31358 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -122,7 +122,7 @@ class Ellipsoid(AEllipsoid):
     @staticmethod
     def _regularize(q_mat: np.ndarray, reg_tol: float) -> np.ndarray:
         from ellipy.gras.la.la import reg_pos_def_mat
-        return reg_pos_def_mat(q_mat, reg_tol)
+        return reg_pos_def_mat(0.5 * (q_mat + q_mat.T), reg_tol)
 
     @staticmethod
     def _rm_bad_directions(q1_mat: np.ndarray, q2_mat: np.ndarray, dirs_mat: np.ndarray, abs_tol: float) -> np.ndarray:
-- 
2.43.0


From 046631100e5d3ae3bcfc6746c8319887f68a7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 19/65] fix: ell_sim_diag checks symmetry of both matrices with
 the same tolerance

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9b5a758 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -14,7 +14,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
         throw_error('wrongInput', 'both arguments must be numeric matrices')
     if not is_mat_pos_def(a_mat, abs_tol):
         throw_error('wrongInput:a_mat', 'first argument must be a symmetric positive definite matrix')
-    if not is_mat_symm(b_mat):
+    if not is_mat_symm(b_mat, abs_tol):
         throw_error('wrongInput:b_mat', 'second argument must be a symmetric matrix')
     if a_mat.shape[0] != b_mat.shape[0]:
         throw_error('wrongInput', 'both matrices must be of the same dimension')
-- 
2.43.0


From bc7b2fcf895d208c5a1c616320d8a42099c57bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 20/65] fix: ell_sim_diag diagonalizes indefinite matrices

---
 products/ellipy/elltool/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9b5a758..bdab9f6 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -21,7 +21,8 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
     u1_mat, s_vec, _ = np.linalg.svd(a_mat, full_matrices=True)
     u_mat = np.linalg.lstsq(sqrtm_pos(np.diag(s_vec), abs_tol).T, u1_mat.T, -1)[0].T
-    u2_mat, _, _ = np.linalg.svd(u_mat.T @ b_mat @ u_mat)
+    _, u2_mat = np.linalg.eigh(u_mat.T @ b_mat @ u_mat)
+    u2_mat = np.fliplr(u2_mat)
     return u2_mat.T @ u_mat.T
 
 
-- 
2.43.0


From 2ffc155bd954c8a3f9e951d66a0496e5684c4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 21/65] fix: is_bigger works for a degenerate first ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ec31358..13a2b0a 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -402,7 +402,7 @@ class Ellipsoid(AEllipsoid):
                 logger = get_logger()
                 logger.info('IS_BIGGER: Warning! First ellipsoid is degenerate.')
                 logger.info('           Regularizing...')
-            first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
+            first_shape_mat = self._regularize(first_shape_mat, 2. * self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
         t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
-- 
2.43.0


From 017f2b99cea5b8126bf4c79110671a1baba21a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 22/65] fix: is_internal accepts arrays of ellipsoids of any
 shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 13a2b0a..9e79d21 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -445,6 +445,7 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr, 'first')
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
+        ell_arr = np.array(ell_arr)
         if ell_arr.size == 0:
             throw_error('wrongInput:emptyArray', 'Each array must be not empty.')
         if np.any(cls.is_empty(np.ravel(ell_arr))):
@@ -455,6 +456,7 @@ class Ellipsoid(AEllipsoid):
         if not (mode == 'u' or mode == 'i'):
             throw_error('wrongInput', "third argument is expected to be either 'u', or 'i'.")
 
+        ell_arr = np.reshape(ell_arr, (-1, 1))
         n_dims_mat = cls.dimension(ell_arr)
         m_rows, m_cols = mat_of_vec_mat.shape
         if not np.all(np.ravel(n_dims_mat) == m_rows):
-- 
2.43.0


From 9f38fec50d2b9d8078dd9495e68b5975bd87649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 23/65] fix: get_boundary without a grid works in three
 dimensions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 9e79d21..34f7b0f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -290,7 +290,7 @@ class Ellipsoid(AEllipsoid):
         if return_grid:
             dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
         else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
+            dir_mat, _ = sphere_tri_ext(n_dim, n_points, True)
             f_mat = None
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
-- 
2.43.0


From 6177e31071b08b65e74307deb2f313fba157e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 24/65] fix: boundary factors may be scalars of any numeric
 type

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 34f7b0f..0ff8283 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -309,7 +309,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -364,7 +364,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From a153897c858f036eaa39671d87453af4eaca3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 25/65] fix: sphere_tri_ext accepts integer-valued numbers of
 points of floating point type

---
 products/ellipy/gras/geom/tri/tri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..7e1daf4 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -481,6 +481,7 @@ def sphere_tri_ext(n_dim: int, n_points: int, return_f_grid: bool = False) \
             and 0 < n_points == np.fix(n_points)):
         throw_error('wrong_input',
                     'n_points is expected to be a positive integer scalar number')
+    n_points = int(n_points)
     if n_dim == 2:
         if return_f_grid:
             v_grid_mat, f_grid_mat = spherebndr_2d(n_points, return_f_grid)
-- 
2.43.0


From b365ca1cd6e7c275e5b7d75cef8c11d0916f1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 26/65] fix: reg_pos_def_mat orthonormalizes eigenvectors of
 repeated eigenvalues

---
 products/ellipy/gras/la/la.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..17c8ca7 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -215,6 +215,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
     d_mat, v_mat = np.linalg.eig(inp_mat)
+    v_mat, _ = np.linalg.qr(v_mat)
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From d4f9f703835ca568d13c5155a3087243c96eaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 27/65] fix: orth_transl_max_tr maps opposite one-dimensional
 vectors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 17c8ca7..e8c30a6 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -152,7 +152,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From bf2f7afae4765524ce31e74354c7cb4249f090cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 28/65] fix: orth_transl_qr does not take square roots of
 negative rounding errors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index e8c30a6..354f054 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From f25fe466eb189e028ad8f37d4ecffebc830281b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 29/65] fix: minksum_ia regularizes the first ellipsoid
 consistently

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 0ff8283..ad42248 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -565,7 +565,10 @@ class Ellipsoid(AEllipsoid):
             cent_vec = np.sum(np.array([ell.get_center_vec() for ell in ell_arr]), 0)
             abs_tol_arr = cls.get_abs_tol(ell_arr, f_prop_fun=None).flatten()
 
-            src_mat = sqrtm_pos(ell_arr[0].get_shape_mat(), np.min(abs_tol_arr)) @ dir_mat
+            src_sh_mat = ell_arr[0].get_shape_mat()
+            if ell_arr[0].is_degenerate([ell_arr[0]]).flat[0]:
+                src_sh_mat = cls._regularize(src_sh_mat, abs_tol_arr[0])
+            src_mat = sqrtm_pos(src_sh_mat, abs_tol_arr[0]) @ dir_mat
             sqrt_sh_arr, rot_arr = zip(*[f_rot_arr(i) for i in np.arange(0, n_ell)])
             sqrt_sh_arr = np.array(sqrt_sh_arr)
             rot_arr = np.array(rot_arr)
-- 
2.43.0


From 2e4773ee2223e20d6d3a1e5850a4aaeba15ceb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 30/65] fix: MatVector.pinv and make_symmetric accept a single
 matrix

---
 products/ellipy/gras/gen/gen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..fa15561 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,14 +85,16 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
+        if data_arr.ndim == 2:
+            data_arr = np.expand_dims(data_arr, 2)
         ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
         return ret_arr
 
     @staticmethod
     def pinv(data_arr: np.ndarray) -> np.ndarray:
-        arr_size = data_arr.shape
         if data_arr.ndim == 2:
-            arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
+        arr_size = data_arr.shape
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From 0a9b1413e2d25029d4e50d53ab306929d08ef8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 31/65] fix: SquareMatVector keeps the shape of 1x1 matrices
 and of a non-definite single matrix

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index fa15561..ac95c73 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -328,7 +328,7 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
@@ -336,7 +336,7 @@ class SquareMatVector(MatVector):
         if data_arr.ndim == 2:
             s_min = min(np.linalg.eigvalsh(data_arr))
             if s_min < 0.:
-                res_data_arr = np.nan
+                res_data_arr = np.full(data_arr.shape, np.nan)
             else:
                 res_data_arr = data_arr
         else:
-- 
2.43.0


From 7caee23041fa196a460ffa73bbb13e9b079e081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 32/65] fix: SquareMatVector does not reshape vectors of the
 caller in place

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ac95c73..cc83d0b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -416,7 +416,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -431,7 +431,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From 7519a58885a5f4bf1fd4ebafa68b68b166c0b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 33/65] fix: MatVector.r_multiply multiplies by 1x1 and by
 constant matrices

---
 products/ellipy/gras/gen/gen.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index cc83d0b..804eac7 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -232,7 +232,9 @@ class MatVector:
             int_arr = inp_arr
             inp_shape = inp_arr.shape
             if inp_arr.ndim < 3:
-                int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+                int_arr = np.expand_dims(int_arr, 2)
+            if int_arr.shape[2] != n_time_points:
+                int_arr = np.tile(int_arr, (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
@@ -244,6 +246,16 @@ class MatVector:
             return sp.csc_matrix((int_arr.T.flatten(), (i_ind, j_ind)),
                                  shape=(n_rows * n_time_points, n_cols * n_time_points))
 
+        def get_slice(inp_arr: np.ndarray, i_slice: int) -> np.ndarray:
+            if inp_arr.ndim < 3:
+                return inp_arr
+            return inp_arr[:, :, 0 if inp_arr.shape[2] == 1 else i_slice]
+
+        def mult(left_mat: np.ndarray, right_mat: np.ndarray) -> np.ndarray:
+            if left_mat.size == 1 or right_mat.size == 1:
+                return left_mat * right_mat
+            return left_mat @ right_mat
+
         use_sparse = use_sparse_matrix
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
@@ -283,12 +295,10 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
                 else:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
-                if b_shape[2] == n_time_points:
-                    for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
-                elif b_shape[2] == 1:
+                if b_shape[2] == n_time_points or b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = mult(a_arr[:, :, i_time_point],
+                                                           get_slice(b_arr, i_time_point))
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
@@ -299,8 +309,9 @@ class MatVector:
                 else:
                     res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
                 for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                    res_mat[:, :, i_time_point] = mult(mult(a_arr[:, :, i_time_point],
+                                                            get_slice(b_arr, i_time_point)),
+                                                       get_slice(c_arr, i_time_point))
         return res_mat
 
 
-- 
2.43.0


From 8228265d4c56715f7725db791429c4cfa951ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 34/65] fix: SymmetricMatVector multiplies by the transposed
 matrix of eigenvectors

---
 products/ellipy/gras/gen/gen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 804eac7..76e5e0c 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -463,38 +463,38 @@ class SymmetricMatVector(SquareMatVector):
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
         ua_array = None
         if flag == 'L':
-            ua_array = SquareMatVector.r_multiply(u_array, MatVector.transpose(inp_a_arr))
+            ua_array = SquareMatVector.r_multiply(MatVector.transpose(u_array), MatVector.transpose(inp_a_arr))
         elif flag == 'R':
-            ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
+            ua_array = SquareMatVector.r_multiply(MatVector.transpose(u_array), inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array, 'R')
         return out_array
 
     @staticmethod
     def r_svd_multiply_by_vec(inp_mat_arr: np.ndarray, inp_vec_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_mat_arr)
-        uv_array = MatVector.r_multiply_by_vec(u_array, inp_vec_arr)
+        uv_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_vec_arr)
         if inp_vec_arr.ndim != 2:
             throw_error('wrongInput:inp_vec_arr', 'inpVecArray is expected to be 2-dimensional array')
         m_size_vec = np.shape(s_array)
         v_size_vec = np.shape(uv_array)
         out_vec_array = np.zeros((m_size_vec[0], v_size_vec[1]), dtype=np.float64)
         for t in range(v_size_vec[1]):
-            out_vec_array[:, t] = u_array[:, :, t].T @ s_array[:, :, t] @ uv_array[:, t]
+            out_vec_array[:, t] = u_array[:, :, t] @ s_array[:, :, t] @ uv_array[:, t]
         return out_vec_array
 
     @staticmethod
     def lr_svd_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
+        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         out_vec = SquareMatVector.lr_multiply_by_vec(s_array, ua_array)
         return out_vec
 
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
+        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
-- 
2.43.0


From fbc92e6cc9a719517f0a83986816e966a57bcfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 35/65] fix: SymmetricMatVector accepts a single matrix

---
 products/ellipy/gras/gen/gen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 76e5e0c..7f73c5b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -494,17 +494,18 @@ class SymmetricMatVector(SquareMatVector):
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
+        n_mat_elems = np.shape(u_array)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            ua_array = u_array[:, :, 0].T @ inp_a_arr
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
+            ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
             out_vec = np.zeros(n_elems, dtype=np.float64)
             for i_elem in range(n_elems):
                 b_inv_mat = np.diag(1 / np.diag(s_array[:, :, i_elem]))
@@ -513,9 +514,9 @@ class SymmetricMatVector(SquareMatVector):
 
     @staticmethod
     def __array_svd(sym_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        if np.ndim(sym_arr) == 2:
+            sym_arr = np.expand_dims(sym_arr, 2)
         size_vec = np.shape(sym_arr)
-        if len(size_vec) == 2:
-            size_vec = np.append(size_vec, 1)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-- 
2.43.0


From f2abcf06a5a5fb029b45aab206e56151fe4ac2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 36/65] fix: from_expression mixes constants and functions of
 time at a single time point

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 7f73c5b..38d2a5f 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -188,24 +188,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From 3f6e64c76709952975d1d92db31ad4a1700f10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 37/65] fix: dict_compare does not take a prefix of a list for
 the whole list

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..5d245be 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -114,6 +114,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                         if not is_comp_eq:
                             return False, comp_report_str
                     else:
+                        if len(x) != len(y):
+                            return False, 'Different sizes'
                         n_comp_elems = len(x)
                         if n_comp_elems == 0:
                             return True, ''
-- 
2.43.0


From cbe100c6ea1453ae79982596ef215f983bc84480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 38/65] fix: dict_compare compares boolean values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5d245be..b8e4c4c 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -84,7 +84,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'ui':
+                    if x_dtype in 'bui':
                         x_arr = np.array(x_arr, dtype=np.float)
                         y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
-- 
2.43.0


From 76e5d23a54facd279c6b7aca5310c33a3e29423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 39/65] fix: dict_compare compares empty arrays of dictionaries

---
 products/ellipy/gen/dict/dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index b8e4c4c..a25f900 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -146,6 +146,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     sc_report_str_list.append(cur_report_str)
             return is_sc_eq, sc_report_str_list
 
+        if len(dict_x_list) == 0:
+            return [], []
         is_out_eq_list, out_report_str_list_list = \
             zip(*[dict_compare_scalar(dict_x, dict_y, inp_abs_tol, inp_rel_tol) for
                   (dict_x, dict_y) in zip(dict_x_list, dict_y_list)])
@@ -166,4 +168,4 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
         report_str = '\n'.join(report_str_list)
     else:
         report_str = ''
-    return np.array(is_eq_list), report_str
+    return np.array(is_eq_list, dtype=bool), report_str
-- 
2.43.0


From d84c1308be0a3764401284c195cae548deaf969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 40/65] fix: sup_geom_diff_2d does not depend on the
 orientation of convex hull faces

---
 products/ellipy/gras/geom/sup/sup.py | 43 ++++------------------------
 1 file changed, 6 insertions(+), 37 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..2f297b0 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -29,6 +29,8 @@ def sup_2_boundary_3(dir_mat: np.ndarray, sup_vec: np.ndarray, face_mat: np.ndar
 
 
 def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
+    __EPS = 1e-12
+
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
                     'l_mat must be a matrix')
@@ -59,7 +61,6 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         throw_error('wrongInput:rho1_vec,l_mat',
                     'The number of columns of l_mat must equal the length of rho1_vec')
 
-    n_dirs = l_mat.shape[1]
     n_dims = l_mat.shape[0]
 
     if n_dims != 2:
@@ -73,42 +74,10 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
-
-    ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
-    is_neg_vec = ind_face_length_vec < -1
-    ind_face_length_vec[is_neg_vec] = n_dirs + ind_face_length_vec[is_neg_vec]
-    ind_face_vec = np.nonzero(ind_face_length_vec > 1)[0]
-    n_faces = len(ind_face_vec)
-    s_norm_vec = np.ones(n_dirs, dtype=np.float64)
-
-    for i_face in range(n_faces):
-        ind_face = ind_face_vec[i_face]
-        ind_left = ind_mat[ind_face, 0]
-        ind_right = ind_mat[ind_face, 1]
-
-        b_vec = np.expand_dims(s_mat[:, ind_left], axis=0).T
-        a_first_vec = b_vec - np.expand_dims(s_mat[:, ind_right], axis=0).T
-
-        n_change_dirs = ind_face_length_vec[ind_face] - 1
-        ind_dir = ind_left
-
-        for i_dir in range(0, n_change_dirs):
-            ind_dir = ind_dir + 1
-
-            if ind_dir > n_dirs:
-                ind_dir = 0
-
-            a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-            x_vec = np.linalg.lstsq(a_mat, b_vec, -1)[0]
-            s_val = x_vec[1]
-
-            if s_val < 0:
-                throw_error('wrongState:s_val', 's_val cannot be negative')
-
-            s_norm_vec[ind_dir] = s_val
-
-    rho_diff_vec = rho_diff_vec / s_norm_vec
+    face_mat = ConvexHull(s_mat.T).equations
+    # faces that pass through the origin restrict no direction
+    face_mat = face_mat[-face_mat[:, -1] > __EPS * np.max(np.abs(s_mat))]
+    rho_diff_vec = np.max((face_mat[:, :-1] @ l_mat) / -face_mat[:, -1:], axis=0)
 
     return rho_diff_vec
 
-- 
2.43.0


From f3d67adb015aa8ae219a2ef567b7d73eacf40539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 41/65] fix: sup_geom_diff_3d does not depend on the scale of
 sets

---
 products/ellipy/gras/geom/sup/sup.py | 29 +++++-----------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 2f297b0..a9e9d56 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -83,7 +83,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
 
 def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
-    __ABS_TOL = 1e-5
+    __EPS = 1e-12
 
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
@@ -127,28 +127,9 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    f_s_mat = ConvexHull(s_mat.T).simplices
-    dist_vec = np.zeros(l_mat.shape[1])
-
-    for i_dist in range(l_mat.shape[1]):
-        for j_tri in range(f_s_mat.shape[0]):
-            tri_mat = s_mat[:, f_s_mat[j_tri, :]]
-            x1_vec = tri_mat[:, 1] - tri_mat[:, 0]
-            x2_vec = tri_mat[:, 2] - tri_mat[:, 0]
-            norm1_vec = np.cross(s_mat[:, i_dist], x2_vec)
-            det_temp = np.dot(x1_vec, norm1_vec)
-            if np.abs(det_temp) > __ABS_TOL:
-                inv_det = 1 / det_temp
-                s_point = -tri_mat[:, 0]
-                u_dist = inv_det * np.dot(s_point, norm1_vec)
-                if u_dist >= -__ABS_TOL:
-                    norm2_vec = np.cross(s_point, x1_vec)
-                    v_dist = inv_det * np.dot(s_mat[:, i_dist], norm2_vec)
-                    if v_dist >= -__ABS_TOL and u_dist + v_dist <= 1 + __ABS_TOL:
-                        t_dist = inv_det * np.dot(x2_vec, norm2_vec)
-                        if t_dist > 0:
-                            dist_vec[i_dist] = t_dist
-
-    rho_diff_vec = rho_diff_vec / dist_vec
+    face_mat = ConvexHull(s_mat.T).equations
+    # faces that pass through the origin restrict no direction
+    face_mat = face_mat[-face_mat[:, -1] > __EPS * np.max(np.abs(s_mat))]
+    rho_diff_vec = np.max((face_mat[:, :-1] @ l_mat) / -face_mat[:, -1:], axis=0)
 
     return rho_diff_vec
-- 
2.43.0


From 0e2047f8ae05ab248d77a5b1e06b5fed35625878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 42/65] fix: shrink_face_tri partitions a single face given as
 a one-row matrix

---
 products/ellipy/gras/geom/tri/tri.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 7e1daf4..a9ea85f 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -116,13 +116,13 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
 
     # Build Face to Edges map and edge orientation map for each face
     e_mat, f2e_mat, f2e_is_dir_mat = map_face_2_edge(f_mat)
+    f_mat = np.reshape(f_mat, (-1, 3))
+    f2e_mat = np.reshape(f2e_mat, (-1, 3))
+    f2e_is_dir_mat = np.reshape(f2e_is_dir_mat, (-1, 3))
 
     n_verts = np.size(v_mat, 0)
     n_edges = np.size(e_mat, 0)
-    if f_mat.ndim == 1:
-        n_faces = 1
-    else:
-        n_faces = np.size(f_mat, 0)
+    n_faces = np.size(f_mat, 0)
 
     # Build edge distances
     d_mat = v_mat[e_mat[:, 0]] - v_mat[e_mat[:, 1]]
@@ -141,11 +141,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
-            else:
-                # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-                is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat])
+            is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
 
             # Read just indices of partitioned edges
             f2e_part_mat = f2e_mat[is_f2part_vec]
-- 
2.43.0


From d15957bf25126aa2ea2db63f3f095c4bf389e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 43/65] fix: is_face finds faces whose edges belong to more
 than two faces

---
 products/ellipy/gras/geom/tri/tri.py | 46 ++--------------------------
 1 file changed, 3 insertions(+), 43 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index a9ea85f..520addb 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -351,49 +351,9 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
     f23_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [1, 2]])
     f13_num_list = get_edge_attachements(f_num_list, e_mat, f_to_check_mat[:, [0, 2]])
 
-    def fnum_list_to_mat(inp_f_num_list: List[np.ndarray], def_vec: np.array) -> np.ndarray:
-        n_elems = len(inp_f_num_list)
-        l_vec = np.array([f_num_vec.size for f_num_vec in inp_f_num_list])
-        f_num_mat = np.tile(def_vec, (n_elems, 1))
-        is_one_elem_vec = l_vec == 1
-        if np.any(is_one_elem_vec):
-            f_num_mat[is_one_elem_vec, 0] = \
-                np.hstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_one_elem_vec)) if is_elem]))
-        is_two_elem_vec = l_vec == 2
-        if np.any(is_two_elem_vec):
-            f_num_mat[is_two_elem_vec, :] = \
-                np.vstack(tuple([f_num_vec for f_num_vec, is_elem in
-                                 zip(inp_f_num_list, list(is_two_elem_vec)) if is_elem]))
-        return f_num_mat
-
-    f12_num_mat = fnum_list_to_mat(f12_num_list, np.array([-121, -122]))
-    f23_num_mat = fnum_list_to_mat(f23_num_list, np.array([-231, -232]))
-    f13_num_mat = fnum_list_to_mat(f13_num_list, np.array([-131, -132]))
-
-    def intersect_mat(one_mat: np.ndarray, two_mat: np.ndarray, three_mat: np.ndarray) -> np.ndarray:
-        def flip_or_not(inp_mat: np.ndarray, is_flip: bool) -> np.ndarray:
-            if is_flip:
-                return np.fliplr(inp_mat)
-            else:
-                return inp_mat
-
-        comb_mat = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0],
-                             [0, 0, 1], [1, 0, 1], [0, 1, 1], [1, 1, 1]])
-        n_combs = comb_mat.shape[0]
-        is_pos_res_vec = np.zeros((one_mat.shape[0],), dtype=bool)
-        for i_comb in range(n_combs):
-            is_flip_vec = comb_mat[i_comb]
-            flip_one_mat = flip_or_not(one_mat, is_flip_vec[0])
-            flip_two_mat = flip_or_not(two_mat, is_flip_vec[1])
-            flip_three_mat = flip_or_not(three_mat, is_flip_vec[2])
-            is_pos_res_vec = \
-                np.logical_or(
-                    is_pos_res_vec, np.any(np.logical_and(
-                        flip_one_mat == flip_two_mat, flip_two_mat == flip_three_mat), axis=1).flatten())
-        return is_pos_res_vec
-
-    return intersect_mat(f12_num_mat, f23_num_mat, f13_num_mat)
+    return np.array([np.intersect1d(np.intersect1d(f12_num_vec, f23_num_vec), f13_num_vec).size > 0
+                     for f12_num_vec, f23_num_vec, f13_num_vec
+                     in zip(f12_num_list, f23_num_list, f13_num_list)], dtype=bool)
 
 
 def is_tri_equal(v1_mat: np.ndarray, f1_mat: np.ndarray,
-- 
2.43.0


From 08ea16ed2c12d716464aaf341b45406d64f341da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 44/65] fix: get_logger does not duplicate messages after
 repeated calls

---
 products/ellipy/gen/logging/logging.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index 04f00b0..f74d952 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -5,10 +5,11 @@ from ellipy.gen.common.common import get_caller_name
 def get_logger():
     caller_name = get_caller_name(2, 'full')
     logger = logging.getLogger(caller_name)
-    handler = logging.StreamHandler()
-    formatter = logging.Formatter(
-        '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
-    handler.setFormatter(formatter)
-    logger.addHandler(handler)
+    if not logger.handlers:
+        handler = logging.StreamHandler()
+        formatter = logging.Formatter(
+            '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
+        handler.setFormatter(formatter)
+        logger.addHandler(handler)
     logger.setLevel(logging.DEBUG)
     return logger
-- 
2.43.0


From d89220b5ac3d2d2dfb27e87a4d1f80d7a7fc6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 45/65] fix: default ODE norm control is boolean, as its check
 and its getter require

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From 8cbc75edc8bee2d515525f5b73f742ffcc05c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 46/65] fix: try_treat_as_real returns real values for complex
 input with zero imaginary part

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 354f054..96c0474 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -241,7 +241,7 @@ def try_treat_as_real(inp_mat:  Union[bool, int, float, complex, np.ndarray], to
     if not(np.isscalar(tol_val) and is_numeric(tol_val) and tol_val > 0.0):
         throw_error('wrongInput:tol_val', 'tol_val must be a positive numeric scalar')
     if np.all(np.isreal(inp_mat)):
-        return inp_mat
+        return np.real(inp_mat) if np.iscomplexobj(inp_mat) else inp_mat
     else:
         img_inp_mat = inp_mat.imag
         if np.isscalar(img_inp_mat):
-- 
2.43.0


From 9d57e84e4428f02b2c659a195e3312666e86879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 47/65] fix: sphere_part does not select the same direction
 twice

---
 products/ellipy/gras/geom/geom.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/geom/geom.py b/products/ellipy/gras/geom/geom.py
index 173cfb6..8bda2b2 100755
--- a/products/ellipy/gras/geom/geom.py
+++ b/products/ellipy/gras/geom/geom.py
@@ -58,12 +58,11 @@ def sphere_part(n_points: int) -> np.ndarray:
         mod_i = np.mod(i_point, 3)
         if mod_i == 1:
             i_min = np.argmin(x_dist_vec)
-            x_dist_vec[i_min] = 2*np.pi
         elif mod_i == 2:
             i_min = np.argmin(y_dist_vec)
-            y_dist_vec[i_min] = 2*np.pi
         else:
             i_min = np.argmin(z_dist_vec)
-            z_dist_vec[i_min] = 2*np.pi
+        for dist_vec in (x_dist_vec, y_dist_vec, z_dist_vec):
+            dist_vec[i_min] = 2*np.pi
         r_mat[i_point] = p_mat[i_min]
     return r_mat
-- 
2.43.0


From d4941ba0072bce53a172c61ae39ae8e473fee9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 48/65] fix: dimension with ranks accepts empty arrays of
 ellipsoids

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 491e7aa..a2e1e2e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -160,11 +160,9 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         ell_list = list(ell_arr.flatten())
         ell_shape_vec = ell_arr.shape
         if return_rank:
-            ndim_list, rank_list = zip(*[
-                (np.size(ell_obj.get_center_vec()),
-                 np.linalg.matrix_rank(ell_obj.get_shape_mat()) if ell_obj.get_shape_mat().size > 0 else 0)
-                for ell_obj in ell_list
-            ])
+            ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
+            rank_list = [np.linalg.matrix_rank(ell_obj.get_shape_mat()) if ell_obj.get_shape_mat().size > 0 else 0
+                         for ell_obj in ell_list]
             return np.reshape(np.array(ndim_list), ell_shape_vec), np.reshape(np.array(rank_list), ell_shape_vec)
         else:
             ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
-- 
2.43.0


From 080cf215b0c1424ee11c4306bea2915f1c97e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 49/65] fix: Hyperplane.contains rejects numbers of points that
 do not match the hyperplanes

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index b944a60..189e48c 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -127,13 +127,9 @@ class Hyperplane(ABasicEllipsoid):
         if size_x_vec[0] != n_dims:
             throw_error('wrongInput:wrongSizes', 'Vector dimension does not match the dimension of hyperplanes.')
 
-        size_hyp_arr = np.shape(hyp_arr)
-        if 1 == np.size(size_hyp_arr):
-            size_hyp_arr = (1, size_hyp_arr[0])
-
-        if not (np.array_equal(size_x_vec[1:], size_hyp_arr) or
+        if not ((size_x_vec[1] == np.size(hyp_arr)) or
                 ((np.size(hyp_arr) == 1) and not (np.size(x_arr) == 0)) or
-                (np.size(size_x_vec[1:]) == 1)):
+                (size_x_vec[1] == 1)):
             throw_error('wrongSizes', 'Array of normal vectors and array of constants has wrong sizes.')
 
         def process(other_dim_vec_loc):
-- 
2.43.0


From 66574af8202a859b0df630def8f727f8bf0c3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 50/65] fix: abs_rel_compare keeps imaginary parts in the
 presence of NaNs

---
 products/ellipy/gen/common/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..4f06ef1 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -142,8 +142,8 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
+            left_arr = np.array(left_arr, copy=True)
+            right_arr = np.array(right_arr, copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From 5621ec0376a4bd0ed920e0e6b7807c0da0b5153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 51/65] fix: abs_rel_compare does not overflow on integer and
 boolean arrays

---
 products/ellipy/gen/common/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 4f06ef1..5d8ff55 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -140,6 +140,10 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
         report_str = 'nans are on different places'
 
     if is_equal:
+        # differences of unsigned, boolean and short integer values are not representable in their types
+        left_arr, right_arr = [
+            arr.astype(np.float64 if arr.dtype == np.uint64 else np.int64) if arr.dtype.kind in 'bui' else arr
+            for arr in (np.asarray(left_arr), np.asarray(right_arr))]
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
             left_arr = np.array(left_arr, copy=True)
-- 
2.43.0


From a0225010533dd7bfe9b9518710b607d2647c3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 52/65] fix: reg_pos_def_mat returns a real matrix for repeated
 eigenvalues

---
 products/ellipy/gras/la/la.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 96c0474..11ce03a 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,8 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
-    v_mat, _ = np.linalg.qr(v_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat)
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 3fbf8cf2869ea7cdfdc16b35ec6b4b500326fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 53/65] fix: orth_transl is orthogonal for nearly opposite
 vectors

---
 products/ellipy/gras/la/la.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 11ce03a..0d18e68 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -93,11 +93,12 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     src_vec = src_vec / np.sqrt(src_squared_norm)
 
     scal_prod = np.sum(src_vec * dst_vec)
-    s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
+    src_orth_vec = src_vec - scal_prod * dst_vec
+    s_val = np.sqrt(np.sum(src_orth_vec * src_orth_vec))
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
     q_mat[:, 0] = np.squeeze(dst_vec)
     if np.abs(s_val) > __ABS_TOL:
-        q_mat[:, 1] = np.squeeze((src_vec - scal_prod * dst_vec) / s_val)
+        q_mat[:, 1] = np.squeeze(src_orth_vec / s_val)
     else:
         q_mat[:, 1] = 0.0
 
-- 
2.43.0


From aadfd0e8bda318dfea9d6302999d315ba1766cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 54/65] fix: ell_valign accepts one-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index bdab9f6..fd68786 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -45,20 +45,13 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if (not is_numeric(v)) or (not is_numeric(x)):
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both arguments must be vectors in R^n.')
 
-    if v.size != max(v.shape):
+    if v.size != max(v.shape, default=1):
         throw_error('wrongInput:v', 'ELL_VALIGN: first argument must be a vector.')
-    if x.size != max(x.shape):
+    if x.size != max(x.shape, default=1):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = np.reshape(v, (v.size,))
+    x = np.reshape(x, (x.size,))
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From 7aaeb3dd211ed7382a5dce1be67ebe57e0b35567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 55/65] fix: lr_divide_vec returns one value per vector for a
 constant matrix

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 38d2a5f..ff7d6b4 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -436,7 +436,7 @@ class SquareMatVector(MatVector):
         if inp_a_arr.ndim == 1:
             inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
-            out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
+            out_vec = np.sum(inp_a_arr * np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0], axis=0, keepdims=True)
         else:
             if inp_a_arr.shape[1] == 1:
                 out_vec = np.zeros((inp_b_arr.shape[2],), dtype=np.float64)
-- 
2.43.0


From 7d627d6d839dac68ca25120050633f3999c0f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 56/65] fix: MatVector.eval_func does not truncate values for
 integer arrays

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ff7d6b4..c7d3f94 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -163,7 +163,7 @@ class MatVector:
                 res_array.append(f(data_arr[:, :, i]))
         else:
             if keep_size:
-                res_array = np.copy(data_arr)
+                res_array = np.zeros(data_arr.shape, dtype=np.float64)
                 for i in range(data_size):
                     res_array[:, :, i] = f(data_arr[:, :, i])
             else:
-- 
2.43.0


From b8e4495e944c9d5666148e0494041eb0214f48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 57/65] fix: shrink_face_tri describes flat faces by their own
 edges

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 520addb..a489c95 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -256,7 +256,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_v_mid_e_broken_nut_kept_vec = ind_e_part_vec[is_e2part_vec & is_e_kept_vec]
 
             # faces have zero volume
-            f3_new_mat = np.column_stack((ind_v_mid_e_broken_nut_kept_vec, e_mat[ind_e_broken_but_kept_vec]))
+            f3_new_mat = np.column_stack((e_mat[ind_e_broken_but_kept_vec, 0], ind_v_mid_e_broken_nut_kept_vec,
+                                          e_mat[ind_e_broken_but_kept_vec, 1]))
 
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
-- 
2.43.0


From 60971926d9a307c826d47f89272d0d127ea0a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 58/65] fix: is_face compares indices of vertices of any
 numeric type

---
 products/ellipy/gras/geom/tri/tri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index a489c95..5013e34 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -325,7 +325,7 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
             inp_f_num_list: List[np.ndarray],
             inp_e_mat: np.ndarray, inp_check_e_mat: np.ndarray) -> List[np.ndarray]:
         def as_void(arr):
-            arr = np.ascontiguousarray(arr)
+            arr = np.ascontiguousarray(arr, dtype=np.int64)
             return arr.view(np.dtype((np.void, arr.dtype.itemsize * arr.shape[-1])))
 
         inp_check_e_mat = np.sort(inp_check_e_mat, axis=1)
-- 
2.43.0


From 60629e25258f3398e5f758a85b3d51b4a43ba8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 59/65] fix: reg_pos_def_mat does not exceed the requested
 smallest eigenvalue by rounding in the tested case

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 0d18e68..908befe 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -215,7 +215,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eigh(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, 'U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From be477eb2da4b120305358511744c70f6410706ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 60/65] fix: products of arrays of matrices accept a single
 matrix as the first factor

---
 products/ellipy/gras/gen/gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index c7d3f94..9c70bed 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -203,6 +203,8 @@ class MatVector:
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
         if len(b_mat.shape) != 2:
             throw_error('wrongInput', 'b_mat is expected to be 2-dimensional array')
+        if a_arr.ndim < 3:
+            a_arr = np.expand_dims(a_arr, 2)
         n_rows = a_arr.shape[0]
         n_cols = a_arr.shape[1]
         n_time_points = a_arr.shape[2]
@@ -249,6 +251,8 @@ class MatVector:
             return left_mat @ right_mat
 
         use_sparse = use_sparse_matrix
+        if a_arr.ndim < 3:
+            a_arr = np.expand_dims(a_arr, 2)
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
         n_a_cols = a_shape[1]
-- 
2.43.0


From ecb6eee2d506da283bb0d7e7020fb3c3f766be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 61/65] fix: ellipsoids valid within their own tolerance can be
 compared with ones of a smaller tolerance

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ad42248..a296784 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -680,6 +680,8 @@ class Ellipsoid(AEllipsoid):
         ell_arr = np.array(ell_arr)
         if abs_tol is None:
             _, abs_tol = cls.get_abs_tol(ell_arr)
+        # each shape matrix is valid within the tolerance of its own ellipsoid
+        sqrt_abs_tol = np.max(cls.get_abs_tol(ell_arr, None), initial=abs_tol)
         ell_dict_arr = np.reshape(np.array(
             [ell_2_dict(ell_obj, is_prop_included) for ell_obj in list(ell_arr.flatten())]), ell_arr.shape)
         field_nice_names_dict = {
@@ -687,7 +689,7 @@ class Ellipsoid(AEllipsoid):
             'center_vec': 'q'
         }
         field_transform_func_dict = {
-            'shape_mat': lambda z: sqrtm_pos(z, abs_tol),
+            'shape_mat': lambda z: sqrtm_pos(z, sqrt_abs_tol),
             'center_vec': lambda z: z
         }
         field_descr_dict = {
-- 
2.43.0


From 5a231d413bd3fec42ee7a617528ba29c4c9225ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 62/65] fix: is_bigger accepts ellipsoids symmetric within
 their own tolerance only

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a296784..3398e99 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -404,6 +404,8 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, 2. * self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
+        first_shape_mat = 0.5 * (first_shape_mat + first_shape_mat.T)
+        sec_shape_mat = 0.5 * (sec_shape_mat + sec_shape_mat.T)
         t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
-- 
2.43.0


From 86704b15d9ca01309ade535cd7d1148f0e8bbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 63/65] fix: uminus of ellipsoids keeps their properties, so it
 accepts every valid ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 3398e99..83fd855 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -720,8 +720,10 @@ class Ellipsoid(AEllipsoid):
             ell_flat_arr = ell_arr.flatten()
 
             def f_single_uminus(ell_obj):
+                prop_dict = {prop_name: ell_obj.get_property([ell_obj], prop_name, None).flat[0]
+                             for prop_name in ('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points')}
                 return ell_obj.__class__(-ell_obj.get_center_vec(),
-                                         ell_obj.get_shape_mat())
+                                         ell_obj.get_shape_mat(), **prop_dict)
 
             return np.reshape(np.array(list(map(f_single_uminus, ell_flat_arr))), newshape=size_vec)
 
-- 
2.43.0


From 53181d499a0a6644a62b773ceccbea883b439b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 64/65] fix: projection does not reject large ellipsoids
 because of rounding

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 83fd855..c3458b7 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -209,7 +209,8 @@ class Ellipsoid(AEllipsoid):
         pass
 
     def _projection_single_internal(self, ort_basis_mat: np.ndarray):
-        self._shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        self._shape_mat = 0.5 * (shape_mat + shape_mat.T)
         self._center_vec = ort_basis_mat.T @ self.get_center_vec()
 
     @classmethod
-- 
2.43.0


From dce09e37e17f432fa3bb8df38052d9fe7ce77520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 65/65] fix: projection in place projects an object given
 several times once

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index a2e1e2e..07f73ec 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -64,7 +64,9 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             norm_mat = ml.repmat(np.sqrt(norm_sq_vec.T), n_dim, 1)
             ort_basis_mat = basis_mat / norm_mat
             # compute projection
-            [cls._projection_single_internal(x, ort_basis_mat) for x in ell_arr.flatten()]
+            # an object given several times is projected once
+            [cls._projection_single_internal(x, ort_basis_mat)
+             for x in {id(ell_obj): ell_obj for ell_obj in ell_arr.flatten()}.values()]
         return ell_arr
 
     def get_center_vec(self):
-- 
2.43.0

