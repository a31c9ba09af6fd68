From 8f3fa1a66dfacfd13f8f7def917d239d6dbcfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 01/58] fix: avoid 32-bit overflow when computing the total
 size of a tensor index

---
 cpp/include/qugar/tensor_index_tp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..c673797 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,7 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    auto total_size = static_cast<std::int64_t>(TensorSizeTP<dim>(size).size());
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
-- 
2.43.0


From a41d84a0eed63437c37fe49e1c6cebfea9e7f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 02/58] fix: make the comparison of tensor indices
 lexicographic from the last component

---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..36793cf 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -122,6 +122,9 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
       if (rhs(dir) < this->operator()(dir)) {
         return false;
       }
+      if (this->operator()(dir) < rhs(dir)) {
+        return true;
+      }
     }
     return this->operator()(0) < rhs(0);
   }
-- 
2.43.0


From d6833b83251f884c517d9cc6a6e60e82a75626fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/58] fix: iterate over no index for an empty tensor index
 range

---
 cpp/qugar/tensor_index_tp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index 36793cf..8fe9145 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -212,7 +212,8 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
-  return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
+  // An empty range may have non-empty directions.
+  return this->size() > 0 ? Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_) : this->cend();
 }
 
 template<int dim> auto TensorIndexRangeTP<dim>::begin() const -> Iterator
-- 
2.43.0


From 7fc06ede6f22ffce167df1b3d23667c2e42bde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 04/58] fix: build an orthonormal basis around axes (almost)
 parallel to x

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From 359ba9c6a6237d474d3c4f9007ff8bd12d167324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 05/58] fix: return the lowest neighbour for points at the
 boundary between grid cells

---
 cpp/qugar/cart_grid_tp.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..1be0297 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -145,11 +145,9 @@ template<int dim> std::int64_t CartGridTP<dim>::get_cell_id(const PointType &poi
     const auto it = std::prev(std::upper_bound(begin, breaks.cend(), coord + tolerance.value()));
 
     auto dist = static_cast<int>(std::distance(begin, it));
-    if (tolerance.equal(coord, *it)) {
-      if (dist == n_spans) {
-        // Point at last knot.
-        --dist;
-      }
+    if (0 < dist && tolerance.equal(coord, *it)) {
+      // Point at a knot: the neighbor with the lowest index is chosen.
+      --dist;
     }
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= dist && dist < n_spans);
-- 
2.43.0


From 6282c0df34405b54a20970ead5ca9345e7877c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 06/58] fix: account for the axis in the Hessian of the
 cylinder

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..d4a491e 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From 504585c5d685169ad6c2a40e5786d787480f16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 07/58] fix: correct the gradient and Hessian of the annulus

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index d4a491e..c936935 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -493,13 +493,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const auto aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From c2f84b9cd597fabf3a7ac66b020456b5766d742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 08/58] fix: correct the yz entry of the Hessian of trilinear
 functions

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..56d0f75 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      ((cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0)),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 1ac42f585d18a56f611910983b7ba831a5d04eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 09/58] fix: correct the xz entry of the Hessian of the Schoen
 gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..f6562d7 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(2)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From f7fe7a2d4abde1082286e3d88b2ef2aa95a45eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 10/58] fix: use the period along y in the gradient of the
 Schoen IWP surface

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index f6562d7..3558774 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From 9026786576028a112822f4ae253a2148d80142dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 11/58] fix: evaluate the Lagrange basis at the requested nodes

---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From 8170ebf7362b0831bdd7bd3f081ec50337dd65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 12/58] fix: evaluate the gradient of monomials of degree 0
 along the last directions

---
 cpp/qugar/monomials_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..a8c1607 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -280,6 +280,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
 
   Gradient<T> val{ beta.back() };
   Value<T> der{ static_cast<real>(last_degree) * val(0) };
+  if (last_degree == 0) {
+    return add_component(val, dim, der);
+  }
   const T x = point(dim - 1);
 
   for (int i = last_degree - 1; i > 0; --i) {
-- 
2.43.0


From 1f9ce9017af6507bb928e57a6f86ed1ef7ae3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 13/58] fix: hexahedron edges 4 and 6 swapped between
 lexicographic and DOLFINx orderings

---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From dba6f048c18e06909642f92555ac9aba3f4182d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 14/58] fix: internal tensor-product indices returned as a
 matrix (and failing in 3D) instead of a list

---
 python/qugar/mesh/tp_index.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..f0ec99e 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,23 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
-                n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
-            ).reshape(n_inds[1] - 2, 1)
+            return (
+                internals_1D
+                + np.arange(
+                    n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
+                ).reshape(n_inds[1] - 2, 1)
+            ).ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
-                n_inds[0] * n_inds[1],
-                n_inds[0] * n_inds[1] * (n_inds[2] - 1),
-                n_inds[0] * n_inds[1],
-                dtype=np.int64,
-            ).reshape(n_inds[2] - 2, 1)
+            return (
+                internals_2D
+                + np.arange(
+                    n_inds[0] * n_inds[1],
+                    n_inds[0] * n_inds[1] * (n_inds[2] - 1),
+                    n_inds[0] * n_inds[1],
+                    dtype=np.int64,
+                ).reshape(n_inds[2] - 2, 1)
+            ).ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From c5e416e9d91deae59300e42b3e73957b0e13108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 15/58] fix: one-dimensional Cartesian node coordinates kept
 only the first point

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..b2da491 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -151,7 +151,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0].copy()]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From f1389d9643533b1ac0336f17c06d485386c706a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 16/58] fix: facets of a mesh face looked up with the
 lexicographic face id instead of DOLFINx's

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index b2da491..24a3aaa 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From d1e114091ceaf9ff7f4a2dd34f2d17976dedbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 17/58] fix: ghost mode and type passed as active cells and
 ghost mode when creating a Cartesian mesh

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 24a3aaa..547f6f5 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -608,4 +608,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 3982c5359939dc7a4b402d10a8c9e0234440c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 18/58] fix: tensor index of a single cell indexed a scalar and
 always failed

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 547f6f5..d9834bd 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -450,7 +450,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 32bf27baf3c24b9a46de73bdce8d81381190b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 19/58] fix: empty facets of interior integrals overwrote the
 list of cut facets

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From 44c6a10f16747656ec9c1fe471253810e44e6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 20/58] fix: empty facets tagged with the tag of the cut facets

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From 1842db6e875b7cc3f8097ce5088ddae6d13f904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 21/58] fix: last two permutations of quadrilateral facets
 missing

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From b574358b7de98dba0b2c22008fa36e9fb4bba6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 22/58] fix: offset of empty interior facets stored in the row
 of another facet

---
 python/qugar/dolfinx/custom_coefficients.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..2882a20 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,10 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        if interior_facet:
+            all_rel_offsets_[self._get_empty_entities_ids(), 0] = 0
+        else:
+            all_rel_offsets[self._get_empty_entities_ids()] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From 58d2c060acc1e661d4fe187a3b3d10165aabc0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 23/58] fix: offset of the custom data interleaved with the
 coefficients of interior facets

---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 41 ++++++++++++++++++---
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..cc5c5de 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # Interior facet integrals receive the values of both cells.
+            width = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + width * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 2882a20..574aadd 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,28 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _copy_standard_coeffs(
+    coeffs: FloatingArray, new_coeffs: FloatingArray, is_interior_facet: bool
+) -> None:
+    """Copies the coefficients packed by DOLFINx into the (wider) rows
+    of the custom coefficients.
+
+    Args:
+        coeffs (FloatingArray): Coefficients packed by DOLFINx.
+        new_coeffs (FloatingArray): Custom coefficients to be modified.
+        is_interior_facet (bool): Whether the integral is an interior
+            facet one. For those, every pair of rows stores
+            consecutively the coefficients of the two cells sharing the
+            facet, as expected by the integral kernel.
+    """
+    n_rows, n_cols = coeffs.shape
+    if is_interior_facet:
+        rows = new_coeffs[:n_rows].reshape(n_rows // 2, 2 * new_coeffs.shape[1])
+        rows[:, : 2 * n_cols] = coeffs.reshape(n_rows // 2, 2 * n_cols)
+    else:
+        new_coeffs[:n_rows, :n_cols] = coeffs
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -369,7 +391,8 @@ class _CustomCoeffsPackerIntegral:
 
     def _compute_offsets(self) -> None:
         """Computes the custom coefficients offset and copies them into
-        the extra (right-most) columns of `self._new_coeffs`.
+        the extra (right-most) columns of `self._new_coeffs` (for
+        interior facets, right after the coefficients of both cells).
 
         Offsets are stored in *real units*: the kernel reads them as
         ``ptrdiff_t`` and adds them to ``(const T*)w`` (cast first, then
@@ -449,7 +472,14 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        if interior_facet:
+            # The two rows of a facet store consecutively the values of
+            # its two cells. The offset comes right after all of them.
+            n_old_vals = 2 * self._old_coeffs.shape[1]
+            facets_rows = self._new_coeffs[:n_entities].reshape(n_tot_entities, 2 * n_cols_complex)
+            facets_rows[:, n_old_vals : n_old_vals + n_extra_cols] = all_rel_offsets_view[::2]
+        else:
+            self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -801,8 +831,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_standard_coeffs(self._old_coeffs, self._new_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -991,9 +1020,9 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            is_interior_facet = itg_info[0] == IntegralType.interior_facet
+            _copy_standard_coeffs(_new_coeffs_dlf, c, is_interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From ede1e17ffa53069032099fafec45187d422be5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 24/58] fix: quadrature loops identified by the table of
 another quadrature

---
 python/qugar/dolfinx/_kernel_body.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..5acde68 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -207,9 +207,12 @@ class KernelBody:
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
             # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # The weights are looked for first: FFCx shares the tables
+            # with the same values among quadratures, so that the body
+            # may access tables named after another quadrature.
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
-- 
2.43.0


From 940e9a2cbf078288a528d8d505736a89c0dcc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 25/58] fix: tables of several quadratures sharing the scratch
 memory

---
 python/qugar/dolfinx/codegeneration.py | 37 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index cc5c5de..c7b3843 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -32,6 +32,7 @@ from qugar.dolfinx.boundary import ParamNormal
 from qugar.dolfinx.fe_table import FETable
 from qugar.dolfinx.integral_data import IntegralData, extract_integral_data
 from qugar.dolfinx.parsing_utils import dtype_to_C_str
+from qugar.dolfinx.quadrature_data import QuadratureData
 
 
 def _modify_header(code_blocks: CodeBlocks) -> CodeBlocks:
@@ -431,6 +432,8 @@ class _IntegralModifier:
         is_interior_facet = self._data.integral_type == "interior_facet"
 
         call_code = ""
+        group_metas: dict[QuadratureData, list[tuple]] = {}
+        scratch_terms: list[str] = []
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -495,7 +498,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -521,19 +523,30 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
+            group_metas[quad_data] = group_meta
+
+        # A single request for all the quadratures: further requests would
+        # return the same memory.
+        scratch_var = "scratch"
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
+
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
 
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
 
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
+        for quad_data, group_meta in group_metas.items():
+            quad_name = quad_data.name
+            points_name = f"points_{quad_name}"
+            points_side1_name = f"points_side1_{quad_name}"
+            points_facet_name = f"points_facet_{quad_name}"
+            n_pts_name = f"n_pts_Q{quad_name}"
 
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-- 
2.43.0


From 6a0a29d3cd1468bdbe2cc11f2b2fc0791bc13333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 26/58] fix: tables of one-point quadratures read at the first
 custom point of one side only

---
 python/qugar/dolfinx/_kernel_body.py   | 16 ++++++-------
 python/qugar/dolfinx/codegeneration.py | 23 ++++++++++---------
 python/qugar/dolfinx/fe_table.py       | 31 +++++++++++++++++++++-----
 3 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 5acde68..fb5d951 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -29,9 +29,9 @@ the variant kernels with a fluent chain such as::
 
     (body.copy()
          .erase_static_declarations()
+         .inline_pre_loop_into_loops()
          .rewrite_table_accesses()
          .dynamic_loop_bounds()
-         .inline_pre_loop_into_loops()
          .substitute_normals(offsets)
          .render(suffix="_custom"))
 
@@ -379,7 +379,7 @@ class KernelBody:
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
         has_perms = self.integral_type == "interior_facet"
 
-        def transform(text: str) -> str:
+        def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
             pos = 0
             for m in fe_re.finditer(text):
@@ -391,18 +391,16 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(table.create_new_access_code(indices, has_perms, quad_name))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
 
-        # Apply to the pre-loop band and every loop body. Loop headers
-        # never contain FE accesses; post_text is just the function's
-        # closing '}' so it doesn't either.
-        if self.loops:
-            self.loops[0].pre_text = transform(self.loops[0].pre_text)
+        # Apply to every loop body (the pre-loop band was already moved
+        # into them). Loop headers never contain FE accesses; post_text
+        # is just the function's closing '}' so it doesn't either.
         for loop in self.loops:
-            loop.body = transform(loop.body)
+            loop.body = transform(loop.body, loop.quad_name)
         return self
 
     def dynamic_loop_bounds(self) -> "KernelBody":
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index c7b3843..f1c5316 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -478,10 +478,11 @@ class _IntegralModifier:
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
-            # agree on both sides).
+            # with two-sided tables (their values depend on the permutation
+            # or on the local facet), two basix blocks are produced (one per
+            # side) and those tables get an FE..[2] array of per-side
+            # buffers; the others stay single-buffer (their values agree on
+            # both sides).
             #
             # All buffers (basix blocks + per-table repack buffers when
             # vs > 1) live in a SINGLE thread-local scratch obtained from
@@ -503,8 +504,7 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_perm = any(t.two_sided for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -518,7 +518,7 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if table.two_sided:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
@@ -591,7 +591,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = table.two_sided
 
                     if vs == 1:
                         # The basix block's layout already matches the
@@ -718,14 +718,15 @@ class _IntegralModifier:
 
         # Apply the custom-variant transformation pipeline on the
         # structured body. Order matters:
-        #   erase_static -> rewrite_table_accesses -> dynamic_loop_bounds
-        #   -> inline_pre_loop_into_loops -> substitute_normals.
+        #   erase_static -> inline_pre_loop_into_loops
+        #   -> rewrite_table_accesses -> dynamic_loop_bounds
+        #   -> substitute_normals.
         body = (
             self._body.copy()
             .erase_static_declarations()
+            .inline_pre_loop_into_loops()
             .rewrite_table_accesses()
             .dynamic_loop_bounds()
-            .inline_pre_loop_into_loops()
             .substitute_normals(self._get_constant_normal_offsets())
         )
 
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..7fbd34b 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -389,7 +389,18 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    @property
+    def two_sided(self) -> bool:
+        """Whether the values at custom points differ between the two
+        cells sharing an interior facet: the values depend on the
+        permutation of the facet or on the local facet index."""
+        return self._integral_type == "interior_facet" and (
+            self._permutations > 1 or self._entities > 1
+        )
+
+    def create_new_access_code(
+        self, indices: tuple[str, ...], has_permutations: bool, quad_name: str
+    ) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -409,6 +420,8 @@ class FETable:
                 4-dimensional FE table.
             has_permutations (bool): Flat indicating if permutations
                 must be considered (mostly, for interior facets).
+            quad_name (str): Name of the quadrature of the loop in which
+                the table is accessed.
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -417,12 +430,20 @@ class FETable:
         assert not self.is_constant_for_pts()
 
         perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+        if has_permutations and self.two_sided:
+            match = re.search(
+                r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]", indices[0] + indices[1]
+            )
             assert match
             perm_index = int(match.group(1))
 
+        # With a single quadrature point every table is constant for
+        # FFCx, that accesses its only point. Custom quadratures may have
+        # more than one.
+        point_index, dof_index = indices[2:]
+        if point_index.strip() == "0" and quad_name == self.quad_name:
+            point_index = "iq"
+
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
             if index.isdecimal():
@@ -435,7 +456,7 @@ class FETable:
 
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        for index, offset in zip((point_index, dof_index), offsets):
             new_index = transform_index(index)
             if new_index != 0:
                 terms.append(f"{offset}{index}")
-- 
2.43.0


From d548736045e2ece726352d5c59fe7ab32d9af9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 27/58] fix: subdomain id restored as the subdomain data of the
 integrals over all the exterior facets

---
 python/qugar/dolfinx/forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..bc1c307 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -167,8 +167,8 @@ def _modify_everywhere_exterior_facet_integrals(form):
                     integral.integral_type(),
                     integral.ufl_domain(),
                     integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
+                    integral.metadata(),
+                    integral.subdomain_data(),
                 )
 
                 integral._subdomain_data = None
-- 
2.43.0


From 284b151a654860a25a769c221efec2c00e112466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 28/58] fix: metadata shared with other integrals modified by
 the ones over all the exterior facets

---
 python/qugar/dolfinx/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index bc1c307..0880902 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -173,7 +173,9 @@ def _modify_everywhere_exterior_facet_integrals(form):
 
                 integral._subdomain_data = None
                 integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+                # The metadata may be shared with the measure (and thus with
+                # other integrals), so it is extended in a copy.
+                integral._metadata = {**integral.metadata(), "ext_facet_everywhere": True}
 
     return form, tuple(old_integrals)
 
-- 
2.43.0


From 3093bea424df76e8964fba078e578ba65810eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 29/58] fix: integrals over all the exterior facets sharing the
 identifier of a tuple of subdomains

---
 python/qugar/dolfinx/forms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 0880902..cf0f0a2 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -152,8 +152,10 @@ def _modify_everywhere_exterior_facet_integrals(form):
         subdomain_id = -1
         for integral in form.integrals():
             if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
+                ids = integral.subdomain_id()
+                for sid in ids if isinstance(ids, tuple) else (ids,):
+                    if isinstance(sid, int):
+                        subdomain_id = max(subdomain_id, sid)
         return subdomain_id + 1
 
     old_integrals = list(form.integrals())
-- 
2.43.0


From 52c3099c2a493b94ddef25852d7ef7c3874214c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 30/58] fix: subdomain data ignored after an integral over all
 the exterior facets

---
 python/qugar/dolfinx/forms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index cf0f0a2..69f7e0c 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -261,8 +261,11 @@ def form_custom(
         assert isinstance(unf_domain, UnfittedDomainABC)
 
         # Check that subdomain data for each integral type is the same
-        for data in sd.get(domain).values():
-            assert all([d is data[0] for d in data if d is not None])
+        # (the integrals over all the exterior facets have none).
+        type_data = {}
+        for key, data in sd.get(domain).items():
+            type_data[key] = next((d for d in data if d is not None), None)
+            assert all([d is type_data[key] for d in data if d is not None])
 
         msh = domain.ufl_cargo()
         if msh is None:
@@ -329,9 +332,9 @@ def form_custom(
         # types)
         subdomains = {
             _ufl_to_dolfinx_domain[key]: get_integration_domains(
-                _ufl_to_dolfinx_domain[key], subdomain_data[0], subdomain_ids[key]
+                _ufl_to_dolfinx_domain[key], subdomain_data, subdomain_ids[key]
             )
-            for (key, subdomain_data) in sd.get(domain).items()
+            for (key, subdomain_data) in type_data.items()
         }
 
         for subdomain_id in everywhere_ext_facet_ids:
-- 
2.43.0


From 8ed55ac7309278b694f19c8c0fe215b259182a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 31/58] fix: forms of a list dropped

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 69f7e0c..1c0cc3c 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -365,6 +365,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From e295b99220edaab498ae451920193bb54fd8d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 32/58] fix: coefficients of a list of forms updated from the
 whole list

---
 python/qugar/dolfinx/petsc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..9596094 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,21 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form, sub_coeffs)
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From e2f9cfa9829debd8805a542fd1e48b66b6995081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 33/58] fix: form left modified when its compilation fails

---
 python/qugar/dolfinx/forms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 1c0cc3c..b599042 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -251,6 +251,14 @@ def form_custom(
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
         form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        try:
+            return _compile_form(form)
+        finally:
+            # Reverting modified exterior integrals
+            form._integrals = old_integrals
+
+    def _compile_form(form) -> CustomForm:
+        """Compile a single UFL form with modified exterior integrals."""
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -341,9 +349,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 802285372dfc2cb2eaf8c2051f2c08b1a01b17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 34/58] fix: boundary measure over a tuple of subdomains
 multiplied twice by the area ratio

---
 python/qugar/dolfinx/boundary.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..d2278e3 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,17 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        subdomain_id = self.subdomain_id()
+        if isinstance(subdomain_id, tuple):
+            # The parent splits the tuple through ``reconstruct``, whose
+            # measures introduce the complement themselves.
+            return ufl.Form(
+                [
+                    integral
+                    for sid in subdomain_id
+                    for integral in (integrand * self.reconstruct(subdomain_id=sid)).integrals()
+                ]
+            )
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 8b4dbe41524cb56ed49f7d4398b0df476e45d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 35/58] fix: monomials facet extraction ignored all but the
 last coefficient on the upper side

---
 cpp/qugar/monomials_tp.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index a8c1607..22fc99d 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,19 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()), CoefsType{ 0.0 });
 
-  TensorIndexTP<dim> lower_bound(0);
+  // Along the constant direction, the only non-zero monomial at 0 is the first one,
+  // whereas all the monomials are 1 at 1.
   TensorIndexTP<dim> upper_bound(this->get_order());
   if (side == 0) {
     upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
   }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
+  const TensorIndexRangeTP<dim> indices_range(TensorIndexTP<dim>(0), upper_bound);
 
-  auto new_coef = new_coefs.begin();
   for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+    const TensorIndexTP<dim - 1> facet_tid(remove_component(tid.as_Vector(), const_dir));
+    at(new_coefs, facet_tid.flat(new_order)) += at(this->coefs_, tid.flat(this->get_order()));
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From 90fb9f7e455dbc241b19d21c1930086ea8e4a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 36/58] fix: 3D tensor-product quadratures shifted the weights
 instead of the points

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From 44349a945a45aa9a79ae1b5b61f8a82a15afa70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 37/58] fix: Bezier cells classified by the sign over the unit
 box instead of over the cell

---
 cpp/qugar/impl_unfitted_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..7f09081 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -194,7 +194,7 @@ namespace {
     BezierTP<dim> bzr_domain(bezier);
     bzr_domain.rescale_domain(domain);
 
-    switch (bezier.sign()) {
+    switch (bzr_domain.sign()) {
     case FuncSign::positive:
       return ImmersedCellStatusTmp::empty;
     case FuncSign::negative:
-- 
2.43.0


From de75f07b86b48d084152908e5373836fcb102b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 38/58] fix: cut cells of small volume classified as empty

---
 cpp/qugar/impl_unfitted_domain.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 7f09081..c154609 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -163,14 +163,16 @@ namespace {
   template<int dim>
   ImmersedCellStatusTmp classify_cell_from_quad(const QuadRule<dim> &quad, const BoundBox<dim> &domain)
   {
-    const auto cell_vol = quad.sumWeights();
+    // The volume is compared relative to the one of the domain, such that
+    // the classification does not depend on the size of the cells.
+    const auto vol_ratio = quad.sumWeights() / domain.volume();
 
     const Tolerance default_tol;
-    if (default_tol.equal(cell_vol, numbers::zero)) {
+    if (default_tol.equal(vol_ratio, numbers::zero)) {
       // It is an empty cell but with an unfitted boundary (on the cell's boundary).
       // We consider that the unfitted boundary belongs to a neighbor cell.
       return ImmersedCellStatusTmp::empty;
-    } else if (default_tol.equal(cell_vol, domain.volume())) {
+    } else if (default_tol.equal(vol_ratio, numbers::one)) {
       // Full cell but with an unfitted boundary (on a cell's boundary).
       return ImmersedCellStatusTmp::full_with_unf_bdry;
     } else {
-- 
2.43.0


From db5f239dea1db2e3d236fd8943e7f44011b2402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 39/58] fix: facet quadratures asserted on facets with unfitted
 boundary that are not cut

---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..2f0d90e 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From 30ba3e3b39f01493f931629e9dcf675557014cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 40/58] fix: points on the external boundary kept in the
 quadratures of cut facets

---
 cpp/qugar/impl_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 2f0d90e..45715f0 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -302,7 +302,8 @@ namespace {
   {
     const bool has_unf_bdry = unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
     purge_unf_bdry = purge_unf_bdry && has_unf_bdry;
-    purge_unf_ext_bdry = purge_unf_ext_bdry && has_unf_bdry;
+    purge_unf_ext_bdry =
+      purge_unf_ext_bdry && (has_unf_bdry || unf_domain.has_external_boundary(cell_id, local_facet_id));
     purge_cut = purge_cut && unf_domain.is_cut_facet(cell_id, local_facet_id);
 
     if (!purge_unf_bdry && !purge_unf_ext_bdry && !purge_cut) {
-- 
2.43.0


From 19cf6c03bd78392c3d4a449efc28dbf7d6d220b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 41/58] fix: unfitted boundary points on facets with external
 boundary counted twice

---
 cpp/qugar/impl_quadrature.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 45715f0..77b8f21 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -573,9 +573,7 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
-        purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
-      }
+      purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
     }
   } else {
     // it's full with unfitted boundaries.
-- 
2.43.0


From 06a5cf40d2bf1e1848b0e5bdd702aced283ba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 42/58] fix: install the basix shim atomically once it is
 complete

---
 python/qugar/dolfinx/_shim/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..ec978f9 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,11 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Build into a temporary file that is moved atomically to its final
+        # place once complete: the fast path above takes no lock, so an
+        # unfinished library (or what a killed build left) must never be there.
+        tmp_lib = lib.with_name(f".{lib.name}.{os.getpid()}.tmp")
+
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,7 +161,7 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp_lib),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
@@ -167,7 +172,13 @@ def ensure_built() -> tuple[Path, str]:
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+            # The install name defaults to the output file.
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
+        try:
+            subprocess.run(cmd, check=True)
+            tmp_lib.replace(lib)
+        finally:
+            tmp_lib.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From 62e3296b4d070661b102cc96641de2137d9df169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:45 +0000
Subject: [PATCH 43/58] fix: restore the root logger's handlers also when the
 JIT compilation fails

---
 python/qugar/dolfinx/jit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..5abc30a 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,13 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers (in case someone is logging
+        # into root logger and has custom handlers)
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +194,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From 03b267eb9aa47a152642ce2c6adea6747d938a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:28 +0000
Subject: [PATCH 44/58] fix: keep repeated linker tokens other than search
 paths in LDSHARED

---
 python/qugar/dolfinx/jit.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 5abc30a..4268fb3 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -74,12 +74,21 @@ def _deduped_ldshared():
     distutils honors the ``LDSHARED`` env var as a full override of
     ``sysconfig.LDSHARED``, so we feed it the same flags with duplicates
     removed (order preserved) just for the duration of the cffi compile.
+
+    Only repeated library and run-time search paths are removed: other
+    tokens may be arguments of the preceding flag (e.g., in
+    ``-arch arm64 -arch x86_64``), and removing them would change its
+    meaning.
     """
     saved = os.environ.get("LDSHARED")
     raw = sysconfig.get_config_var("LDSHARED") or ""
     if raw:
-        deduped = " ".join(dict.fromkeys(raw.split()))
-        os.environ["LDSHARED"] = deduped
+        tokens: list[str] = []
+        for token in raw.split():
+            if token in tokens and token.startswith(("-L/", "-Wl,-rpath,")):
+                continue
+            tokens.append(token)
+        os.environ["LDSHARED"] = " ".join(tokens)
     try:
         yield
     finally:
-- 
2.43.0


From 516534c5ed5c21652b3f0bfa3ebfd35ede3f7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:28 +0000
Subject: [PATCH 45/58] fix: do not override an LDSHARED set by the user when
 linking kernels

---
 python/qugar/dolfinx/jit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 4268fb3..cc3612b 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -81,7 +81,8 @@ def _deduped_ldshared():
     meaning.
     """
     saved = os.environ.get("LDSHARED")
-    raw = sysconfig.get_config_var("LDSHARED") or ""
+    # An LDSHARED set by the user prevails over the one of sysconfig.
+    raw = saved or sysconfig.get_config_var("LDSHARED") or ""
     if raw:
         tokens: list[str] = []
         for token in raw.split():
-- 
2.43.0


From f552e1510fec1b8b436112b1721eefa81e22342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 46/58] fix: tensor-product corners, faces and edges overflow
 for grids with more than 2^31 indices

---
 python/qugar/mesh/tp_index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index f0ec99e..890878e 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -58,6 +58,7 @@ class TensorProdIndex:
         """
 
         dim = len(n_inds)
+        n_inds = np.asarray(n_inds, dtype=np.int64)  # Flat indices may not fit in 32 bits.
         assert 1 <= dim <= 3
 
         if dim == 1:
@@ -89,6 +90,7 @@ class TensorProdIndex:
         """
 
         dim = len(n_inds)
+        n_inds = np.asarray(n_inds, dtype=np.int64)  # Flat indices may not fit in 32 bits.
         assert 1 <= dim <= 3
 
         if dim == 1:
@@ -129,6 +131,7 @@ class TensorProdIndex:
         """
 
         dim = len(n_inds)
+        n_inds = np.asarray(n_inds, dtype=np.int64)  # Flat indices may not fit in 32 bits.
         assert 1 <= dim <= 3
 
         if dim == 1:
@@ -236,6 +239,7 @@ class TensorProdIndex:
         """
 
         dim = len(n_inds)
+        n_inds = np.asarray(n_inds, dtype=np.int64)  # Flat indices may not fit in 32 bits.
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
         if not lexicg:
@@ -301,6 +305,7 @@ class TensorProdIndex:
         """
 
         dim = len(n_inds)
+        n_inds = np.asarray(n_inds, dtype=np.int64)  # Flat indices may not fit in 32 bits.
         assert 1 <= dim <= 3
 
         if not lexicg:
-- 
2.43.0


From f8a99d511daf1f05b1f8d8a489ed4765f40806f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 47/58] fix: use equally spaced nodes for the meshes of
 reparameterizations

The points of a reparameterization are equally spaced in the parametric
domain of its cells (below seven points per direction). Placing them at
GLL nodes from degree 3 on led to geometries that lose their accuracy.
---
 python/qugar/reparam/reparam.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/qugar/reparam/reparam.py b/python/qugar/reparam/reparam.py
index cc0d035..6ae39ed 100644
--- a/python/qugar/reparam/reparam.py
+++ b/python/qugar/reparam/reparam.py
@@ -142,12 +142,17 @@ class UnfDomainReparamMesh:
 
         gdim = points.shape[1]
 
+        # The element's nodes must be those of the reparameterization:
+        # equally spaced up to degree 5. (From degree 6 on they are
+        # modified Chebyshev nodes, which are not available in Basix.)
+        lagrange_variant = (
+            basix.LagrangeVariant.equispaced if degree < 6 else basix.LagrangeVariant.gll_warped
+        )
         element = basix.ufl.element(
             "Lagrange",
             cell_type,
             degree,
-            # lagrange_variant=basix.LagrangeVariant.equispaced,
-            lagrange_variant=basix.LagrangeVariant.gll_warped,
+            lagrange_variant=lagrange_variant,
             discontinuous=False,
             shape=(gdim,),
             dtype=points.dtype,
-- 
2.43.0


From 40d441e2ce0a9143e119fb56dbe62297513a8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:28 +0000
Subject: [PATCH 48/58] fix: compare versions whose major numbers differ

0.2.0 was not considered to be lower than or equal to 1.1.0.
---
 python/qugar/utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..e8dbeea 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -105,12 +105,7 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
     lhs = _extract_version(version_lhs)
     rhs = _extract_version(version_rhs)
 
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
-    else:
-        return lhs[2] <= rhs[2]
+    return lhs <= rhs
 
 
 def check_version_in_range(version, lower, upper) -> bool:
-- 
2.43.0


From 7e4e971fbdf9f2d60130a9b1c86753bda6e6ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:28 +0000
Subject: [PATCH 49/58] fix: accept post-releases of the dependencies

Versions as 0.10.0.post1 made the import of qugar fail.
---
 python/qugar/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index e8dbeea..1c0c209 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -54,7 +54,8 @@ The imported UFL version must be smaller than this version.
 
 def _extract_version(version_str: str) -> Tuple[int, int, int]:
     """Extracts the major, minor, and revision numbers of a string with
-    with format "X.Y.Z".
+    with format "X.Y.Z". Anything after a third dot (e.g., the ".post1"
+    of post-releases) is ignored.
 
     Args:
         version_str (str): Version sring with format "X.Y.Z".
@@ -63,7 +64,7 @@ def _extract_version(version_str: str) -> Tuple[int, int, int]:
         Tuple[int,int,int]: Major, minor, and revision numbers (i.e.,
         X, Y, and Z).
     """
-    vals = tuple(int(val) for val in version_str.split("."))
+    vals = tuple(int(val) for val in version_str.split(".")[:3])
     vals = cast(Tuple[int, int, int], vals)
     assert len(vals) == 3
     return vals
-- 
2.43.0


From 3f504567e33751ea7321ff5e818d89955df831e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 50/58] fix: keep the highest degree of the integrals that
 share a quadrature rule

All the integrals over unfitted boundaries share a rule, and the degree
of the last one was used for all of them.
---
 python/qugar/dolfinx/quadrature_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..1f2e04c 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,10 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Integrals with different degrees may share the rule (as
+                # all the unfitted boundaries do). The highest degree rules.
+                previous = quads_data.get(quad_data.name)
+                if previous is None or previous.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From b29d16f927ca7e859b208962a07238529aa4ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 51/58] fix: build tensor-product rules for cells when sum
 factorization is used

The method integral_type was compared instead of its value, so that the
rule was never the one FFCx uses in that case.
---
 python/qugar/dolfinx/quadrature_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 1f2e04c..d12f445 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -69,7 +69,7 @@ def _extract_single_quadrature_data(
     """
 
     use_sum_factorization = (
-        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type == "cell"
+        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type() == "cell"
     )
 
     metadata = ufl_integrand.metadata() or {}
-- 
2.43.0


From c5c3073fa29d73ee94a2a5a36e7dc0e4146ec6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:58 +0000
Subject: [PATCH 52/58] fix: use equally spaced nodes for the geometry of the
 meshes

The nodes of Cartesian meshes are equally spaced within the cells, but the
coordinate element was created with the default (warped GLL) variant: for
degrees above two the cells were not mapped affinely.
---
 python/qugar/mesh/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..d696176 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -346,8 +346,14 @@ class Mesh(dolfinx.mesh.Mesh):
         else:
             gdim = nodes_coords.shape[1]
 
+        # The nodes of (Cartesian) meshes are equally spaced within the cells.
         element = basix.ufl.element(
-            "Lagrange", cell_type, self.degree, shape=(gdim,), dtype=nodes_coords.dtype
+            "Lagrange",
+            cell_type,
+            self.degree,
+            lagrange_variant=basix.LagrangeVariant.equispaced,
+            shape=(gdim,),
+            dtype=nodes_coords.dtype,
         )
         domain = ufl.Mesh(element)
 
-- 
2.43.0


From d510ad94572209251db3fffa80ded7d7b408bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:13 +0000
Subject: [PATCH 53/58] fix: create boxes with an affine transformation

The wrapper that takes a transformation is create_square, for both
dimensions: create_square_2D and create_square_3D take no arguments. Besides,
leaving the (optional) dimension out raised an AssertionError.
---
 python/qugar/impl/impl_function.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..5fb281d 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -561,14 +561,11 @@ def create_box(
             cpp_obj = qugar.cpp.create_square_3D()
 
     else:
-        assert dim == (2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3), (
-            "Non-matching affine transformation and dimension"
-        )
+        transf_dim = 2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3
+        assert dim is None or dim == transf_dim, "Non-matching affine transformation and dimension"
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        # The wrapper for transformed boxes has the same name in 2D and 3D.
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From c30880e29696a4fb2beff8e63d1129fe77fcada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:13 +0000
Subject: [PATCH 54/58] fix: reject ellipsoids whose semi-axes are not positive

As documented, and as it is done for ellipses.
---
 python/qugar/impl/impl_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 5fb281d..a23ced8 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0.0), "Invalid semi-axes. They must be all positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
-- 
2.43.0


From 678d8c840ced41ccf89e850b5888ea9ebd9cf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:13 +0000
Subject: [PATCH 55/58] fix: check the number of coordinates of the center and
 the axis of a torus, as documented

---
 python/qugar/impl/impl_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index a23ced8..8a2c863 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -344,6 +344,10 @@ def create_torus(
     minor_radius = np.float64(minor_radius)
     assert minor_radius > 0.0, "Invalid outer radius. It must be positive"
 
+    if center is not None:
+        assert center.size == 3, "Invalid center dimension. It must have 3 coordinates"
+    assert axis is None or axis.size == 3, "Invalid axis dimension. It must have 3 coordinates"
+
     if center is None:
         if axis is None:
             return ImplicitFunc(qugar.cpp.create_torus(major_radius, minor_radius, use_bzr))
-- 
2.43.0


From bea8d92125601cb436281d4ddea4966c70371b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:09 +0000
Subject: [PATCH 56/58] fix: plot the status of the cells of DOLFINx domains in
 their place

The domain's cells are DOLFINx ids, but the cells of the PyVista grid are
sorted lexicographically: both numberings differ in general.
---
 python/qugar/plot/pyvista_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..a58e0a6 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -623,6 +623,14 @@ def unfitted_domain_to_PyVista(
     value[full_cells] = full
     status[full_cells] = 0
 
+    if not is_cpp:
+        # The cells of the domain follow DOLFINx's numbering, while
+        # those of the grid are sorted lexicographically.
+        dlf_cells = grid.cell_data["DOLFINx local cell ids"]
+        is_local = dlf_cells >= 0
+        value = np.where(is_local, value[dlf_cells], False)
+        status = np.where(is_local, status[dlf_cells], np.uint8(2))
+
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
 
-- 
2.43.0


From fa766ac7d6dae48343b4c9497b1b54e0f8fcb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:35 +0000
Subject: [PATCH 57/58] fix: plot the facets of unfitted domains in their place

The facets of DOLFINx domains were used as if their cells and local indices
followed the lexicographical numbering, and those of C++ domains, which are
tuples of arrays of cells and facets, were not supported.
---
 python/qugar/plot/pyvista_tools.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index a58e0a6..5de93fb 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -527,8 +527,10 @@ def unfitted_domain_facets_to_PyVista(
 
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
+    lex_cell_ids = np.asarray(grid.cell_data["Lexicographical cell ids"])
 
-    dim = domain.tdim
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
@@ -555,9 +557,19 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, cells_facets in facets.items():
+        if is_cpp:
+            cell_ids, local_facet_ids = cells_facets
+        else:
+            lex_cells_facets = cells_facets.to_original(domain.mesh)
+            cell_ids = lex_cells_facets.cell_ids
+            local_facet_ids = lex_cells_facets.local_facet_ids
+
+        # Positions of the cells in the grid.
+        cell_ids = np.searchsorted(lex_cell_ids, cell_ids)
+
+        vtk_facets = vtk_lex_mask[local_facet_ids]
+        vtk_cells = cell_ids * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +581,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From 00546a2f38dae2db60f24185570d93ba6b9c1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:48 +0000
Subject: [PATCH 58/58] fix: do not reparameterize cells where a Bezier
 function is positive

---
 cpp/qugar/impl_reparam_bezier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..74195c6 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,8 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            // Inactive domain: nothing to reparameterize.
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0

