From b70f3254c96f8c3e1998dae2d280a690df10d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:59 +0000
Subject: [PATCH 01/35] fix: norms of a (residuals, Jacobian) pair could not be
 instantiated

---
 include/tinyopt/losses/norms.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 1b0db1e..8ba6103 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -14,6 +14,16 @@ namespace tinyopt::losses {
  * @{
  */
 
+// Declarations needed by the pair overloads
+template <typename T, typename ExportJ>
+auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true);
+template <typename T, typename ExportJ>
+auto L2(const T &x, const ExportJ &Jx_or_bool);
+template <typename T, typename ExportJ>
+auto L1(const T &x, const ExportJ &Jx_or_bool);
+template <typename T, typename ExportJ>
+auto Linf(const T &x, const ExportJ &Jx_or_bool);
+
 /// Return the squared L2 norm of a vector or scalar (a.k.a Sum of Squares)
 template <typename T>
 auto SquaredL2(const T &x) {
@@ -29,7 +39,7 @@ auto SquaredL2(const T &x) {
 
 /// Return the squared L2 norm of a vector or scalar and its jacobian  (x.t())
 template <typename T, typename ExportJ>
-auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true) {
+auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale) {
   constexpr bool IsMatrix = traits::is_matrix_or_array_v<T> || traits::is_sparse_matrix_v<T>;
   const auto l = SquaredL2(x);
   if constexpr (std::is_null_pointer_v<ExportJ>) {
-- 
2.43.0


From 779f09c1d01c082ba7f85ff07c3f919b7cff1c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:59 +0000
Subject: [PATCH 02/35] fix: chain rule of the L1 norm did not compile

---
 include/tinyopt/losses/norms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 8ba6103..f53508b 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -116,7 +116,7 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     if constexpr (traits::is_bool_v<ExportJ>)
       return std::make_pair(l, RowVector<Scalar, DimsJ>(x.array().sign()));
     else
-      return std::make_pair(l, (x.array().sign() * Jx_or_bool).eval());
+      return std::make_pair(l, (x.array().sign().matrix().transpose() * Jx_or_bool).eval());
   } else {  // scalar
     return std::make_pair(l, 1);
   }
-- 
2.43.0


From c7b4c28958b32507ede195d771bb041c8a273518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:35 +0000
Subject: [PATCH 03/35] fix: scalar norms ignored the sign of x and the given
 Jacobian

---
 include/tinyopt/losses/norms.h | 35 ++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index f53508b..0d41e3e 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -14,6 +14,15 @@ namespace tinyopt::losses {
  * @{
  */
 
+/// Jacobian of a scalar norm, composed with the Jacobian of its argument
+template <typename T, typename Jac>
+auto ScaledJacobian(const T &s, const Jac &Jx) {
+  if constexpr (traits::is_matrix_or_array_v<Jac> || traits::is_sparse_matrix_v<Jac>)
+    return (s * Jx).eval();
+  else
+    return T(s * Jx);
+}
+
 // Declarations needed by the pair overloads
 template <typename T, typename ExportJ>
 auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true);
@@ -53,7 +62,11 @@ auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, add_scale ? T(2.0) * x : x);
+    const T J = add_scale ? T(T(2.0) * x) : x;
+    if constexpr (traits::is_matrix_or_scalar_v<std::decay_t<ExportJ>>)
+      return std::make_pair(l, ScaledJacobian(J, Jx_or_bool));
+    else
+      return std::make_pair(l, J);
   }
 }
 
@@ -85,7 +98,11 @@ auto L2(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J.transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    const T J = x >= T(0) ? T(1.0) : T(-1.0);
+    if constexpr (traits::is_matrix_or_scalar_v<std::decay_t<ExportJ>>)
+      return std::make_pair(l, ScaledJacobian(J, Jx_or_bool));
+    else
+      return std::make_pair(l, J);
   }
 }
 
@@ -118,7 +135,11 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (x.array().sign().matrix().transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    const T J = x >= T(0) ? T(1.0) : T(-1.0);
+    if constexpr (traits::is_matrix_or_scalar_v<std::decay_t<ExportJ>>)
+      return std::make_pair(l, ScaledJacobian(J, Jx_or_bool));
+    else
+      return std::make_pair(l, J);
   }
 }
 
@@ -155,10 +176,12 @@ auto Linf(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    if (x >= 0)
-      return std::make_pair(x, T(1.0));
+    const T l = Linf(x);
+    const T J = x >= T(0) ? T(1.0) : T(-1.0);
+    if constexpr (traits::is_matrix_or_scalar_v<std::decay_t<ExportJ>>)
+      return std::make_pair(l, ScaledJacobian(J, Jx_or_bool));
     else
-      return std::make_pair(-x, T(-1.0));
+      return std::make_pair(l, J);
   }
 }
 
-- 
2.43.0


From 6a5d356eda5cfa627ab981158982641c7d94be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:43 +0000
Subject: [PATCH 04/35] fix: cosine distance returned wrong values and
 Jacobians

---
 include/tinyopt/distances.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/tinyopt/distances.h b/include/tinyopt/distances.h
index 0303056..b00361c 100644
--- a/include/tinyopt/distances.h
+++ b/include/tinyopt/distances.h
@@ -67,10 +67,15 @@ auto Linf(const TA &a, const TB &b, const ExportJ &export_jac = nullptr) {
 /// Compute the cosine distance between `a` and `b`: d(a,b) = a ∠ b
 template <typename TA, typename TB, typename ExportJ = std::nullptr_t>
 auto Cosine(const TA &a, const TB &b, const ExportJ & = nullptr) {
-  if constexpr (traits::is_nullptr_v<ExportJ>) {
-    return TA(0);
-  } else if constexpr (traits::is_scalar_v<TA>) {
-    return std::make_tuple(TA(0), TA(0), TA(0));
+  if constexpr (traits::is_scalar_v<TA>) {
+    if constexpr (traits::is_nullptr_v<ExportJ>)
+      return TA(0);
+    else
+      return std::make_tuple(TA(0), TA(0), TA(0));
+  } else if constexpr (traits::is_nullptr_v<ExportJ>) {
+    using Scalar = std::decay_t<typename TA::Scalar>;
+    const Scalar ab_norm = a.norm() * b.norm();
+    return ab_norm < FloatEpsilon2<Scalar>() ? Scalar(0) : Scalar(a.dot(b) / ab_norm);
   } else {  // Vectors
     using Scalar = std::decay_t<typename TA::Scalar>;
     constexpr double eps2 = FloatEpsilon2<Scalar>();
@@ -79,12 +84,12 @@ auto Cosine(const TA &a, const TB &b, const ExportJ & = nullptr) {
     const auto a_norm = a.norm();
     const auto b_norm = b.norm();
     if (a_norm * b_norm < eps2) {
-      return std::make_tuple(Scalar(0), Vec::Zero(a.size()), Vec::Zero(a.size()));
+      return std::make_tuple(Scalar(0), Vec(Vec::Zero(a.size())), Vec(Vec::Zero(a.size())));
     } else {
       const auto ab = a.dot(b);
-      const auto d = (ab / (a_norm * b_norm));
+      const Scalar d = (ab / (a_norm * b_norm));
       Vec Ja = (b / (a_norm * b_norm)) - (ab * a / (a_norm * a_norm * a_norm * b_norm));
-      Vec Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm));
+      Vec Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm * b_norm));
       return std::make_tuple(d, Ja, Jb);
     }
   }
-- 
2.43.0


From 60f00c757ff64b0a1e93cc466049e6ef8c4c0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:56 +0000
Subject: [PATCH 05/35] fix: activation losses of a scalar returned a zero
 Jacobian

---
 include/tinyopt/losses/helpers.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/tinyopt/losses/helpers.h b/include/tinyopt/losses/helpers.h
index ec91122..88bb2d4 100644
--- a/include/tinyopt/losses/helpers.h
+++ b/include/tinyopt/losses/helpers.h
@@ -45,10 +45,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, (0 /*TODO*/ * Jx_or_bool).matrix().eval());                      \
+      using Scalar = std::decay_t<T>;                                                             \
+      const Scalar J = name(Vector<Scalar, 1>(x), true).second(0, 0);                             \
+      if constexpr (traits::is_matrix_or_array_v<std::decay_t<ExportJ>>) {                        \
+        return std::make_pair(l, (J * Jx_or_bool).matrix().eval());                               \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
@@ -91,10 +95,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, ((0 /*TODO*/) * Jx_or_bool).matrix().eval());                    \
+      using Scalar = std::decay_t<T>;                                                             \
+      const Scalar J = name(Vector<Scalar, 1>(x), a, true).second(0, 0);                          \
+      if constexpr (traits::is_matrix_or_array_v<std::decay_t<ExportJ>>) {                        \
+        return std::make_pair(l, (J * Jx_or_bool).matrix().eval());                               \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
-- 
2.43.0


From dcc749d3f31e15188432194bc8f23b6a3ebe63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:57 +0000
Subject: [PATCH 06/35] fix: parametric losses of a pair swapped the parameter
 and the Jacobian

---
 include/tinyopt/losses/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/helpers.h b/include/tinyopt/losses/helpers.h
index 88bb2d4..1d9a2d2 100644
--- a/include/tinyopt/losses/helpers.h
+++ b/include/tinyopt/losses/helpers.h
@@ -67,7 +67,7 @@
   template <typename T, typename ParamType = float>                                               \
   auto name(const T &x, ParamType a) {                                                            \
     if constexpr (traits::is_pair_v<T>) {                                                         \
-      return name(x.first, x.second, a);                                                          \
+      return name(x.first, a, x.second);                                                          \
     } else {                                                                                      \
       constexpr bool IsMatrix = traits::is_matrix_or_array_v<T> || traits::is_sparse_matrix_v<T>; \
       if constexpr (IsMatrix) { /* matrix */                                                      \
-- 
2.43.0


From 1fdfecd8e5f3409d6207e6441a8dc287da5b8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/35] fix: SafeSoftmax of a scalar returned a pair only when
 none was requested

---
 include/tinyopt/losses/classif.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/losses/classif.h b/include/tinyopt/losses/classif.h
index ae752f3..1b5fefb 100644
--- a/include/tinyopt/losses/classif.h
+++ b/include/tinyopt/losses/classif.h
@@ -56,11 +56,11 @@ auto SafeSoftmax(const T &x, const ExportJ &Jx_or_bool = nullptr) {
     return SafeSoftmax(x.first, x.second);
   } else if constexpr (!IsMatrix) {  // scalar
     if constexpr (std::is_null_pointer_v<ExportJ>)
-      return std::make_pair(1, 1);
+      return 1;
     else if constexpr (traits::is_matrix_or_array_v<ExportJ>)
       return std::make_pair(1, Jx_or_bool);
     else
-      return 1;
+      return std::make_pair(1, 1);
   } else {  // Matrix
     using std::exp;
     using Scalar = typename T::Scalar;
-- 
2.43.0


From e5792fa4b767ff3f603e52708d2cbe0d65587647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:22 +0000
Subject: [PATCH 08/35] fix: pow and midpoint of run-time sized Jets wrote into
 an empty derivative vector

---
 include/tinyopt/3rdparty/ceres/jet.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index e8b1030..98ec8af 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -1207,9 +1207,16 @@ inline Jet<T, N> midpoint(const Jet<T, N>& a, const Jet<T, N>& b) {
   Jet<T, N> result{midpoint(a.a, b.a)};
   // To avoid overflow in the differential, compute
   // (da + db) / 2 using midpoint.
-  const int n = N != Eigen::Dynamic ? N : a.v.size();
-  for (int i = 0; i < n; ++i) {
-    result.v[i] = midpoint(a.v[i], b.v[i]);
+  if constexpr (N != Eigen::Dynamic) {
+    for (int i = 0; i < N; ++i) {
+      result.v[i] = midpoint(a.v[i], b.v[i]);
+    }
+  } else {
+    const int n = std::max(a.v.size(), b.v.size());
+    result.v.setZero(n);
+    for (int i = 0; i < n; ++i) {
+      result.v[i] = midpoint(a.v.size() > 0 ? a.v[i] : T(0), b.v.size() > 0 ? b.v[i] : T(0));
+    }
   }
   return result;
 }
@@ -1282,6 +1289,7 @@ inline Jet<T, N> pow(T f, const Jet<T, N>& g) {
     if (f < 0 && g == floor(g.a)) {  // Handle case 3.
       result = Jet<T, N>(pow(f, g.a));
       const int n = N != Eigen::Dynamic ? N : g.v.size();
+      if constexpr (N == Eigen::Dynamic) result.v.setZero(n);
       for (int i = 0; i < n; i++) {
         if (fpclassify(g.v[i]) != FP_ZERO) {
           // Return a NaN when g.v != 0.
-- 
2.43.0


From 1f5b36018b5731c5ab4361072a95b8c8092a717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:26 +0000
Subject: [PATCH 09/35] fix: hypot, fma and lerp of run-time sized Jets mixed
 with constants combined vectors of different sizes

---
 include/tinyopt/3rdparty/ceres/jet.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index 98ec8af..41117e6 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -761,7 +761,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x, const Jet<T, N>& y) {
   // d/dx sqrt(x^2 + y^2) = 0.5 / sqrt(x^2 + y^2) * 2x = x / sqrt(x^2 + y^2)
   // d/dy sqrt(x^2 + y^2) = y / sqrt(x^2 + y^2)
   const T tmp = hypot(x.a, y.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  else
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y).v);
 }
 
 // Like sqrt(x^2 + y^2 + z^2),
@@ -781,7 +784,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x,
   // d/dy sqrt(x^2 + y^2 + z^2) = y / sqrt(x^2 + y^2 + z^2)
   // d/dz sqrt(x^2 + y^2 + z^2) = z / sqrt(x^2 + y^2 + z^2)
   const T tmp = hypot(x.a, y.a, z.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  else
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y + z.a / tmp * z).v);
 }
 
 // Like x * y + z but rounded only once.
@@ -792,7 +798,10 @@ inline Jet<T, N> fma(const Jet<T, N>& x,
   // d/dx fma(x, y, z) = y
   // d/dy fma(x, y, z) = x
   // d/dz fma(x, y, z) = 1
-  return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  else
+    return Jet<T, N>(fma(x.a, y.a, z.a), (y.a * x + x.a * y + z).v);
 }
 
 // Return value of fmax() and fmin() on equality
@@ -1188,8 +1197,12 @@ template <typename T, int N>
 inline Jet<T, N> lerp(const Jet<T, N>& a,
                       const Jet<T, N>& b,
                       const Jet<T, N>& t) {
-  return Jet<T, N>{lerp(a.a, b.a, t.a),
-                   (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  else
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     ((T(1) - t.a) * a + t.a * b + (b.a - a.a) * t).v};
 }
 
 // Computes the midpoint a + (b - a) / 2.
-- 
2.43.0


From a2fa6654b21eb32aada0139a9b53980615a060ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:03 +0000
Subject: [PATCH 10/35] fix: the update of a pair added the second part's
 displacement to the first part

---
 include/tinyopt/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index a1d4601..853f0e6 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -344,7 +344,7 @@ struct params_trait<std::pair<T1, T2>> {
     if constexpr (Scalar2ParamsTraits::Dims == Dynamic)
       Scalar2ParamsTraits::PlusEq(v.second, delta.tail(Scalar2ParamsTraits::dims(v.second)));
     else
-      Scalar2ParamsTraits::PlusEq(v.first, delta.template tail<Scalar2ParamsTraits::Dims>());
+      Scalar2ParamsTraits::PlusEq(v.second, delta.template tail<Scalar2ParamsTraits::Dims>());
   }
 };
 
-- 
2.43.0


From 3438aeaed10676464426bb8fcfbbd19fe0ba0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:09 +0000
Subject: [PATCH 11/35] fix: the update of containers of run-time sized
 elements used wrong segments of the displacement

---
 include/tinyopt/traits.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index 853f0e6..cb69f86 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -246,6 +246,7 @@ struct params_trait<std::vector<_Scalar>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;  // used by elements of run-time size
     for (std::size_t i = 0; i < v.size(); ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -253,7 +254,9 @@ struct params_trait<std::vector<_Scalar>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
@@ -294,6 +297,7 @@ struct params_trait<std::array<_Scalar, N>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;  // used by elements of run-time size
     for (std::size_t i = 0; i < N; ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -301,7 +305,9 @@ struct params_trait<std::array<_Scalar, N>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
-- 
2.43.0


From 2921de132c29d72862518cd2734b113d4d337176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/35] fix: user types with a compile-time size needed a
 dims() method to be part of a pair

---
 include/tinyopt/traits.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index cb69f86..a4e90d7 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -129,7 +129,12 @@ struct params_trait<T, std::void_t<decltype(T::Dims)>> {
   static constexpr Index Dims = T::Dims;  // Compile-time parameters dimensions
 
   // Execution-time parameters dimensions
-  static Index dims(const T& v) { return Dims == Dynamic ? v.dims() : Dims; }
+  static Index dims([[maybe_unused]] const T& v) {
+    if constexpr (Dims == Dynamic)
+      return v.dims();
+    else
+      return Dims;
+  }
 
   // Cast to a new type, only needed when using automatic differentiation
   template <typename T2>
-- 
2.43.0


From 60228eb58d0de144eef2248e033ddea1685bdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:57 +0000
Subject: [PATCH 13/35] fix: numerical differentiation of matrix residuals did
 not compile

---
 include/tinyopt/diff/num_diff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/num_diff.h b/include/tinyopt/diff/num_diff.h
index 25f1f9f..5290ca9 100644
--- a/include/tinyopt/diff/num_diff.h
+++ b/include/tinyopt/diff/num_diff.h
@@ -119,7 +119,7 @@ auto NumEval(const X_t &x, const Func &f, const diff::Method &method = diff::Met
       if constexpr (std::is_scalar_v<ResType2>)
         J[r] = (res_plus - res) / h;
       else
-        J.col(r) = (res_plus.reshaped() - res) / h;
+        J.col(r) = (res_plus.reshaped() - res.reshaped()) / h;
     }
   }
   return std::make_pair(res, J);
-- 
2.43.0


From c89d49c55fac5b9e9ffbf3f8338d1fa77534f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:03 +0000
Subject: [PATCH 14/35] fix: pairs with scalar parts could not be
 differentiated automatically

---
 include/tinyopt/diff/jet_traits.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/jet_traits.h b/include/tinyopt/diff/jet_traits.h
index 7ed7374..6b06f58 100644
--- a/include/tinyopt/diff/jet_traits.h
+++ b/include/tinyopt/diff/jet_traits.h
@@ -48,7 +48,7 @@ struct params_trait<diff::Jet<_Scalar, N>> {
   static constexpr Index Dims =
       params_trait<Scalar>::Dims == Dynamic ? Dynamic : 1;  // Compile-time parameters dimensions
   // Execution-time parameters dimensions
-  static auto dims(const T& v) { return params_trait<Scalar>::dims(v); }
+  static auto dims(const T& v) { return params_trait<Scalar>::dims(v.a); }
   // Cast to a new type, only needed when using automatic differentiation
   template <typename T2>
   static auto cast(const T& v) {
@@ -60,7 +60,12 @@ struct params_trait<diff::Jet<_Scalar, N>> {
       return T2(v);  // use casting operator  by default
   }
   // Define update / manifold
-  static void PlusEq(T& v, const auto& delta) { v += delta; }
+  static void PlusEq(T& v, const auto& delta) {
+    if constexpr (is_scalar_v<std::decay_t<decltype(delta)>>)
+      v += delta;
+    else
+      v += delta[0];
+  }
 };
 
 }  // namespace tinyopt::traits
-- 
2.43.0


From 3f2d8a0c11228ba600ba9260d3f034b764a30067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:21 +0000
Subject: [PATCH 15/35] fix: residuals unrelated to run-time sized parameters
 were read out of bounds

A residual that does not depend on the parameters has no derivatives when the
number of parameters is only known at run time. Its Jacobian row is zero.
---
 include/tinyopt/diff/optimize_autodiff.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index 64881f3..a979574 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -88,6 +88,14 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     }
   };
 
+  // Set one row of the jacobian, a residual not connected to the parameters may have no derivatives
+  auto set_row = [&](auto &J, Index i, const auto &v) {
+    if (Dims == Dynamic && v.size() != dims)
+      J.row(i).setZero();
+    else
+      J.row(i) = v;
+  };
+
   auto acc = [&](const auto &x, auto &grad, auto &H) {
     using H_t = decltype(H);
     constexpr bool HasGrad = !traits::is_nullptr_v<decltype(grad)>;
@@ -131,12 +139,12 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
           for (int c = 0; c < res.cols(); ++c)
             for (int r = 0; r < res.rows(); ++r) {
               const Index i = r + c * res.rows();
-              if constexpr (HasGrad) J.row(i) = res(r, c).v;
+              if constexpr (HasGrad) set_row(J, i, res(r, c).v);
               res_f[i] = res(r, c).a;
             }
         } else {  // Vector
           for (Index i = 0; i < res_size; ++i) {
-            if constexpr (HasGrad) J.row(i) = res[i].v;
+            if constexpr (HasGrad) set_row(J, i, res[i].v);
             res_f[i] = res[i].a;
           }
         }
-- 
2.43.0


From 7f14aa581c873852cb062d207e852658c4cc95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:35 +0000
Subject: [PATCH 16/35] fix: damping_init = 0 did not keep the
 Levenberg-Marquardt damping disabled

The first good or bad step raised lambda to the lower bound of the damping
range.
---
 include/tinyopt/solvers/lm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 75da41d..6eda360 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -132,7 +132,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (lambda_ > 0.0)  // damping is disabled otherwise
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
   }
 
@@ -140,7 +141,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (lambda_ > 0.0)  // damping is disabled otherwise
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
   }
 
-- 
2.43.0


From 999e8f6a48c80e076bb1522633a46b822c7b513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:59 +0000
Subject: [PATCH 17/35] fix: SolverLM::Hessian() returned a damped matrix
 before the first good or bad step

prev_lambda_ was only updated by GoodStep and BadStep. It now always is the
damping that has been applied to H_.
---
 include/tinyopt/solvers/lm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 6eda360..b45502b 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -63,6 +63,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
       if (resize_and_clear) {
         this->ResizeIfNeeded(x);
         this->clear();
+        prev_lambda_ = 0;
       }
 
       // Accumulate residuals and update both gardient and Hessian approx (Jt*J)
@@ -114,6 +115,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
         else
           this->H_.coeffRef(i, i) *= s;
       }
+      prev_lambda_ = lambda_;
     }
 
     return true;
@@ -131,7 +133,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     // Check whether the previous 'bad' step was actually good and revert the last scaling
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
-    prev_lambda_ = lambda_;
     if (lambda_ > 0.0)  // damping is disabled otherwise
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
@@ -140,7 +141,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   /// Damping stategy for a bad step: decrease the damping factor \lambda
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
-    prev_lambda_ = lambda_;
     if (lambda_ > 0.0)  // damping is disabled otherwise
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
@@ -191,7 +191,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
  protected:
   const Options options_;
   Scalar lambda_ = 1e-4f;              ///< Initial damping factor  (\lambda)
-  Scalar prev_lambda_ = 0.0f;          ///< Previous damping factor  (0 at start)
+  Scalar prev_lambda_ = 0.0f;          ///< Damping factor applied to H_ (0 at start)
   Scalar bad_factor_ = 2.0f;           ///< Current damping scaling factor for bad steps
   bool rebuild_linear_system_ = true;  ///< Whether the linear system (H and gradient) have to be
                                        ///< rebuilt or a simple evaluation can do it.
-- 
2.43.0


From 43965b9268d57df15fa4ab17b405ab441fd822e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:59 +0000
Subject: [PATCH 18/35] fix: SolverGN::MaxStdDev threw when the Hessian could
 not be inverted

---
 include/tinyopt/solvers/gn.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index e0e3015..ba2f969 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -176,10 +176,13 @@ class SolverGN
   /// H being the damped Hessian H_ if use_damped == true (faster) or un-damped Hessian() (accurate)
   Scalar MaxStdDev(bool use_damped = true) const {
     const auto &H = use_damped ? H_ : Hessian();
+    const auto I = InvCov(H);
+    if (!I) return 0;
+    using std::sqrt;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(InvCov(H).value().coeffs().maxCoeff());
+      return sqrt(I.value().coeffs().maxCoeff());
     else
-      return sqrt(InvCov(H).value().maxCoeff());
+      return sqrt(I.value().maxCoeff());
   }
 
   /// Latest Covariance estimate
-- 
2.43.0


From 6f36e440aa05c4ca38653dfd355d12b84009bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:59 +0000
Subject: [PATCH 19/35] fix: SolverGD::Evaluate did not compile

---
 include/tinyopt/solvers/gd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/solvers/gd.h b/include/tinyopt/solvers/gd.h
index 5f42c8c..f997422 100644
--- a/include/tinyopt/solvers/gd.h
+++ b/include/tinyopt/solvers/gd.h
@@ -96,7 +96,7 @@ class SolverGD
   inline Scalar Evaluate(const X_t &x, const AccFunc &acc, bool save) {
     std::nullptr_t nul;
     const auto acc2 = GetAccFunc(acc);
-    const auto &cost = acc2(x, nul);
+    Cost cost = acc2(x, nul);
     this->NormalizeCost(cost);
     if (save) this->cost_ = cost;
     return cost.cost;
-- 
2.43.0


From f4f83baaecdb123b9f216e76656e8a06aceb9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:46 +0000
Subject: [PATCH 20/35] fix: num_diff_used was overwritten by the output of the
 run

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 0a2f138..7601bb0 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -170,7 +170,6 @@ class Optimizer_ {
         // TODO #pragma message("Your function cannot be auto-differentiated,
         // using numerical differentiation")
         Output out;
-        out.num_diff_used = true;
         if constexpr (SolverType::FirstOrder) {
           auto loss = diff::CreateNumDiffFunc1(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
@@ -178,6 +177,7 @@ class Optimizer_ {
           auto loss = diff::CreateNumDiffFunc2(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
         }
+        out.num_diff_used = true;
         return out;
       }
 #else
-- 
2.43.0


From dba5b3c07e710552ab0b2aa31477cc9d724112a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:10 +0000
Subject: [PATCH 21/35] fix: iteration, failure and residual counters wrapped
 around

With 65536 iterations the iteration counter restarted at 0, which made the
optimizer accept any step as if it was the first one.
---
 include/tinyopt/output.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 30237e8..e8dbb88 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -113,10 +113,10 @@ struct Output {
    * @name Statistics
    * @{
    */
-  uint16_t num_residuals = 0;  ///< Final number of residuals
-  uint16_t num_iters = 0;      ///< Final number of iterations
-  uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
-  uint8_t num_consec_failures =
+  int num_residuals = 0;  ///< Final number of residuals
+  int num_iters = 0;      ///< Final number of iterations
+  int num_failures = 0;   ///< Final number of failures to decrease the error
+  int num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
 
   TimePoint start_time =
-- 
2.43.0


From fe1cf2103f4f0dedee14dacf274c6a7475c32a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:10 +0000
Subject: [PATCH 22/35] fix: a failing solver was retried forever with
 max_consec_failures = 0

The number of tries of an iteration was bounded by a failure counter that could
never exceed the bound.
---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 7601bb0..30b71b3 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -355,7 +355,7 @@ class Optimizer_ {
     // Solver linear a few times until it's enough
     const uint8_t max_tries =
         options_.max_consec_failures > 0 ? std::max<uint8_t>(1, options_.max_consec_failures) : 255;
-    for (; out.num_consec_failures <= max_tries;) {
+    for (int tries = 0; tries <= max_tries; ++tries) {
       // Accumulate residuals and jacobians
       if (solver_.Build(x, acc, resize_and_clear_solver)) {
         // Ok, let's try to solve for `dx` now
-- 
2.43.0


From 8476c9b6cead3845aeae7a66abdd3254e10e875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:10 +0000
Subject: [PATCH 23/35] fix: the number of residuals was never reported

Without it the covariance could not be rescaled.
---
 include/tinyopt/optimizers/optimizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 30b71b3..5194a02 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -443,6 +443,7 @@ class Optimizer_ {
       if (iter > 0) solver_.GoodStep(options_.use_step_quality_approx ? rel_derr : 0.0f);
       out.num_consec_failures = 0;
       out.final_cost = cost;
+      out.num_residuals = cost.num_resisuals;
       out.final_rerr_dec = rel_derr;
     } else { /* BAD Step */
       solver_.BadStep();
-- 
2.43.0


From 0fa93e6c2aa149fc4af52a48d3a8533bc78cb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:10 +0000
Subject: [PATCH 24/35] fix: a time out replaced the stop reason of the last
 iteration

---
 include/tinyopt/optimizers/optimizer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 5194a02..c4df59c 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -300,7 +300,8 @@ class Optimizer_ {
 
       // Check for a time out
       out.duration_ms += static_cast<float>(toc_ms(t));
-      if (options_.max_duration_ms > 0 && out.duration_ms > options_.max_duration_ms) {
+      if (out.stop_reason == StopReason::kNone && options_.max_duration_ms > 0 &&
+          out.duration_ms > options_.max_duration_ms) {
         out.stop_reason = StopReason::kTimedOut;
       }
       // Iteration done
-- 
2.43.0


From eb3633f680f6431a69f61977b41f698dfab9dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:10 +0000
Subject: [PATCH 25/35] fix: the description of kMinDeltaNorm read the last
 element of an empty history

---
 include/tinyopt/stop_reasons.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/stop_reasons.h b/include/tinyopt/stop_reasons.h
index a1f4c79..8186903 100644
--- a/include/tinyopt/stop_reasons.h
+++ b/include/tinyopt/stop_reasons.h
@@ -67,8 +67,8 @@ std::string StopReasonDescription(const Output &out, const Options &options = {}
     case StopReason::kMinDeltaNorm:
       os << "🌞 Reached minimal delta norm (success)";
       if constexpr (!traits::is_nullptr_v<Options>) {
-        if (out.deltas2.empty())
-          os << " |δX|:[" << out.deltas2.back() << " < " << std::sqrt(options.min_step_norm2)
+        if (!out.deltas2.empty())
+          os << " |δX|:[" << std::sqrt(out.deltas2.back()) << " < " << std::sqrt(options.min_step_norm2)
              << "]";
         else
           os << " [|δX| < " << std::sqrt(options.min_step_norm2) << "]";
-- 
2.43.0


From 1edd9d481694083ce63fe9dbec194912aa81d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:58 +0000
Subject: [PATCH 26/35] fix: some messages were printed with logging disabled

The warning about LDLT of the sparse solvers and the errors about the
parameters' dimensions or the solver type ignored options.log.enable.
---
 include/tinyopt/optimize.h             |  3 ++-
 include/tinyopt/optimizers/optimizer.h | 13 ++++++++-----
 include/tinyopt/solvers/gn.h           |  3 ++-
 include/tinyopt/solvers/lm.h           |  3 ++-
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/tinyopt/optimize.h b/include/tinyopt/optimize.h
index cbc55a8..0743112 100644
--- a/include/tinyopt/optimize.h
+++ b/include/tinyopt/optimize.h
@@ -71,7 +71,8 @@ inline Output Optimize(T &x, const Func &func, const Options &options = {}) {
         return optimizer(x, func);
       }
     default:
-      TINYOPT_LOG("❌ Error: Unknown solver type {}", (int)options.solver_type);
+      if (options.log.enable)
+        TINYOPT_LOG("❌ Error: Unknown solver type {}", (int)options.solver_type);
       throw std::invalid_argument("Error: Unknown solver type");
   }
 }
diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index c4df59c..bcfd653 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -61,12 +61,14 @@ class Optimizer_ {
   std::variant<StopReason, bool> ResizeIfNeeded(X_t &x) {
     const Index dims = traits::DynDims(x);  // Dynamic size
     if (Dims == Dynamic && dims == 0) {
-      TINYOPT_LOG(
-          "❌ Error: Parameters dimensions cannot be 0 or Dynamic at "
-          "execution time");
+      if (options_.log.enable)
+        TINYOPT_LOG(
+            "❌ Error: Parameters dimensions cannot be 0 or Dynamic at "
+            "execution time");
       return StopReason::kSkipped;
     } else if (dims < 0) {
-      TINYOPT_LOG("❌ Error: Parameters dimensions is negative: {} ", dims);
+      if (options_.log.enable)
+        TINYOPT_LOG("❌ Error: Parameters dimensions is negative: {} ", dims);
       return StopReason::kSkipped;
     }
 
@@ -85,7 +87,8 @@ class Optimizer_ {
       }
       return StopReason::kOutOfMemory;
     } catch (const std::invalid_argument &e) {
-      TINYOPT_LOG("❌ Error: Failed to resize the linear solver. {}", e.what());
+      if (options_.log.enable)
+        TINYOPT_LOG("❌ Error: Failed to resize the linear solver. {}", e.what());
       return StopReason::kSkipped;
     }
     return resized;
diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index ba2f969..b54bfcb 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -31,7 +31,8 @@ class SolverGN
   explicit SolverGN(const Options &options = {}) : Base(options) {
     // Sparse matrix must use LDLT
     if constexpr (traits::is_sparse_matrix_v<H_t>) {
-      if (!options.hessian.use_ldlt) TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
+      if (options.log.enable && !options.hessian.use_ldlt)
+        TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
     }
   }
 
diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index b45502b..5cbc980 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -37,7 +37,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   explicit SolverLM(const Options &options = {}) : Base(options), options_{options} {
     // Sparse matrix must use LDLT
     if constexpr (traits::is_sparse_matrix_v<H_t>) {
-      if (!options.hessian.use_ldlt) TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
+      if (options.log.enable && !options.hessian.use_ldlt)
+        TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
     }
     reset();
   }
-- 
2.43.0


From cb813bd20409ee164f6bf57395edfc0b7f685fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:59 +0000
Subject: [PATCH 27/35] fix: CheckResidualsGradient did not compile for
 functions without Hessian

---
 include/tinyopt/diff/gradient_check.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 8be968d..60e109d 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -84,7 +84,10 @@ inline bool CheckGradient(
 
   // Estimate numerical jacobian
   auto f = [&](const X_t &x) {
-    if constexpr (HasH) {
+    if constexpr (HasH &&
+                  !std::is_invocable_v<AccFunc, const X_t &, std::nullptr_t &, MaybeHessian_t &>)
+      return acc(x, nul, nul);
+    else if constexpr (HasH) {
       MaybeHessian_t H;
       H.resize(dims, dims);
       H.setZero();
-- 
2.43.0


From ed4334487d7d14b6f90f14e3ebb65c3ddddc98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:59 +0000
Subject: [PATCH 28/35] fix: gradient checkers accepted NaN entries

---
 include/tinyopt/diff/gradient_check.h | 4 ++--
 include/tinyopt/math.h                | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 60e109d..d6ebcfa 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -97,7 +97,7 @@ inline bool CheckGradient(
   };
 
   const auto grad_num = EstimateNumJac(x, f, method, eps / 10.0f).transpose().eval();
-  const double max_dist = (grad_num - grad).cwiseAbs().maxCoeff();
+  const double max_dist = (grad_num - grad).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
   const bool is_within_tol = max_dist < eps;
   if (!is_within_tol && verbose)
     TINYOPT_LOG("Wrong gradient {:.3e}>eps. \nGradient:{}, Numerial Gradient:{}", max_dist, grad,
@@ -206,7 +206,7 @@ inline bool CheckResidualsGradient(
 
     double max_dist;
     if constexpr (DenseH)
-      max_dist = (H_num - H).cwiseAbs().maxCoeff();
+      max_dist = (H_num - H).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
     else {
       MaybeHessian_t H_num_sparse = H_num.sparseView();
       H_num_sparse.makeCompressed();
diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index ce90186..7fb5fbb 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -343,6 +343,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
         }
       }
       T diff = std::abs(val1 - val2);
+      if (std::isnan(diff)) return diff;  // not hidden by max
       maxDiff = std::max(maxDiff, diff);
     }
   }
@@ -363,6 +364,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
       }
       if (!found) {  // if the element was not found in mat1
         T diff = std::abs(val1 - val2);
+        if (std::isnan(diff)) return diff;
         maxDiff = std::max(maxDiff, diff);
       }
     }
-- 
2.43.0


From c6e389887c62d88cb142fee617bae353e6a459ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:08:48 +0000
Subject: [PATCH 29/35] fix: an externally defined TINYOPT_LOG did not compile

---
 include/tinyopt/log.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tinyopt/log.h b/include/tinyopt/log.h
index 5248685..df146a4 100644
--- a/include/tinyopt/log.h
+++ b/include/tinyopt/log.h
@@ -9,6 +9,11 @@
 
 // TINYOPT_LOG(...) is externally defined so we'll use it
 
+#ifndef TINYOPT_FORMAT_NS
+#include <format>
+#define TINYOPT_FORMAT_NS std
+#endif
+
 #elif HAS_FMT
 #include <fmt/core.h>
 #include <fmt/ostream.h>
-- 
2.43.0


From be6d5a0b84b5f89886b10a8272f4a7d7670f5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:08:48 +0000
Subject: [PATCH 30/35] fix: the option TINYOPT_DISABLE_AUTODIFF did not
 disable automatic differentiation

---
 cmake/Configuration.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/Configuration.cmake b/cmake/Configuration.cmake
index f71ff0d..6050714 100644
--- a/cmake/Configuration.cmake
+++ b/cmake/Configuration.cmake
@@ -6,7 +6,7 @@ function(configure_tinyopt_features TARGET_NAME)
   target_compile_definitions(${TARGET_NAME} INTERFACE
       HAS_EIGEN # mandatory
       $<$<NOT:$<BOOL:${TINYOPT_ENABLE_FORMATTERS}>>:TINYOPT_NO_FORMATTERS=1>
-      $<$<BOOL:${TINYOPT_DISABLE_AUTODIFF}>:TINYOPT_NO_FORMATTERS=1>
+      $<$<BOOL:${TINYOPT_DISABLE_AUTODIFF}>:TINYOPT_DISABLE_AUTODIFF=1>
       $<$<BOOL:${TINYOPT_DISABLE_NUMDIFF}>:TINYOPT_DISABLE_NUMDIFF=1>
       $<$<TARGET_EXISTS:fmt::fmt>:HAS_FMT>
       $<$<TARGET_EXISTS:Ceres::ceres>:HAS_CERES>
-- 
2.43.0


From bce2033ce99ef4f498fa6b2d1d6b633b17cf4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:50 +0000
Subject: [PATCH 31/35] fix: rebuild the system on the first iteration of every
 run

An optimizer object whose previous run ended with an evaluation only kept
the previous problem's gradient and Hessian for the first iteration of the
next run.
---
 include/tinyopt/optimizers/optimizer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index bcfd653..09a14ea 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -252,6 +252,9 @@ class Optimizer_ {
     max_iters++;                                 // +1 to potentially roll-back
     if (options_.check_final_cost) max_iters++;  // one last time to check the final error
 
+    // A previous run may have ended with an evaluation only
+    solver_.Rebuild(true);
+
     out.errs.reserve(max_iters + 1);
     out.deltas2.reserve(max_iters + 1);
     out.successes.reserve(max_iters + 1);
-- 
2.43.0


From d4d1e0169f43107dfc65f93a81dfe9e9cf474094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:28:19 +0000
Subject: [PATCH 32/35] fix: no NaN from Tanh for large arguments

The exponentials overflowed and the quotient of two infinities was returned.
---
 include/tinyopt/losses/activations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/activations.h b/include/tinyopt/losses/activations.h
index cbb2131..8892add 100644
--- a/include/tinyopt/losses/activations.h
+++ b/include/tinyopt/losses/activations.h
@@ -18,7 +18,7 @@ DefineLoss(
 
 /// @brief Tanh = (e^x-e^-x)/(e^x+e^-x),   derivative = 1 - Tanh(x)^2
 DefineLoss(
-    Tanh, (exp(x) - exp(-x)) / (exp(x) + exp(-x)),
+    Tanh, tanh(x),
     l.unaryExpr([](auto x) -> Scalar { return Scalar(1.0) - x * x; }).reshaped().asDiagonal());
 
 /// @brief ReLU = max(0, x),  derivative = {x>0:1, x<=0:0}
-- 
2.43.0


From 4b9b5f3031f2cbd021cf9e30348410885cb05a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:28:19 +0000
Subject: [PATCH 33/35] fix: no infinite or NaN BlakeZisserman loss for large
 thresholds

Both exponentials underflowed to zero, so the loss was the logarithm of
zero and its scale zero times infinity.
---
 include/tinyopt/losses/robust_norms.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/losses/robust_norms.h b/include/tinyopt/losses/robust_norms.h
index a3a0d8d..3fc80b6 100644
--- a/include/tinyopt/losses/robust_norms.h
+++ b/include/tinyopt/losses/robust_norms.h
@@ -288,12 +288,12 @@ auto BlakeZisserman(const T &n2, typename traits::params_trait<T>::Scalar th2,
     using std::log;
     using std::sqrt;
     static_assert(!traits::is_matrix_or_array_v<T>, "`n` must be a scalar");
-    const auto epsilon = T(exp(-th2));
-    const auto l = -log(exp(-n2) + epsilon);
+    const T d = n2 - T(th2);  // only exponentials of negative numbers are summed
+    const T l = d < T(0.0) ? T(n2 - log(T(1.0) + exp(d))) : T(T(th2) - log(T(1.0) + exp(-d)));
     if constexpr (std::is_null_pointer_v<ExportJ>) {  // no jacobians
       return l;
     } else {
-      const auto J_scale = T(1.0) / (epsilon * exp(n2) + T(1.0));
+      const auto J_scale = T(1.0) / (exp(d) + T(1.0));
       if constexpr (traits::is_bool_v<ExportJ>)
         return std::make_pair(l, J_scale);
       else
-- 
2.43.0


From 869c263015adf7032acae05e06d333451dcc9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:07:52 +0000
Subject: [PATCH 34/35] fix: keep gradient and Hessian sizes for a scalar
 residual without derivatives

---
 include/tinyopt/diff/optimize_autodiff.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index a979574..5cff9c5 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -121,6 +121,9 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
         if constexpr (std::is_floating_point_v<X_t>) {
           grad[0] = J[0] * res.a;
           if constexpr (HasH) H(0, 0) = J[0] * J[0];
+        } else if (Dims == Dynamic && J.size() != dims) {  // not connected to the parameters
+          grad.setZero();
+          if constexpr (HasH) H.setZero();
         } else {
           grad = J.transpose() * res.a;
           if constexpr (HasH) H = J * J.transpose();
-- 
2.43.0


From 454828236fc57782c40c3d3f3f9a13e99552715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:07:52 +0000
Subject: [PATCH 35/35] fix: return a zero Jacobian row for a scalar residual
 without derivatives

---
 include/tinyopt/diff/auto_diff.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/auto_diff.h b/include/tinyopt/diff/auto_diff.h
index 8a88f51..fc92fa4 100644
--- a/include/tinyopt/diff/auto_diff.h
+++ b/include/tinyopt/diff/auto_diff.h
@@ -77,7 +77,9 @@ auto Eval(const X_t &x, const CostOrResFunc &cost_or_res_func, bool check_residu
       (traits::is_matrix_or_array_v<ResType> && traits::is_jet_type_v<typename ResType::Scalar>));
 
   if constexpr (!traits::is_matrix_or_array_v<ResType>) {  // One residual
-    return std::make_pair(res.a, res.v.transpose().eval());
+    auto J = res.v.transpose().eval();
+    if (Dims == Dynamic && J.size() != dims) J.setZero(1, dims);  // not connected to the parameters
+    return std::make_pair(res.a, J);
   } else {
     constexpr int ResDims = traits::params_trait<ResType>::Dims;
     const Index res_dims = traits::DynDims(res);
-- 
2.43.0

