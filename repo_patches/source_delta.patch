From 3d30c14d551dca0d415a0f86f2629fe92b1a55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 01/81] fix: binomial coefficients no longer overflow for large
 orders

---
 gbs/math.ixx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..c44c646 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -66,7 +66,14 @@
         }
         else
         {
-            return T(factorial(n)) / T(factorial(k) * factorial(n - k));
+            // Multiplicative form: every partial product is itself a binomial
+            // coefficient, factorials overflow the integer type L far earlier.
+            T b{1};
+            for (L i{1}; i <= k; i++)
+            {
+                b = b * T(n - k + i) / T(i);
+            }
+            return b;
         }
     }
 
-- 
2.43.0


From 89ee97e3c9d0407937e243aabadafa6b4fe99749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:11 +0000
Subject: [PATCH 02/81] fix: reject insertion of a knot outside of the knots
 range

---
 gbs/knotsfunctions.ixx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..65e70c4 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -362,10 +362,16 @@
      *   - The function checks if there is enough room to insert the new knots given their current multiplicity.
      *   - If there is no room for the additional knots (s >= p), the function returns an adjusted index.
      *   - The value of r is minimized to not exceed p - s, ensuring valid knot insertion.
+     *   - A knot outside of the knot vector's range is rejected with std::out_of_range, nothing is modified.
      */
     template <typename T, size_t dim>
     auto insert_knots(T u, size_t p, size_t r, std::vector<T> &UP, std::vector<std::array<T, dim>> &P)
     {
+        if(!(u >= UP.front() - knot_eps<T> && u <= UP.back() + knot_eps<T>))
+        {
+            throw std::out_of_range("insert_knots: knot value out of the knots range.");
+        }
+        u = std::min(std::max(u, UP.front()), UP.back());
 
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
-- 
2.43.0


From 36a9f4aaa671cb12cdc587637c6bee25ba3c00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:11 +0000
Subject: [PATCH 03/81] fix: knot removal no longer accesses poles out of range
 for end knots, knots given within tolerance or too many removals

---
 gbs/knotsfunctions.ixx | 92 +++++-------------------------------------
 1 file changed, 9 insertions(+), 83 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 65e70c4..84decce 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -465,12 +465,15 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot
-        if(std::abs(U[r]-u)>knot_eps<T> || r ==0 || r == U.size())
+        if(r < 0 || std::abs(U[r]-u)>knot_eps<T> || U[r] <= U.front() || U[r] >= U.back())
         {
             return ;
         }
+        u = U[r];
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        // A knot can't be removed more than its multiplicity
+        num = std::min<size_t>(num, s);
 
         int m = U.size();
         int ord = p + 1;
@@ -571,7 +574,7 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (r < 0 || std::abs(U[r] - u) > knot_eps<T> || U[r] <= U.front() || U[r] >= U.back())
         {
             return size_t{0};
         }
@@ -579,9 +582,12 @@
         {
             return size_t{0};
         }
+        u = U[r];
 
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        // A knot can't be removed more than its multiplicity
+        num = std::min<size_t>(num, s);
 
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
@@ -699,87 +705,7 @@
     template <typename T, size_t dim>
     auto remove_knot(T u, size_t p, std::vector<T> &U, std::vector<std::array<T, dim>> &Pw, T tol)
     {
-        // Determine the knot interval that contains u
-        auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
-
-        // if u is not a knot
-        if(std::abs(U[r]-u)>knot_eps<T>)
-        {
-            return false;
-        }
-        
-        // Find the multiplicity of the knot u
-        auto s = multiplicity(u, U);
-        auto m = U.size();
-        auto n = Pw.size();
-        
-        // Determine the first and last affected control points
-        auto first = r - p;
-        auto last = r - s;
-        
-        std::list<std::array<T, dim>> Pi;
-        std::list<std::array<T, dim>> Pj;
-        
-
-        auto i{first};
-        auto j{last};
-        
-        // Initialize lists of control points Pi and Pj
-        Pi = {Pw[first - 1]};
-        Pj = {Pw[last + 1]};
-        
-        while (j > i)
-        {
-            // Compute blending factors
-            auto ai = (u - U[i]) / (U[i + p + 1 ] - U[i]);
-            auto aj = (u - U[j]) / (U[j + p + 1] - U[j]);
-
-            // Compute new control points
-            Pi.push_back((Pw[i] - (1 - ai) * Pi.back()) / ai);
-            Pj.push_front((Pw[j] - aj * Pj.front()) / (1 - aj));
-            i++;
-            j--;
-        }
-        
-        bool remove_flag = false;
-        if (j < i)
-        {
-            // If the knot can be removed, update Pi and Pj
-            auto d = distance(Pi.back(), Pj.front());
-            if (d < tol)
-            {
-                remove_flag = true;
-                Pj.pop_front();
-            }
-        }
-        else
-        {
-            // Check if knot removal is possible
-            auto ai = (u - U[i]) / (U[i + p + 1] - U[i]);
-            auto d = distance(Pw[i], ai * Pi.back() + (1 - ai) * Pj.front());
-            if (d < tol)
-            {
-                remove_flag = true;
-                Pj.pop_front();
-                Pi.pop_back();
-            }
-        }
-
-        if (remove_flag)
-        {
-            auto Pw_beg = Pw.begin();
-            std::vector<std::array<T, dim>> head{Pw_beg, std::next(Pw_beg, first)};
-            std::vector<std::array<T, dim>> tail{std::next(Pw_beg, last + 1), Pw.end()};
-            Pw = std::move(head);
-            Pw.insert(Pw.end(), Pi.begin(), Pi.end());
-            Pw.insert(Pw.end(), Pj.begin(), Pj.end());
-            Pw.insert(Pw.end(), tail.begin(), tail.end());
-
-            U.erase(std::next(U.begin(),r), std::next(U.begin(),r+1));
-        }
-
-
-        return remove_flag;
+        return remove_knot(u, p, size_t{1}, U, Pw, tol) == 1;
     }
     /**
      * @brief Change parametrization to fit between k1 and k2
-- 
2.43.0


From 5976eec2dfe7d23eab5b5f15a3d0441c8a853729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:44 +0000
Subject: [PATCH 04/81] fix: trimming keeps the bounds consistent with the
 knots and rejects an empty range

---
 gbs/bscurve.h          |  6 +++++-
 gbs/bssurf.h           | 14 +++++++++++---
 gbs/knotsfunctions.ixx | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..06fe9f0 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -539,10 +539,14 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
+                m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
+            }
+            else
+            {
+                m_bounds = {u1,u2};
             }
         }
         /**
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..605fb49 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -980,8 +980,8 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            m_bounds[0] = m_knotsFlatsU.front();
+            m_bounds[1] = m_knotsFlatsU.back();
         }
 
         /**
@@ -997,7 +997,15 @@ namespace gbs
         auto trimV(T v1, T v2) -> void
         {
             invertUV();
-            trimU(v1, v2);
+            try
+            {
+                trimU(v1, v2);
+            }
+            catch(...)
+            {
+                invertUV();
+                throw;
+            }
             invertUV();
         }
 
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 84decce..1c0f336 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -993,8 +993,14 @@
     template <typename T, size_t dim>
     auto trim(size_t p, std::vector<T> &knots_flats, std::vector<std::array<T, dim>> &poles, T u1, T u2) -> void
     {
-        trim_begin<T,dim>(p,knots_flats,poles,fmin(u1,u2));
-        trim_end<T,dim>(p,knots_flats,poles,fmax(u1,u2));
+        auto u_beg = std::max(std::min(u1,u2), knots_flats.front());
+        auto u_end = std::min(std::max(u1,u2), knots_flats.back());
+        if(!(u_end - u_beg > knot_eps<T>))
+        {
+            throw std::invalid_argument("trim: empty range.");
+        }
+        trim_begin<T,dim>(p,knots_flats,poles,u_beg);
+        trim_end<T,dim>(p,knots_flats,poles,u_end);
     }
 /**
  * Inserts a value into a sorted vector in an ordered and unique manner, with an optional tolerance for equality checking.
-- 
2.43.0


From 938bc02eca910030394cde0d8bc4befc5f46b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 05/81] fix: inconsistent curve and surface definitions (empty
 knots, missing weights, too short knots) are rejected

---
 gbs/basisfunctions.ixx |  4 ++++
 gbs/bscurve.h          | 17 +++++++++++------
 gbs/bssurf.h           |  4 ++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..40cbefd 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,10 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if (poles.size() != weights.size())
+        {
+            throw std::length_error("merge_weights: poles and weights must have the same length.");
+        }
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 06fe9f0..7a54896 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -201,6 +201,11 @@ namespace gbs
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
         bool ok = true;
+        if(knots.size() < 2 * (p + 1))
+        {
+            std::cerr << "check_curve: incorrect poles/knots/degree combination\n";
+            return false;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -272,10 +277,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(poles),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -292,10 +297,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -308,10 +313,10 @@ namespace gbs
                        const std::vector<T> &knots_flats,
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
-                                     m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_deg(p)
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         auto isRational() -> bool
         {
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 605fb49..207b5c2 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -426,8 +426,7 @@ namespace gbs
                                         m_knotsFlatsU(knots_flatsU),
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
-                                        m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_degV(degV)
         //,
         //   m_rational(false)
 
@@ -438,6 +437,7 @@ namespace gbs
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From 17f11341eaca46e26fed78d10b4428d9978d23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 06/81] fix: splitting a discontinuous curve into Bezier
 segments no longer reads out of range

---
 gbs/knotsfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 1c0f336..ba473f6 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -771,6 +771,10 @@
             auto m = U.size() - 1;
             for (size_t i{1}; i < m; i++)
             {
+                if(M[i] > p)
+                {
+                    throw std::invalid_argument("bezier_segments: discontinuous curve.");
+                }
                 insert_knots(U[i], p, p - M[i], k, poles);
             }
         }
-- 
2.43.0


From 955bc15b586c2e452bbc1a62b2f1a45c4840ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 07/81] fix: insert_unique_ordered also compares with the value
 just below

---
 gbs/knotsfunctions.ixx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index ba473f6..fd61976 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -1020,7 +1020,9 @@
     template <typename T>
     void insert_unique_ordered(std::vector<T>& vec, T value, T tolerance = knot_eps<T>) {
         auto iter = std::lower_bound(vec.begin(), vec.end(), value);
-        if (iter == vec.end() || std::abs(value - *iter) > tolerance) {
+        const bool close_to_next = iter != vec.end() && std::abs(value - *iter) <= tolerance;
+        const bool close_to_prev = iter != vec.begin() && std::abs(value - *std::prev(iter)) <= tolerance;
+        if (!close_to_next && !close_to_prev) {
             vec.insert(iter, value);
         } // else the value is already in the vector or close enough
     }
-- 
2.43.0


From 3a73ef7405b30e5dc69199bf70bc435a5ffccbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 08/81] fix: adimension maps knots to [0,1] whatever the first
 value

---
 gbs/knotsfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index fd61976..b3c8abd 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -288,7 +288,7 @@
         auto d = k.back() - k.front();
         if(fabs(d)>knot_eps<T>)
         {
-            std::transform(k.begin(),k.end(),k.begin(),[&d](auto const &k_){return k_/d;});
+            std::transform(k.begin(),k.end(),k.begin(),[d, k0 = k.front()](auto const &k_){return (k_-k0)/d;});
         }
     }
 
-- 
2.43.0


From f3c6c0494a93372b1b1c74ddc4f78afa47b21984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 09/81] fix: an error in a large batch evaluation reaches the
 caller instead of terminating the program

---
 gbs/execution.h | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..2acce8b 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -9,7 +9,8 @@
 #include <cstddef>    // std::size_t
 #include <vector>     // std::vector (build_batch output)
 #include <type_traits> // std::decay_t (build_batch result type)
-#include <exception>  // std::exception_ptr (build_batch error propagation)
+#include <exception>  // std::exception_ptr (error propagation out of parallel regions)
+#include <mutex>      // std::mutex (transform_threshold error propagation)
 
 #include "gbsconstants.h"  // gbs::parallel_min_size
 
@@ -63,13 +64,43 @@ namespace gbs
     // Portability: on platforms without parallel policies (Apple libc++)
     // GBS_PAR_EXEC is empty, so both branches are serial and the gate is a
     // correctness-preserving no-op.
+    //
+    // Exceptions: an exception escaping a parallel element-access function calls
+    // std::terminate, so in the parallel branch a throw of `op` is captured and
+    // rethrown to the caller after the parallel region, as in build_batch.
+
+    /// Wraps `op` so that nothing escapes it; the captured error goes to `err`.
+    template <class Op>
+    auto capture_errors(Op &op, std::exception_ptr &err, std::mutex &mtx)
+    {
+        return [&op, &err, &mtx](const auto &... args)
+        {
+            using Result = std::decay_t<decltype(op(args...))>;
+            try
+            {
+                return Result(op(args...));
+            }
+            catch (...)
+            {
+                std::lock_guard<std::mutex> lock(mtx);
+                if (!err) err = std::current_exception();
+                return Result{};
+            }
+        };
+    }
 
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+        {
+            std::exception_ptr err;
+            std::mutex mtx;
+            auto out_end = std::transform(GBS_PAR_EXEC first, last, out, capture_errors(op, err, mtx));
+            if (err) std::rethrow_exception(err);
+            return out_end;
+        }
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +109,13 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+        {
+            std::exception_ptr err;
+            std::mutex mtx;
+            auto out_end = std::transform(GBS_PAR_EXEC first1, last1, first2, out, capture_errors(op, err, mtx));
+            if (err) std::rethrow_exception(err);
+            return out_end;
+        }
         return std::transform(first1, last1, first2, out, op);
     }
 
-- 
2.43.0


From a7825448b0bb82c6a20c6c8a2288256a39d6667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:23 +0000
Subject: [PATCH 10/81] fix: inserting, removing or trimming at a knot given
 within tolerance uses the existing knot

---
 gbs/knotsfunctions.ixx | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index b3c8abd..bf52bf5 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -339,6 +339,22 @@
 
         return k;
     }
+    /**
+     * @brief Returns the knot equal to u within knot_eps if any, u otherwise
+     *
+     * @tparam T
+     * @param u
+     * @param k_flat : sorted flat knots
+     * @return T
+     */
+    template <typename T>
+    auto snap_to_knot(T u, const std::vector<T> &k_flat) -> T
+    {
+        auto it = std::lower_bound(k_flat.begin(), k_flat.end(), u);
+        if (it != k_flat.end() && *it - u <= knot_eps<T>) return *it;
+        if (it != k_flat.begin() && u - *std::prev(it) <= knot_eps<T>) return *std::prev(it);
+        return u;
+    }
     /**
      * Inserts new knots, if possible, into a B-spline or NURBS knot vector and updates the control points.
      *
@@ -371,7 +387,8 @@
         {
             throw std::out_of_range("insert_knots: knot value out of the knots range.");
         }
-        u = std::min(std::max(u, UP.front()), UP.back());
+        // A value equal to an existing knot within tolerance is this knot
+        u = snap_to_knot(u, UP);
 
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
@@ -463,13 +480,13 @@
     void remove_knot(T u, size_t num, std::vector<T> &U, std::vector<std::array<T, dim>> &P, size_t p)
     {
         // Determine the knot interval that contains u
+        u = snap_to_knot(u, U);
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot
         if(r < 0 || std::abs(U[r]-u)>knot_eps<T> || U[r] <= U.front() || U[r] >= U.back())
         {
             return ;
         }
-        u = U[r];
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
         // A knot can't be removed more than its multiplicity
@@ -572,6 +589,7 @@
         // advanced first/last even on a failing pass (desyncing the rebuild).
 
         // Determine the knot interval that contains u
+        u = snap_to_knot(u, U);
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
         if (r < 0 || std::abs(U[r] - u) > knot_eps<T> || U[r] <= U.front() || U[r] >= U.back())
@@ -582,7 +600,6 @@
         {
             return size_t{0};
         }
-        u = U[r];
 
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
@@ -950,6 +967,7 @@
     {
         if(u-knots_flats.front()<knot_eps<T>) return;
         
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
@@ -974,6 +992,7 @@
     {
         if(knots_flats.back()-u<knot_eps<T>) return;
         
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
-- 
2.43.0


From 5f810e16c04f6dc7bbab0199e5c98b899aaa40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:45 +0000
Subject: [PATCH 11/81] fix: surface pole(i,j) takes i in the U direction as
 documented and checks both indices

---
 gbs/bssurf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 207b5c2..a19e268 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -672,8 +672,8 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i >= n || j >= nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
@@ -691,8 +691,8 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i >= n || j >= nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-- 
2.43.0


From c5eb950a1d2db816f8bfb0f8599a5507c32c9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 12/81] fix: polesU/polesV return the last row on overflow, as
 documented, instead of reading past the poles

---
 gbs/bssurf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index a19e268..cd4eeb8 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -713,8 +713,9 @@ namespace gbs
             auto n = nPolesU();
             auto m = nPolesV();
             points_vector<T, dim + rational> poles_(n);
+            j = std::min(j, m - 1);
             auto beg_ = std::next(m_poles.begin(), j * n);
-            auto end_ = (j < m) ? std::next(m_poles.begin(), (j + 1) * n) : m_poles.end();
+            auto end_ = std::next(m_poles.begin(), (j + 1) * n);
             std::copy(beg_, end_, poles_.begin());
 
             return poles_;
@@ -734,6 +735,7 @@ namespace gbs
         {
             auto n = nPolesU();
             auto m = nPolesV();
+            i = std::min(i, n - 1);
             points_vector<T, dim + rational> poles_(m);
             for (auto j = 0; j < m; j++)
             {
-- 
2.43.0


From fc21ca6c6d7c91dd8b6ba1268ac79b6d67d913ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:05 +0000
Subject: [PATCH 13/81] fix: scaled_weights honours the requested mean value

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index 40cbefd..32f6f16 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1073,7 +1073,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From 79d61e2b5069a7c09a8f90ea875cd24c7e182452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:05 +0000
Subject: [PATCH 14/81] fix: adim normalizes every vector, the last one
 included

---
 gbs/vecop.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..be86ab0 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
-- 
2.43.0


From fb935d03b62cdb9f65929367887d4f0453a9d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 15/81] fix: Bessel end tangents use the derivative estimate
 and the neighbouring tangent

---
 gbs/bscinterp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..ca0bcbd 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -80,8 +80,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -113,8 +113,8 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*q.front() - *std::next(D.begin());
+    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
-- 
2.43.0


From a5eed8f656fc9fb76325be0e2be0581214489217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:23 +0000
Subject: [PATCH 16/81] fix: interpolation at given parameters rejects a too
 high degree or mismatched counts

---
 gbs/bscinterp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index ca0bcbd..81c5595 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -599,6 +599,8 @@ auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, KnotsCalcMode mod
 template <typename T, size_t dim>
 auto interpolate(const std::vector<constrType<T, dim, 1>> &Q,const std::vector<T> &u, size_t p) -> BSCurve<T, dim>
 { 
+    if(u.size()!=Q.size()) throw std::length_error("Parameters number must match points number");
+    if(p>=Q.size()) throw std::domain_error("Degree must be strictly inferior to points number");
     auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     auto poles = build_poles<T,dim,1>(Q, k_flat, u, p);
     return BSCurve<T,dim>(poles, k_flat, p);
@@ -646,7 +648,6 @@ auto interpolate(const points_vector<T,dim> &Q,const std::vector<T> &u, size_t p
 template <typename T>
 auto interpolate(const std::vector<T> &Q,const std::vector<T> &u, size_t p) -> BSCfunction<T>
 { 
-    auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     std::vector<constrType<T, 1, 1>> Q_(Q.size());
     std::transform(Q.begin(),Q.end(),Q_.begin(),[](const auto &v_){return constrType<T, 1, 1>{{v_}};});
     return BSCfunction<T>{ interpolate<T,1>(Q_,u,p) };
-- 
2.43.0


From 98a76971a464a06f3502fca150b2341eb096410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:30 +0000
Subject: [PATCH 17/81] fix: generated knots and grid interpolation reject a
 degree or a grid count which does not fit instead of writing out of range

---
 gbs/bssinterp.h        | 4 ++--
 gbs/knotsfunctions.ixx | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gbs/bssinterp.h b/gbs/bssinterp.h
index 3e5b723..ebf8eb7 100644
--- a/gbs/bssinterp.h
+++ b/gbs/bssinterp.h
@@ -183,7 +183,7 @@ namespace gbs
     auto interpolate(const std::vector<std::array<T, dim>> &Q, size_t n_poles_v, size_t p, size_t q, KnotsCalcMode mode) -> BSSurface<T, dim>
     {
 
-        if (Q.size() % n_poles_v)
+        if (Q.empty() || n_poles_v == 0 || Q.size() % n_poles_v)
         {
             throw std::length_error("size error");
         }
@@ -332,7 +332,7 @@ namespace gbs
             throw std::invalid_argument("constains must be specified within bounds");
         }
 
-        if( Q.size() % n_polesv !=0)
+        if( n_polesv == 0 || Q.size() % n_polesv !=0)
         {
             throw std::length_error("interpolate, Q.size() = n_polesv * n_polesu required");
         }
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index bf52bf5..857ad53 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -36,7 +36,10 @@
     auto build_simple_mult_flat_knots(const std::vector<T> &u, size_t p) -> std::vector<T>
     {
 
-        assert(u.size() >= p + 1);
+        if(u.size() < p + 1)
+        {
+            throw std::domain_error("build_simple_mult_flat_knots: degree must be strictly inferior to parameters number.");
+        }
 
         auto n = u.size();
         auto nk = n + p + 1;
@@ -80,6 +83,10 @@
     auto build_simple_mult_flat_knots(T u1, T u2, size_t n, size_t p) -> std::vector<T>
     {
 
+        if(n < p + 1)
+        {
+            throw std::domain_error("build_simple_mult_flat_knots: degree must be strictly inferior to poles number.");
+        }
         auto nk = n + p + 1;
         
         std::vector<T> k_flat(nk);
-- 
2.43.0


From 865bf97ae674033963d1272fe147048e97c7b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:22 +0000
Subject: [PATCH 18/81] fix: refining approximation handles negative
 parameters, keeps its pole limit and stops once converged

---
 gbs/bscapprox.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..1a6ed30 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -206,7 +206,8 @@ namespace gbs
             // C2: d_max_ used to ignore points near a knot, masking unmet tolerance).
             T d_avg_{}, d_max_{};
             // Knot-insertion candidate: the worst point that is well inside a span.
-            T d_insert{}, u_max{-1};
+            T d_insert{}, u_max{};
+            bool found{false};
             std::vector<T> knots{crv_refined.knotsFlats()};
 
             for(size_t j {} ; j < n_pts ; j++)
@@ -235,6 +236,7 @@ namespace gbs
                     {
                         d_insert = d;
                         u_max = u_;
+                        found = true;
                     }
                 }
             }
@@ -244,7 +246,12 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (u_max < 0)
+            if (!found)
+                break;
+            if (
+                (d_max_ < d_max && d_avg_ < d_avg)
+                || n_poles + 5 >= n_pts // The idea of approximation id to get less pole tha  interpolation
+                )
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
@@ -258,11 +265,6 @@ namespace gbs
             {
                 crv_refined = approx(pts, p, n_poles, u, knots);
             }
-            if (
-                (d_max_ < d_max && d_avg_ < d_avg)
-                || n_poles>= pts.size() - 5 // The idea of approximation id to get less pole tha  interpolation
-                )
-                break;
         }
         return crv_refined;
     }
-- 
2.43.0


From d3bd8686d49f3f9948680453b7062e83f2430943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:22 +0000
Subject: [PATCH 19/81] fix: approximating a curve between u1 and u2 fits that
 range

---
 gbs/bscapprox.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 1a6ed30..84944e6 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -467,9 +467,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const Curve<T,dim> &crv, T u1, T u2, T deviation,T tol, size_t p, size_t np = approx_sample_count) -> BSCurve<T, dim>
     {
-        // NB: u1/u2 are currently not applied (the whole curve is sampled), matching
-        // the pre-existing behaviour; left as-is to keep this a pure refactor.
-        auto [pts, u] = sample_by_deviation(crv, np, deviation);
+        auto u_lst = deviation_based_params<T, dim>(crv, u1, u2, np, deviation);
+        points_vector<T, dim> pts = make_points(crv, u_lst);
+        std::vector<T> u{std::begin(u_lst), std::end(u_lst)};
         return refine_from_points(pts, u, p, default_n_poles(p), tol);
     }
 
-- 
2.43.0


From 125518a32e3f6c04c09f083bb2af08983cde90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:38 +0000
Subject: [PATCH 20/81] fix: deviation based discretisation keeps to its point
 limit and lists no parameter twice

---
 gbs/bscanalysis.h | 15 +++++++++------
 gbs/bssanalysis.h | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..7d02780 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -391,14 +391,15 @@ namespace gbs
  * @param it_u1 Iterator pointing to the start of the range in the parameter list
  * @param it_u2 Iterator pointing to the end of the range in the parameter list
  * @param u_lst The list of curve parameters
+ * @param n_max_pts Maximum number of points allowed
  */
     template <typename T, size_t dim>
-    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst)
+    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u1 = *it_u1;
         auto u2 = *it_u2;
 
-        if (std::abs(u2 - u1) > knot_eps<T>)
+        if (u_lst.size() < n_max_pts && std::abs(u2 - u1) > knot_eps<T>)
         {
             auto um = static_cast<T>(0.5) * (u1 + u2);
             auto v1 = crv(um) - crv(u1);
@@ -408,8 +409,8 @@ namespace gbs
             if (dev > dev_max)
             {
                 auto it_um = u_lst.insert(it_u2, um);
-                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst);
-                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst, n_max_pts);
+                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst, n_max_pts);
             }
         }
     }
@@ -447,7 +448,7 @@ namespace gbs
 
         for (auto u : knots) // Non flat knots
         {
-            if( u > u1 && u < u2)
+            if( u - u1 > knot_eps<T> && u2 - u > knot_eps<T>)
             {
                 u_lst.push_back(u);
             }
@@ -456,6 +457,8 @@ namespace gbs
 
         // Sort the list
         u_lst.sort();
+        // A knot which falls on an initial parameter is kept once
+        u_lst.unique([](T a, T b) { return b - a <= knot_eps<T>; });
 
         // Refine the list recursively if the maximum number of points is not reached
         if (u_lst.size() < n_max_pts)
@@ -464,7 +467,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index f089110..07c8ba6 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -42,18 +42,18 @@ namespace gbs
  * @param u_lst The list of curve parameters
  */
     template <typename T, size_t dim>
-    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst)
+    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u_ = 0.5 * (*it_u1 + *it_u3);
         auto v1 = srf(u_, v) - srf(*it_u1, v);
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (dev_ > dev_max)
+        if (u_lst.size() < n_max_pts && dev_ > dev_max)
         {
             auto it_u2 = u_lst.insert(it_u3, u_);
-            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst);
-            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst);
+            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst, n_max_pts);
+            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst, n_max_pts);
         }
     }
 
@@ -86,7 +86,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst);
+                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
@@ -108,18 +108,18 @@ namespace gbs
  * @param v_lst The list of curve parameters
  */
     template <typename T, size_t dim>
-    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst)
+    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u_ = 0.5 * (*it_v1 + *it_v3);
         auto v1 = srf(u, u_) - srf(u, *it_v1);
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (dev_ > dev_max)
+        if (v_lst.size() < n_max_pts && dev_ > dev_max)
         {
             auto it_u2 = v_lst.insert(it_v3, u_);
-            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst);
-            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst);
+            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst, n_max_pts);
+            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst, n_max_pts);
         }
     }
 
@@ -153,7 +153,7 @@ namespace gbs
             auto it_v3 = std::next(it_v1);
             while (it_v3 != v_lst.end())
             {
-                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst);
+                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst, n_max_pts);
 
                 it_v1 = it_v3;
                 it_v3 = std::next(it_v1);
-- 
2.43.0


From 5d2c83777aabcc9f5cd9c3648c88fd86ff1be6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:53 +0000
Subject: [PATCH 21/81] fix: approximation rejects points, parameters and knots
 whose counts do not match

---
 gbs/bscapprox.h | 4 ++++
 gbs/bssapprox.h | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 84944e6..68a5c5b 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -79,6 +79,8 @@ namespace gbs
     auto approx_bound_fixed(const std::vector<std::array<T, dim>> &pts, size_t p, size_t n_poles, const std::vector<T> &u, const std::vector<T> &k_flat) -> BSCurve<T, dim>
     {
         check_approx_sizes(n_poles, p, pts.size());
+        if (u.size() != pts.size() || k_flat.size() != n_poles + p + 1)
+            throw std::length_error("approx: parameters or knots do not match the points, poles and degree");
         auto n_params = int(u.size());
 
         // Banded one-pass assembly (A2.3): each interior collocation row has only
@@ -134,6 +136,8 @@ namespace gbs
     auto approx(const std::vector<std::array<T, dim>> &pts, size_t p, size_t n_poles, const std::vector<T> &u, const std::vector<T> &k_flat) -> BSCurve<T, dim>
     {
         check_approx_sizes(n_poles, p, pts.size());
+        if (u.size() != pts.size() || k_flat.size() != n_poles + p + 1)
+            throw std::length_error("approx: parameters or knots do not match the points, poles and degree");
         MatrixX<T> N(u.size(), n_poles);
         build_poles_matrix<T, 1>(k_flat, u, p, n_poles, N);
 
diff --git a/gbs/bssapprox.h b/gbs/bssapprox.h
index 34958f7..3ba0f67 100644
--- a/gbs/bssapprox.h
+++ b/gbs/bssapprox.h
@@ -42,6 +42,8 @@ namespace gbs
         auto n_poles_v = k_flat_v.size() - (q+1);
         auto n_poles = n_poles_u * n_poles_v;
         check_approx_sizes_surf(n_poles_u, p, n_poles_v, q, n_pt);
+        if (n_pt != n_params_u * n_params_v)
+            throw std::length_error("approx: the points do not match the grid of parameters");
 
         // Separable least squares. The grid collocation matrix is the Kronecker
         // product Mv (x) Mu, so its normal equations factor as
-- 
2.43.0


From 9c206e61b218cb66d7a7f3d3d899b7aa0f72761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:29 +0000
Subject: [PATCH 22/81] fix: an error in a parallel sampling, arc-length or
 projection loop reaches the caller instead of terminating the program

---
 gbs-mesh/tfi.h    |  3 +--
 gbs/bscanalysis.h |  9 +++------
 gbs/bscapprox.h   |  3 +--
 gbs/execution.h   | 22 ++++++++++++++++++++++
 gbs/extrema.h     |  3 +--
 5 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index e429696..b256aa9 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -659,8 +659,7 @@ namespace gbs
     template <typename T, size_t dim>
     void project_points_on_surface(const Surface<T,dim> &srf, points_vector<T, dim> &pts, T tol_projection =1e-6 )
     {
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             pts.begin(),
             pts.end(),
             pts.begin(),
diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 7d02780..883cdb2 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -144,8 +144,7 @@ namespace gbs
         u = make_range(point<T, 1>{u1}, point<T, 1>{u2}, n);
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_,const auto &u2_) {
                 return length<T, dim, N>(crv, u1_[0], u2_[0]);
@@ -208,8 +207,7 @@ namespace gbs
         }
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_, const auto &u2_) {
                 return length<T, dim, N>(crv, u1_, u2_);
@@ -509,8 +507,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 68a5c5b..4310461 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -488,8 +488,7 @@ namespace gbs
         ) -> BSCurve<T, dim>
     {
         auto [pts, u] = sample_by_deviation(crv, np, deviation);
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             pts.begin(),
             pts.end(),
             pts.begin(),
diff --git a/gbs/execution.h b/gbs/execution.h
index 2acce8b..2f15121 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -89,6 +89,28 @@ namespace gbs
         };
     }
 
+    /// Parallel unary std::transform (not size-gated), errors reach the caller.
+    template <class InputIt, class OutputIt, class UnaryOp>
+    OutputIt parallel_transform(InputIt first, InputIt last, OutputIt out, UnaryOp op)
+    {
+        std::exception_ptr err;
+        std::mutex mtx;
+        auto out_end = std::transform(GBS_PAR_EXEC first, last, out, capture_errors(op, err, mtx));
+        if (err) std::rethrow_exception(err);
+        return out_end;
+    }
+
+    /// Parallel binary std::transform (not size-gated), errors reach the caller.
+    template <class InputIt1, class InputIt2, class OutputIt, class BinaryOp>
+    OutputIt parallel_transform(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
+    {
+        std::exception_ptr err;
+        std::mutex mtx;
+        auto out_end = std::transform(GBS_PAR_EXEC first1, last1, first2, out, capture_errors(op, err, mtx));
+        if (err) std::rethrow_exception(err);
+        return out_end;
+    }
+
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..7115a89 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -238,8 +238,7 @@ namespace gbs
     {
         auto n = std::distance(first, last);
         std::vector<std::array<T,3>> intersection_info(n);
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform(
             first, last,
             intersection_info.begin(),
             [&crv,tol_x](const auto &crv_){
-- 
2.43.0


From f0b847d19334697e15d83128084bbfaba9b08b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 23/81] fix: second derivative of a curve on surface uses the v
 acceleration for the v tangent

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From 5a5a56b68ceed488b5f2c2638ca23ee690bf7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 24/81] fix: a line extends to negative parameters

---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From a91dbb2ed2effbaadedcf7d5b496968416a7e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 25/81] fix: 3d offset curve derivatives are those of its
 values

---
 gbs/curveoffset.h | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..43ddf13 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -196,31 +196,29 @@ namespace gbs
         case 1:
             {
                 auto crv_d1 = crv.value(u, 1);
-                auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // w = direction ^ C', the normal is w / |w|
+                auto w0 = cross(direction_, crv_d1);
+                auto w1 = cross(direction_, crv.value(u, 2));
+                auto r = norm(w0);
+                auto normal = w0 / r;
+                auto normal_d1 = (w1 - normal * (normal * w1)) / r;
+                return crv_d1 + normal_d1 * off(u, 0) + normal * off(u, 1);
             }
             break;
         case 2:
             {
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
-                auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                auto w0 = cross(direction_, crv_d1);
+                auto w1 = cross(direction_, crv_d2);
+                auto w2 = cross(direction_, crv.value(u, 3));
+                auto r = norm(w0);
+                auto normal = w0 / r;
+                auto r_d1 = normal * w1;
+                auto normal_d1 = (w1 - normal * r_d1) / r;
+                auto r_d2 = normal_d1 * w1 + normal * w2;
+                auto normal_d2 = (w2 - normal_d1 * (2 * r_d1) - normal * r_d2) / r;
+                return crv_d2 + normal_d2 * off(u, 0) + normal_d1 * (2 * off(u, 1)) + normal * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From b522961c80f50b953b7586ac7b8f09426416bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 26/81] fix: circle built from an axis starts in the plane
 normal to the axis

---
 gbs/curvecircle.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..8118790 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -16,10 +16,11 @@ namespace gbs
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
             auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(), [](T z1, T z2) { return std::abs(z1) < std::abs(z2); }));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
-            ax_ = { ax[0], ax[1], x };
+            x[i_min_coord_mag] = 1;
+            x = x - (x * z / (z * z)) * z; // x has to be normal to the axis
+            ax_ = { ax[0], ax[1], r / norm(x) * x };
         }
 
         virtual auto bounds() const -> std::array<T, 2> override
-- 
2.43.0


From fc2b2eea77e9e0b6c28cfe273926e5662b0de438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 27/81] fix: changing the radius of a circle changes the circle

---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 8118790..38a60b0 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -34,7 +34,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){ r = r_; ax_[2] = r / norm(ax_[2]) * ax_[2]; }
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From 11178e319f22fcdae09a6dce4f31e4d10477ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 28/81] fix: composite curve rejects an empty list and
 parameters before its first curve

---
 gbs/curvecomposite.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..1b31f81 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <cassert>
+#include <stdexcept>
 #include <gbs/bscurve.h>
 #include <algorithm>
 namespace gbs
@@ -13,7 +13,10 @@ namespace gbs
         public:
         CurveComposite(const std::vector<std::shared_ptr<Curve<T,dim>>> &crv_lst) : crv_lst_{crv_lst} 
         {
-            assert(crv_lst.size());
+            if (crv_lst.empty())
+            {
+                throw std::invalid_argument("CurveComposite: empty curve list.");
+            }
             auto n = crv_lst.size();
             u_ = std::vector<T>(n+1,crv_lst.front()->bounds()[0]);
             for( size_t i {}; i < n ; i++)
@@ -33,7 +36,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin())
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 81a0b34dfe3158f22a1e4e4a107c041f4bde5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/81] fix: frame to frame transformation maps the first frame
 on the second

---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..a0247ca 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o},
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..640814e 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,8 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        Matrix3<T> P          = P_to*P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From 563b98225d8359bb09fd39e021ae0866f8ac23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:49 +0000
Subject: [PATCH 30/81] fix: surface of revolution turns around its axis
 wherever the axis is, derivatives included

---
 gbs/surfaceofrevolution.h | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index a0247ca..b4dec8e 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -57,28 +57,21 @@ namespace gbs
         {
             point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt2d = p_crv_->value(u, du);
+            pt = add_dimension<T, 2>(pt2d, 0.);
+            transform(pt,M_);
+            pt = pt - ax_[0]; // relative to the axis, a derivative does not depend on its location
+            if(dv>0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
-
             }
-            return rotated<T>( pt , v, ax_[1]);
-            
+            pt = rotated<T>( pt , v, ax_[1]);
+            if(du==0 && dv==0)
+            {
+                pt = pt + ax_[0];
+            }
+            return pt;
         }
         /**
          * @brief return surface's bounds {U1,U2,V1,V2}
-- 
2.43.0


From e7869f90bab0997489fcd9437c9a63c5ebe0b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:49 +0000
Subject: [PATCH 31/81] fix: adding a dimension to a rational curve or surface
 keeps its weights

---
 gbs/bsctools.h | 8 +++++++-
 gbs/bsstools.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..36d9a62 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -753,7 +753,13 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                auto q_ = add_dimension(p_,val);
+                if constexpr (rational) // the weight comes last
+                {
+                    q_[dim] = val * p_.back();
+                    q_[dim + 1] = p_.back();
+                }
+                return q_;
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..445dd06 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,13 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                auto q_ = add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational) // the weight comes last
+                {
+                    q_[dim] = val * p_.back();
+                    q_[dim + 1] = p_.back();
+                }
+                return q_;
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From df84cdc490df0a5e1fb9ea4110357a1194951e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 32/81] fix: composite curve evaluates up to its own bounds

---
 gbs/curvecomposite.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index 1b31f81..d8c8b78 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -42,7 +42,12 @@ namespace gbs
             }
             auto i = std::distance(u_.begin(), pos);
             const auto &crv_loc = crv_lst_[i];
-            auto u_loc = u - *pos + crv_loc->bounds()[0];
+            auto [u1, u2] = crv_loc->bounds();
+            auto u_loc = u - *pos + u1;
+            if (u >= u_.front() && u <= u_.back())
+            {
+                u_loc = std::clamp(u_loc, u1, u2); // rounding shall not push out of the local curve
+            }
             return crv_loc->value(u_loc, d);
         }
         const auto & curves() const {return crv_lst_;}
-- 
2.43.0


From fc27ddc429d701d574f7d0a27bcae573f10425ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 33/81] fix: splitting an edge links both halves with the other
 side and gives the new vertex an edge of its own

---
 inc/topology/halfEdgeMeshEditors.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..6aebdfe 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -561,8 +561,7 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
-        auto new_he1    = make_shared_h_edge(new_vertex, hf);
+        auto new_he1    = make_shared_h_edge(new_vertex, hf); // ends at the new vertex
         hf->edge=new_he1;
         chain_edges(new_he1,he);
         chain_edges(he_next, new_he1);
@@ -595,6 +594,8 @@ namespace gbs
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
+            link_edges(new_he2, new_he3_opp);
+
             face_lst.push_back(new_hf1_opp);
 
         }
-- 
2.43.0


From af60527db8614b517cf4d88c2ddb38a541c275da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 34/81] fix: vertices keep refering to an edge of the mesh when
 faces are replaced or removed

---
 inc/topology/halfEdgeMeshEditors.h | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index 6aebdfe..f3c45c1 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -273,6 +273,7 @@ namespace gbs
 
             h_e_prev = h_e1;
             auto lst = {h_e, h_e1, h_e2};
+            h_e->vertex->edge = h_e; // its edge may belong to a face that has been replaced
 
             auto new_face = make_shared_h_face<T, dim>(lst);
             assert(is_ccw(new_face));
@@ -366,6 +367,11 @@ namespace gbs
                 }),
         faces_lst.end());
 
+        if (count)
+        {
+            repairVertexEdges<T, dim>(faces_lst); // vertices may refer to removed faces
+        }
+
         return count;
     }
 /**
@@ -430,6 +436,24 @@ namespace gbs
         // Get the half-edges of the face to be erased
         auto face_edges = getFaceEdges(*it);
 
+        // Vertices shall not keep refering to the half-edges of the erased face
+        for (auto &he : face_edges)
+        {
+            auto vtx = he->vertex;
+            if (vtx->edge != he)
+            {
+                continue;
+            }
+            vtx->edge = nullptr;
+            for (auto it_other = h_f_lst.begin(); it_other != h_f_lst.end() && !vtx->edge; ++it_other)
+            {
+                if (*it_other != *it)
+                {
+                    vtx->edge = getFaceEdge(*it_other, vtx);
+                }
+            }
+        }
+
         // Remove the opposites of the half-edges
         for (auto &he : face_edges)
         {
@@ -470,7 +494,9 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
-        
+
+        repairVertexEdges<T, 2>(faces_lst);
+
         return external_faces;
     }
 
@@ -503,7 +529,9 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
-        
+
+        repairVertexEdges<T, 2>(faces_lst);
+
         return internal_faces;
     }
 
-- 
2.43.0


From d9bbbf1c325364d37c4b66856c09ff08dd7be13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 35/81] fix: vertex neighbours and boundary tests describe the
 mesh around the vertex

---
 inc/topology/halfEdgeMeshGeomTests.h |  4 ++--
 inc/topology/halfEdgeMeshGetters.h   | 11 ++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..1c36afa 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;  
     }
 } // namespace gbs
\ No newline at end of file
diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..7e08f59 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -424,13 +424,14 @@ namespace gbs
         bool open = false;
         do
         {
+            // half-edges end at the vertex, neighbors are at their other end
+            neighbors.push_front(current->previous->vertex);
             if(!current->opposite)
             {
                 open = true;
                 break;
             }
             current = current->opposite->previous;
-            neighbors.push_front(current->vertex);
         }while (current!=start);
 
         if(open)
@@ -438,13 +439,9 @@ namespace gbs
             current = start;
             do
             {
-                if(!current->next->opposite)
-                {
-                    break;
-                }
+                neighbors.push_back(current->next->vertex);
                 current = current->next->opposite;
-                neighbors.push_back(current->vertex);
-            }while (current!=start); 
+            }while (current && current!=start); 
         }
 
         return neighbors;
-- 
2.43.0


From 577da93cb2193c858e87a2e685ec51952adac673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:12 +0000
Subject: [PATCH 36/81] fix: mesh refinement smooths and restores the Delaunay
 condition instead of ignoring both, and stops on a refused point

---
 inc/topology/halfEdgeMeshSmoothing.h | 19 ++++++++++++
 inc/topology/tessellations.h         | 46 ++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/inc/topology/halfEdgeMeshSmoothing.h b/inc/topology/halfEdgeMeshSmoothing.h
index bb9b60c..ceaf867 100644
--- a/inc/topology/halfEdgeMeshSmoothing.h
+++ b/inc/topology/halfEdgeMeshSmoothing.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "halfEdgeMeshData.h"
 #include "halfEdgeMeshGetters.h"
+#include "halfEdgeMeshGeomTests.h"
 namespace gbs
 {
     template <std::floating_point T, size_t dim>
@@ -14,6 +15,24 @@ namespace gbs
             centroid = centroid + vtx->coords;
         }
         centroid = centroid / static_cast<T>(neighbors.size());
+
+        if constexpr (dim == 2)
+        {
+            // A triangle turned over would overlap its neighbors
+            if (is_boundary(h_v))
+            {
+                return;
+            }
+            for (const auto &h_f : getFacesAttachedToVertex(h_v.edge->vertex))
+            {
+                auto h_e = getFaceEdge(h_f, h_v.edge->vertex);
+                if (!(orient_2d(h_e->next->vertex->coords, h_e->previous->vertex->coords, centroid) > 0))
+                {
+                    return;
+                }
+            }
+        }
+
         h_v.coords = centroid;
     }
 }
\ No newline at end of file
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..97e2b42 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -98,6 +98,38 @@ namespace bw_detail
         }
         return true;
     }
+
+    // Flips edges until the triangulation is Delaunay, constrained edges excepted (Lawson).
+    template <std::floating_point T>
+    inline void restore_delaunay(auto &faces_lst, T tol,
+                                 const std::unordered_set<HalfEdge<T, 2> *> &constrained = {})
+    {
+        bool flipped = true;
+        // each pass works on the whole mesh, a cap prevents rounding from cycling
+        for (std::size_t pass = 0; flipped && pass < faces_lst.size() + 8; ++pass)
+        {
+            flipped = false;
+            for (const auto &f : faces_lst)
+            {
+                for (const auto &e : getTriangleEdges(f))
+                {
+                    if (!e->opposite || constrained.count(e.get()) || !(is_locally_delaunay(e) > tol))
+                        continue;
+                    const auto &a = e->previous->vertex->coords;
+                    const auto &b = e->vertex->coords;
+                    const auto &c = e->next->vertex->coords;
+                    const auto &d = e->opposite->next->vertex->coords;
+                    if (orient2d(c, d, b) <= T{0} || orient2d(d, c, a) <= T{0})
+                        continue; // not convex
+                    auto f1 = e->face;
+                    auto f2 = e->opposite->face;
+                    flip(f1, f2);
+                    flipped = true;
+                    break; // the edges of this face have changed
+                }
+            }
+        }
+    }
 } // namespace bw_detail
 
 /**
@@ -551,16 +583,18 @@ namespace bw_detail
                 update_face_quality(face);
             }
 
+            if (!vtx)
+            {
+                break; // the point is out of the mesh or already there
+            }
+
             // Smooth mesh
             laplacian_smoothing(faces_lst, *vtx);
             // Restore Delaunay condition
-            auto edges = getEdgesMap<T,dim>(faces_lst);
-            for(auto & [ed,i] : edges)
+            bw_detail::restore_delaunay(faces_lst, tol);
+            for (const auto &face : faces_lst)
             {
-                if(ed->opposite && !is_locally_delaunay(ed))
-                {
-                    flip(ed->face,ed->opposite->face);
-                }
+                update_face_quality(face);
             }
         }
 
-- 
2.43.0


From f4eb8dee0aa57d6a7a7764312fa6aed39ddd270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 37/81] fix: oriented boundary of no face is empty

---
 inc/topology/halfEdgeMeshGetters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 7e08f59..2e2f8ab 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -508,7 +508,8 @@ namespace gbs
     auto getOrientedFacesBoundary(const std::list<std::shared_ptr<HalfEdgeFace<T, dim>>> &h_f_lst)
     {
         auto boundary = getFacesBoundary(h_f_lst);
-        return takeClosedLoops(boundary).front();
+        auto loops = takeClosedLoops(boundary);
+        return loops.empty() ? std::list<std::shared_ptr<HalfEdge<T, dim>>>{} : loops.front();
     }
 
 /**
-- 
2.43.0


From 8e47322b32e2beacd21ccba1aba49b8bf5bffe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 38/81] fix: constrained triangulation covers the polygon, is
 Delaunay and no longer refers to dropped faces; surface boundary has no stray
 point

---
 inc/topology/tessellations.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 97e2b42..e5d4e76 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -58,7 +58,8 @@ namespace gbs
         coords_begin = transform(begin(u1), end(u1), coords_begin, [v1_](auto u) { return std::array<T, 2>{u, v1_}; });
         coords_begin = transform(++v2.begin(), end(v2), coords_begin, [u2_](auto v) { return std::array<T, 2>{u2_, v}; });
         coords_begin = transform(begin(u2), end(u2), coords_begin, [v2_](auto u) { return std::array<T, 2>{u, v2_}; });
-        transform(++v1.begin(), end(v1), coords_begin, [u1_](auto v) { return std::array<T, 2>{u1_, v}; });
+        coords_begin = transform(++v1.begin(), end(v1), coords_begin, [u1_](auto v) { return std::array<T, 2>{u1_, v}; });
+        coords.erase(coords_begin, coords.end());
 
         return coords;
     }
@@ -390,7 +391,6 @@ namespace bw_detail
             all_coords.insert(all_coords.end(), r.begin(), r.end());
 
         auto faces_lst = getEncompassingMesh(all_coords);
-        auto super_vertices = getVerticesVectorFromFaces<T, 2>(faces_lst);
 
         std::vector<std::vector<std::shared_ptr<HalfEdgeVertex<T, 2>>>> ring_vtx(rings.size());
         for (std::size_t r = 0; r < rings.size(); ++r)
@@ -403,15 +403,10 @@ namespace bw_detail
             }
         }
 
-        for (const auto &vtx : super_vertices)
-            remove_faces(faces_lst, vtx);
-        // remove_faces only severs opposite linkages; vertex->edge pointers can
-        // still reference half-edges whose face was deleted. Re-sync them
-        // before any navigation (recoverEdge, findHalfEdge) runs.
-        repairVertexEdges<T, 2>(faces_lst);
-
         // 2. Recover constrained edges (outer + holes); collect both directions
-        //    of each in a set so the flood-fill can refuse to cross them.
+        //    of each in a set so the flood-fill can refuse to cross them. The
+        //    encompassing mesh is kept until then: without it the hull of the
+        //    points is only partially meshed and its edges may be missing.
         std::unordered_set<HalfEdge<T, 2> *> constrained;
         for (const auto &vtx : ring_vtx)
         {
@@ -461,10 +456,23 @@ namespace bw_detail
             }
         }
 
-        // 4. Drop exterior faces (includes faces strictly inside each hole).
+        // 4. Drop exterior faces (includes faces strictly inside each hole and
+        //    the encompassing mesh), the kept ones no longer refer to them.
         faces_lst.remove_if([&interior](const auto &f) {
             return interior.find(f.get()) == interior.end();
         });
+        for (const auto &f : faces_lst)
+        {
+            for (const auto &ee : getTriangleEdges(f))
+            {
+                if (ee->opposite && !interior.count(ee->opposite->face.get()))
+                    ee->opposite = nullptr;
+            }
+        }
+        repairVertexEdges<T, 2>(faces_lst);
+
+        // 5. Edge recovery leaves non Delaunay faces around the edges.
+        bw_detail::restore_delaunay<T>(faces_lst, tol, constrained);
 
         return faces_lst;
     }
-- 
2.43.0


From 5f3d25aa41c2e119c27298e8753a7709d6935601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:59 +0000
Subject: [PATCH 39/81] fix: triangle vertices follow the face loop, refinement
 stops once the criterion is met

---
 inc/topology/halfEdgeMeshGetters.h | 4 ++--
 inc/topology/tessellations.h       | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 2e2f8ab..4cc7b35 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -158,8 +158,8 @@ namespace gbs
     {
         assert(face.edge->next->next->next == face.edge);
         return std::array<std::shared_ptr<HalfEdgeVertex<T, dim>>,3> {
-            face.edge->next->vertex,
             face.edge->vertex,
+            face.edge->next->vertex,
             face.edge->previous->vertex
         };
     }
@@ -215,8 +215,8 @@ namespace gbs
     {
         assert(face.edge->next->next->next == face.edge && face.edge->previous->previous->previous == face.edge);
         return std::array<std::array<T, dim>,3> {
-            face.edge->next->vertex->coords,
             face.edge->vertex->coords,
+            face.edge->next->vertex->coords,
             face.edge->previous->vertex->coords
         };
     }
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index e5d4e76..be47767 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -528,6 +528,10 @@ namespace bw_detail
 
             auto d_G_UV = dist_mesh_srf(*it);
             crit = d_G_UV.first;
+            if (!(crit > crit_max))
+            {
+                break; // criteria already met, another point could degrade it
+            }
 
             auto [vtx, deleted_faces_list, new_faces_list] = boyerWatson(faces_lst, d_G_UV.second, tol);
 
@@ -576,6 +580,10 @@ namespace bw_detail
 
             auto d_G_UV = dist_mesh(*it);
             crit = d_G_UV.first;
+            if (crit < crit_max)
+            {
+                break; // criteria already met, another point could degrade it
+            }
 
             // std::cout << crit << " inserting: " << d_G_UV.second[0] << " " << d_G_UV.second[1] << std::endl;
 
-- 
2.43.0


From 0f6a2413c1aab629719ad049d81ecba4aa37c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 40/81] fix: inserting a point no longer loses a vertex very
 close to it

---
 inc/topology/tessellations.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index be47767..9c39987 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -236,8 +236,17 @@ namespace bw_detail
             return getOrientedFacesBoundaries(std::list<Face>(faces.begin(), faces.end()));
         };
 
+        // A vertex inside the cavity would be lost, rounding only can lead to it
+        auto has_inner_vertex = [](const std::vector<Face> &faces, const auto &loop) {
+            std::unordered_set<HalfEdgeVertex<T, 2> *> vertices;
+            for (const auto &f : faces)
+                for (const auto &vtx : getTriangleVertices(f))
+                    vertices.insert(vtx.get());
+            return vertices.size() != loop.size();
+        };
+
         auto loops = boundary_loops(cavity);
-        bool ok = loops.size() == 1 && bw_detail::is_star_shaped<T>(loops.front(), xy);
+        bool ok = loops.size() == 1 && bw_detail::is_star_shaped<T>(loops.front(), xy) && !has_inner_vertex(cavity, loops.front());
         if (!ok)
         {
             cavity.assign(seed.begin(), seed.end());
-- 
2.43.0


From 9a0cb40567cb6f33de7781feb5f65b0e79f93fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:33 +0000
Subject: [PATCH 41/81] fix: edge recovery flips the convex quadrilaterals
 instead of the others

---
 inc/topology/edgeRecovery.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/edgeRecovery.h b/inc/topology/edgeRecovery.h
index 9411b36..d2234cf 100644
--- a/inc/topology/edgeRecovery.h
+++ b/inc/topology/edgeRecovery.h
@@ -139,12 +139,12 @@ namespace gbs
                 auto v_apex2 = e->opposite->next->vertex;
 
                 // Convex iff the alternative splitting (apex1 - apex2) lies inside
-                // the quad: both half-quads must be CCW.
+                // the quad: both half-quads, (A, D, C) and (D, B, C), must be CCW.
                 const auto& A = v_a->coords;
                 const auto& B = v_b->coords;
                 const auto& C = v_apex1->coords;
                 const auto& D = v_apex2->coords;
-                if (orient_2d(C, B, D) <= tol || orient_2d(D, A, C) <= tol)
+                if (orient_2d(A, D, C) <= tol || orient_2d(D, B, C) <= tol)
                 {
                     ++it;
                     continue; // non-convex or degenerate, defer
-- 
2.43.0


From 7364f97e6c78728a87f4d4e5a17a2b9b17018ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 42/81] fix: center of the sphere through three points is
 equidistant of them

---
 inc/topology/baseGeom.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/inc/topology/baseGeom.h b/inc/topology/baseGeom.h
index c8c7927..bf86bdf 100644
--- a/inc/topology/baseGeom.h
+++ b/inc/topology/baseGeom.h
@@ -143,7 +143,7 @@ namespace gbs
  * 
  * Given three points a, b, and c in 3D space, this function calculates the center of
  * the sphere that passes through all three points. The result is returned as a 3D
- * array of type T with x, y, and z coordinates.
+ * array of type T with x, y, and z coordinates. The center is in the plane of the points.
  * 
  * @tparam T The type of the elements in the input and output arrays.
  * @param a The first point.
@@ -156,24 +156,18 @@ namespace gbs
     template <std::floating_point T>
     std::array<T, 3> sphere_center(const std::array<T, 3>& a, const std::array<T, 3>& b, const std::array<T, 3>& c)
     {
-        // Calculate some intermediate values
-        T A = b[0] - a[0], B = b[1] - a[1], C = b[2] - a[2];
-        T D = c[0] - a[0], E = c[1] - a[1], F = c[2] - a[2];
-        T G = A * (E * F - B * F) + B * (D * F - C * F) + C * (B * D - E * D);
-        T H = (A * A + B * B + C * C) * (E * F - D * F) + (D * D + E * E + F * F) * (B * F - C * E) + (A * A + C * C + B * B) * (D * E - B * C);
+        auto ab = b - a;
+        auto ac = c - a;
+        auto n  = ab ^ ac;
+        T G = static_cast<T>(2) * (n * n);
 
         if (std::abs(G) < std::numeric_limits<T>::epsilon()) {
             // Points are collinear, no unique solution exists
             return {{std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN()}};
         }
 
-        // Calculate the x, y, and z coordinates of the sphere's center
-        T center_x = H / (2 * G);
-        T center_y = ((A * A + B * B + C * C) * (D * F - E * F) + (D * D + E * E + F * F) * (C * A - D * B) + (A * A + C * C + B * B) * (E * D - C * B)) / (2 * G);
-        T center_z = ((A * A + B * B + C * C) * (B * E - C * D) + (D * D + E * E + F * F) * (A * C - B * B) + (A * A + C * C + B * B) * (B * D - A * E)) / (2 * G);
-
-        // Return the result as a 3D array
-        return {{center_x, center_y, center_z}};
+        // Of all the spheres through the points, the one whose center is in their plane
+        return a + ((ac * ac) * (n ^ ab) + (ab * ab) * (ac ^ n)) / G;
     }
 
     template <typename T>
-- 
2.43.0


From d969d82beaae87d469b396ecd3a3f0d7902d2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 43/81] fix: barycentric coordinates documentation follows the
 convention of the code

---
 inc/topology/baseIntersection.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/inc/topology/baseIntersection.h b/inc/topology/baseIntersection.h
index 7d0217d..655255f 100644
--- a/inc/topology/baseIntersection.h
+++ b/inc/topology/baseIntersection.h
@@ -49,8 +49,7 @@ namespace gbs
  * @param b The second vertex of the triangle.
  * @param c The third vertex of the triangle.
  * @param d The point for which to compute the barycentric coordinates.
- * @return A pair of barycentric coordinates (u, v) such that d = u*a + v*b + (1-u-v)*c,
- *         or false if the denominator of the calculation is zero or very close to zero.
+ * @return A pair of barycentric coordinates (u, v) such that d = (1-u-v)*a + v*b + u*c.
  */
     template<std::floating_point T>
     [[nodiscard]] auto triangle_barycentric_coordinates(
-- 
2.43.0


From dc81c33ff3464cbb95bd1b0d27fd74a7e04d0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 44/81] fix: joining and extending rational surfaces account
 for the weights of the common border

---
 gbs/bsstools.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index 445dd06..c10be66 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -127,7 +127,8 @@ namespace gbs
     {
         points_vector<T,dim+rational> poles_new;
 
-        using bsc_type = typename std::conditional<rational,BSCurveRational<T, dim>,BSCurve<T, dim>>::type;
+        // rows of poles are extended with their weights, it is the only way to be continuous with a rational surface
+        using bsc_type = BSCurve<T, dim + rational>;
         using bss_type = typename std::conditional<rational,BSSurfaceRational<T, dim>,BSSurface<T, dim>>::type;
 
         auto nu = srf.nPolesU();
@@ -157,9 +158,9 @@ namespace gbs
         {
             auto poles = points_vector<T,dim+rational>{srf.poles_begin()+i*nu,srf.poles_begin()+i*nu+nu};
             auto iso  = bsc_type{poles,ku,p};
-            auto crv_ext = bsc_type{extention_to_point<T, dim, rational>(
+            auto crv_ext = bsc_type{extention_to_point<T, dim + rational, false>(
                 iso,
-                weight_projected_pole<T, dim, rational>(crv.poles()[i]),
+                crv.poles()[i],
                 u2,
                 u_new,
                 natural_end,
@@ -208,6 +209,12 @@ namespace gbs
         auto q = srf1_.degreeV();
         auto p_ext = srf2_.degreeU();
 
+        if constexpr (rational)
+        {
+            // put the weights of the common border at the same scale
+            scale_poles(poles_ext, srf1_.poles()[nu-1].back() / poles_ext.front().back());
+        }
+
         points_vector<T,dim+rational> poles_new;
         for(size_t i{}; i < nv; i++)
         {
@@ -229,7 +236,7 @@ namespace gbs
             ku_ext.begin(),
             [dk](auto k){return k+dk;}
         );
-        std::vector<double> k_new {ku.begin(),std::next(ku.end(),-1)};
+        std::vector<T> k_new {ku.begin(),std::next(ku.end(),-1)};
         k_new.insert(
             k_new.end(),
             std::next(ku_ext.begin(),p_ext+1),
-- 
2.43.0


From 201dcaca2c7ae9cc47ba682f0ca20c6b1818f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 45/81] fix: unifying the knots of a pair does not insert knots
 which are already there

---
 gbs/bsctools.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 36d9a62..236720d 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -307,8 +307,9 @@ namespace gbs
             [&pk1, degree](const auto &km)
             {
                 auto u = km.first;
-                auto m = km.second - multiplicity(pk1.second, u);
-                insert_knots(u, degree, m, pk1.second, pk1.first);
+                auto m = multiplicity(pk1.second, u);
+                if (km.second > m)
+                    insert_knots(u, degree, km.second - m, pk1.second, pk1.first);
             });
     }
 
-- 
2.43.0


From 6cd5eb1cdcf4b977a8d354c2b24389f6af1a5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 46/81] fix: a missing intersection of a curve network throws
 instead of terminating

---
 gbs/bssbuild.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..2eb4990 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -146,8 +146,7 @@ namespace gbs
         std::vector< points_vector<T,dim + rational> > tg_v_lst{ poles_v_lst.size() };
         // compute positions on spine
         std::vector<T> v_spine(bs_lst_cpy.size());
-        std::transform(
-                GBS_PAR_EXEC
+        parallel_transform(
                 bs_lst_cpy.begin(),
                 bs_lst_cpy.end(),
                 v_spine.begin(),
@@ -494,8 +493,7 @@ namespace gbs
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
+        parallel_transform( // a missing intersection is reported to the caller
             first_curve, last_curve,
             u.begin(),
             f_intersection
-- 
2.43.0


From 89806a0528c38f225a0d94fb63ff8cab235314e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 47/81] fix: spine loft knots follow the parameters of the
 sections

---
 gbs/bssbuild.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 2eb4990..2c631c5 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -234,7 +234,16 @@ namespace gbs
         // interpolate poles
         constexpr size_t dim_t = dim + rational;
         size_t q = std::max(std::min(v_degree_max, n_poles_v - 1), size_t{1}); // degree V, clamped to a valid range
-        auto kv_flat = build_simple_mult_flat_knots<T>(v.front(),v.back(),n_poles_v * 2,q); //dif
+        // The knots follow the sections' parameters: an even distribution does not
+        // interlace with unevenly spaced sections and makes the system singular.
+        std::vector<T> kv_flat(n_poles_v * 2 + q + 1, v.front());
+        std::fill(std::prev(kv_flat.end(), q + 1), kv_flat.end(), v.back());
+        for (size_t i = 1; i < 2 * n_poles_v - q; ++i)
+        {
+            const T k = T(n_poles_v - 1) * i / T(2 * n_poles_v - q); // in sections
+            const auto j = std::min(static_cast<size_t>(k), n_poles_v - 2);
+            kv_flat[q + i] = v[j] + (k - T(j)) * (v[j + 1] - v[j]);
+        }
 
         // One constraint column per u-pole: at each section, position + spine
         // tangent (nc == 2). Assemble them straight into the shared loft core's RHS
-- 
2.43.0


From 31a94c3bf2c99bae09476ec5d4c7023c83b91167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 48/81] fix: spine loft of sections sharing a pole does not
 divide by zero

---
 gbs/bssbuild.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 2c631c5..6e2071d 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -56,18 +56,29 @@ namespace gbs
                     return crv.poles()[i];
                 }
             );
-            poles_v_params[i] = curve_parametrization(poles_v, KnotsCalcMode::CHORD_LENGTH, true);
+            poles_v_params[i] = curve_parametrization(poles_v, KnotsCalcMode::CHORD_LENGTH, false);
             std::swap( poles_v_lst[i] , poles_v );
         }
         // build parametrization
         std::vector<T> v(n_poles_v,0.);
-        for(auto j = 0 ; j < n_poles_v; j++)
+        size_t contributing = 0;
+        for(auto i = 0 ; i < n_poles_u; i++)
         {
-            for(auto i = 0 ; i < n_poles_u; i++)
+            const T total = poles_v_params[i].back();
+            if(total <= T{0}) continue; // coincident poles, no parametrization information
+            for(auto j = 0 ; j < n_poles_v; j++)
             {
-                v[j] += poles_v_params[i][j];
+                v[j] += poles_v_params[i][j] / total;
             }
-            v[j] /=  n_poles_u;
+            ++contributing;
+        }
+        if(contributing == 0)
+        {
+            v = make_range(T{}, T{1}, n_poles_v);
+        }
+        else
+        {
+            for(auto &v_ : v) v_ /= T(contributing);
         }
         return std::make_tuple(poles_v_lst,v);
     }
-- 
2.43.0


From b13f92d0e6daa05ec18e7e6d9050b8c3ca7fd39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 49/81] fix: spine guided approximation reproduces unevenly
 spaced sections

---
 gbs/bssbuild.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 6e2071d..fc5dac2 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -390,7 +390,11 @@ namespace gbs
 
         // Tensor-product least-squares fit in homogeneous space, then wrap as a
         // (rational) surface — no derivative constraint, hence well-posed.
-        auto kv = build_simple_mult_flat_knots<T>(v.front(), v.back(), n_poles_v, q);
+        // As many poles as sections: the knots follow the stations, so that the rows
+        // are reproduced whatever the spacing of the sections.
+        auto kv = n_poles_v == n_sections
+                      ? build_simple_mult_flat_knots<T>(v, q)
+                      : build_simple_mult_flat_knots<T>(v.front(), v.back(), n_poles_v, q);
         auto poles = approx(Q, ku, kv, u, v, p, q);
 
         return bss_type(poles, ku, kv, p, q);
-- 
2.43.0


From 128b95864bf598a1d4d2eba4f5438dd41a7adac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 50/81] fix: extrema searches minimise the squared distance and
 return the distance

---
 gbs/extrema.h | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 7115a89..92a8108 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -34,15 +34,14 @@ namespace gbs
     {
         auto f = [&pnt,&crv](const std::vector<double> &x)
         {
-            return std::vector<double>{sq_norm(crv(x[0]) - pnt)}; //double req for nlop
-            // return std::vector<T>{crv(x[0],1)*(crv(x[0]) - pnt)};
+            const auto d = crv(x[0]) - pnt; // the solver minimises the sum of the squares
+            return std::vector<double>(d.begin(), d.end()); //double req for nlop
         };
 
-        auto g = [&pnt,&crv](const std::vector<double> &x,const std::vector<double> &r)
+        auto g = [&pnt,&crv](const std::vector<double> &x,const std::vector<double> &)
         {
-            auto dfdu = 2.*crv(x[0],1)*(crv(x[0]) - pnt);
-            // auto dfdu = crv(x[0],2)*(crv(x[0]) - pnt) + sq_norm(crv(x[0],1)) ;
-            return std::vector<double>{2. * r[0] * dfdu}; //double req for nlop
+            double dfdu = 2.*crv(x[0],1)*(crv(x[0]) - pnt);
+            return std::vector<double>{dfdu}; //double req for nlop
         };
 
         std::vector<T> x{u0};
@@ -54,8 +53,7 @@ namespace gbs
             tol_x*tol_x,
             solver
             );
-        // return {T(x[0]),T(sqrt(minf))};
-        return std::array<T,2>{T(x[0]),T(sqrt(minf))};
+        return std::array<T,2>{T(x[0]),T(minf)}; // NB the square of the distance
     }
     /**
      * @brief Project point on curve
@@ -96,16 +94,16 @@ namespace gbs
     {
         auto f = [&pnt,&srf](const std::vector<double> &x)
         {
-            return std::vector<double>{sq_norm(srf(x[0],x[1]) - pnt)};
+            const auto d = srf(x[0],x[1]) - pnt; // the solver minimises the sum of the squares
+            return std::vector<double>(d.begin(), d.end());
         };
 
-        auto g = [&pnt,&srf](const std::vector<double> &x,const std::vector<double> &r)
+        auto g = [&pnt,&srf](const std::vector<double> &x,const std::vector<double> &)
         {
-            // return std::vector<T>{2.*crv(x[0],1)*(crv(x[0]) - pnt)};
             auto f_ = srf(x[0],x[1])  - pnt;
-            auto dfdu = 2.*srf(x[0],x[1],1,0)* f_;
-            auto dfdv = 2.*srf(x[0],x[1],0,1)* f_;
-            return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
+            double dfdu = 2.*srf(x[0],x[1],1,0)* f_;
+            double dfdv = 2.*srf(x[0],x[1],0,1)* f_;
+            return std::vector<double>{dfdu, dfdv};
         };
 
         auto [u1,u2,v1,v2] = srf.bounds();
@@ -151,15 +149,16 @@ namespace gbs
     {
         auto f = [&crv1,&crv2](const std::vector<double> &x)
         {
-            return std::vector<double>{sq_norm(crv1(x[0])-crv2(x[1]))};
+            const auto d = crv1(x[0])-crv2(x[1]); // the solver minimises the sum of the squares
+            return std::vector<double>(d.begin(), d.end());
         };
 
-        auto g = [&crv1,&crv2](const std::vector<double> &x,const std::vector<double> &r)
+        auto g = [&crv1,&crv2](const std::vector<double> &x,const std::vector<double> &)
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
-            auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
-            return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
+            double dfdu = 2.*crv1(x[0],1)* f_;
+            double dfdv =-2.*crv2(x[1],1)* f_;
+            return std::vector<double>{dfdu, dfdv};
         };
 
         auto [u1,u2] = crv1.bounds();
@@ -254,16 +253,17 @@ namespace gbs
 
         auto f = [&crv,&srf](const std::vector<double> &x)
         {
-            return std::vector<double>{sq_norm(crv(x[0])-srf(x[1],x[2]))};
+            const auto d = crv(x[0])-srf(x[1],x[2]); // the solver minimises the sum of the squares
+            return std::vector<double>(d.begin(), d.end());
         };
 
-        auto g = [&crv,&srf](const std::vector<double> &x,const std::vector<double> &r)
+        auto g = [&crv,&srf](const std::vector<double> &x,const std::vector<double> &)
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
-            auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
-            return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
+            double dfduc = 2.*crv(x[0],1)  * f_;
+            double dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            double dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
+            return std::vector<double>{dfduc, dfdus, dfdvs};
         };
 
         auto [uc1,uc2] = crv.bounds();
-- 
2.43.0


From 832f621657a88122bad35ca436686db469b1ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 51/81] fix: coordinate extrema of a curve are those of the
 coordinate, over the whole curve

---
 gbs/extrema.h | 60 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 92a8108..3c82614 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -343,6 +343,16 @@ namespace gbs
     //     return newton_raphson_iterate(f_eq, u0_, u_min, u_max, digits, maxit);
     // }
 
+    /**
+     * @brief Parameter and value of the greatest coordinate of a curve, the search is bracketed
+     *
+     * @param crv    : the curve
+     * @param iCoord : coordinate's index
+     * @param Xi     : unused
+     * @param digits : precision on parameter, in bits
+     * @param maxit  : maximal number of iterations
+     * @return (parameter, coordinate)
+     */
     template <typename T, size_t dim>
     auto max_coordinate(const Curve<T, dim> &crv, size_t iCoord, T Xi, int digits = 20, size_t maxit = 20)
     {
@@ -353,15 +363,33 @@ namespace gbs
 
         using namespace boost::math::tools;
 
-        auto [u_min, u_max] = crv.bounds();
-        auto f_eq = [&crv, iCoord, Xi](T u) {
-            auto x = crv(u)[iCoord];
-            return  1/x/x;
-        };
+        auto f_eq = [&crv, iCoord](T u) { return -crv(u)[iCoord]; };
 
-        return brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        const size_t n_bracket = 30;
+        auto u = make_range<T>(crv.bounds(), n_bracket);
+        auto comp = [&f_eq](T u1, T u2) { return f_eq(u1) < f_eq(u2); };
+        auto it = std::min_element(u.begin(), u.end(), comp);
+        auto u_min = it == u.begin() ? *it : *std::prev(it);
+        auto u_max = std::next(it) == u.end() ? *it : *std::next(it);
+        auto [u_opt, f_opt] = brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        if (f_eq(*it) < f_opt) // on a bound
+        {
+            u_opt = *it;
+            f_opt = f_eq(*it);
+        }
+        return std::pair<T, T>{u_opt, -f_opt};
     }
 
+    /**
+     * @brief Parameter and value of the smallest coordinate of a curve, the search is bracketed
+     *
+     * @param crv    : the curve
+     * @param iCoord : coordinate's index
+     * @param Xi     : unused
+     * @param digits : precision on parameter, in bits
+     * @param maxit  : maximal number of iterations
+     * @return (parameter, coordinate)
+     */
     template <typename T, size_t dim>
     auto min_coordinate(const Curve<T, dim> &crv, size_t iCoord, T Xi, int digits = 20, size_t maxit = 20)
     {
@@ -372,13 +400,21 @@ namespace gbs
 
         using namespace boost::math::tools;
 
-        auto [u_min, u_max] = crv.bounds();
-        auto f_eq = [&crv, iCoord, Xi](T u) {
-            auto x = crv(u)[iCoord];
-            return  x*x;
-        };
+        auto f_eq = [&crv, iCoord](T u) { return crv(u)[iCoord]; };
 
-        return brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        const size_t n_bracket = 30;
+        auto u = make_range<T>(crv.bounds(), n_bracket);
+        auto comp = [&f_eq](T u1, T u2) { return f_eq(u1) < f_eq(u2); };
+        auto it = std::min_element(u.begin(), u.end(), comp);
+        auto u_min = it == u.begin() ? *it : *std::prev(it);
+        auto u_max = std::next(it) == u.end() ? *it : *std::next(it);
+        auto [u_opt, f_opt] = brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        if (f_eq(*it) < f_opt) // on a bound
+        {
+            u_opt = *it;
+            f_opt = f_eq(*it);
+        }
+        return std::pair<T, T>{u_opt, f_opt};
     }
 
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From 8e4013bab7f251c3b5567c7cd23331c8b07e26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 52/81] fix: bracketed surface curve extrema starts from the
 bracketed parameters

---
 gbs/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 3c82614..8aa0d85 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -290,7 +290,7 @@ namespace gbs
             return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
         };
         auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From ee39b902de35c51d1cf2645911487d806fffa6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 53/81] fix: json readers reject malformed documents instead of
 asserting or reading out of range

---
 gbs-io/fromjson.h  | 183 +++++++++++++++++++++++++--------------------
 gbs-io/fromjson2.h |  14 ++--
 2 files changed, 111 insertions(+), 86 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..eb6dac2 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -72,6 +72,19 @@ namespace gbs
         return std::string{val.GetString()};
     }
 
+    /**
+     * @brief Access to a member of a json object, throws if the value is not an object or has no such member
+     */
+    inline auto get_member(const rapidjson::Value &val, const char *name) -> const rapidjson::Value &
+    {
+        if (!val.IsObject())
+            throw std::invalid_argument("auto get_member(const rapidjson::Value &val, const char *name) not an object");
+        auto it = val.FindMember(name);
+        if (it == val.MemberEnd())
+            throw std::invalid_argument("auto get_member(const rapidjson::Value &val, const char *name) missing member " + std::string(name));
+        return it->value;
+    }
+
     template <typename T>
     auto make_vec(const rapidjson::Value &a) -> std::vector<T>
     {
@@ -162,7 +175,18 @@ namespace gbs
         {
             throw std::invalid_argument("auto make_point_vec(const rapidjson::Value &a) -> std::vector< std::array<T,dim> > not and array");
         }
-        auto n = a.GetArray()[0].GetArray().Size();
+        if (a.Size() != nc)
+        {
+            throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) wrong number of constraints");
+        }
+        for (const auto &c : a.GetArray())
+        {
+            if (!c.IsArray() || c.Size() != a[0].Size())
+            {
+                throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) constraints have different sizes");
+            }
+        }
+        auto n = a[0].Size();
 
         std::vector<constrType<T, dim, nc>> v_(n);
         for (auto j = 0; j < n; j++)
@@ -187,19 +211,20 @@ namespace gbs
     {
         // New format produced by make_json: integer type code matching entity_type::BSCurve,
         // knots+mults stored separately, "degree" key.
-        if (a["type"].IsInt() && a["type"].GetInt() == static_cast<int>(entity_type::BSCurve))
+        if (get_member(a, "type").IsInt() && get_member(a, "type").GetInt() == static_cast<int>(entity_type::BSCurve))
         {
-            auto knots = make_vec<T>(a["knots"]);
-            auto mults = make_vec<size_t>(a["mults"]);
-            auto deg = get_val<size_t>(a["degree"]);
-            auto poles = make_point_vec<T, dim>(a["poles"]);
+            auto knots = make_vec<T>(get_member(a, "knots"));
+            auto mults = make_vec<size_t>(get_member(a, "mults"));
+            auto deg = get_val<size_t>(get_member(a, "degree"));
+            auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
             return BSCurve<T, dim>(poles, knots, mults, deg);
         }
         // Legacy format: string "bscurve" type, flat knots, "deg" key.
-        assert(std::strcmp(a["type"].GetString(), "bscurve") == 0);
-        auto knots = make_vec<T>(a["knots"]);
-        auto deg = get_val<size_t>(a["deg"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        if (get_val<std::string>(get_member(a, "type")) != "bscurve")
+            throw std::invalid_argument("auto bscurve_direct(const rapidjson::Value &a) unsupported type");
+        auto knots = make_vec<T>(get_member(a, "knots"));
+        auto deg = get_val<size_t>(get_member(a, "deg"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
 
         return BSCurve<T, dim>(poles, knots, deg);
     }
@@ -207,14 +232,15 @@ namespace gbs
     template <typename T, size_t dim>
     auto bssurface_direct(const rapidjson::Value &a) -> BSSurface<T, dim>
     {
-        assert(a["type"].IsInt() && a["type"].GetInt() == static_cast<int>(entity_type::BSSurface));
-        auto knotsU = make_vec<T>(a["knotsU"]);
-        auto multsU = make_vec<size_t>(a["multsU"]);
-        auto knotsV = make_vec<T>(a["knotsV"]);
-        auto multsV = make_vec<size_t>(a["multsV"]);
-        auto degU = get_val<size_t>(a["degreeU"]);
-        auto degV = get_val<size_t>(a["degreeV"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        if (get_val<int>(get_member(a, "type")) != static_cast<int>(entity_type::BSSurface))
+            throw std::invalid_argument("auto bssurface_direct(const rapidjson::Value &a) unsupported type");
+        auto knotsU = make_vec<T>(get_member(a, "knotsU"));
+        auto multsU = make_vec<size_t>(get_member(a, "multsU"));
+        auto knotsV = make_vec<T>(get_member(a, "knotsV"));
+        auto multsV = make_vec<size_t>(get_member(a, "multsV"));
+        auto degU = get_val<size_t>(get_member(a, "degreeU"));
+        auto degV = get_val<size_t>(get_member(a, "degreeV"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
         return BSSurface<T, dim>(
             poles,
             flat_knots(knotsU, multsU),
@@ -226,26 +252,27 @@ namespace gbs
     template <typename T, size_t dim>
     auto bscurve_interp_cn(const rapidjson::Value &a) -> BSCurve<T, dim>
     {
-        assert(std::strcmp(a["type"].GetString(), "bscurve_interp_cn") == 0);
+        if (get_val<std::string>(get_member(a, "type")) != "bscurve_interp_cn")
+            throw std::invalid_argument("auto bscurve_interp_cn(const rapidjson::Value &a) unsupported type");
         if (a.HasMember("params"))
         {
-            auto u = make_vec<T>(a["params"]);
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
+            auto u = make_vec<T>(get_member(a, "params"));
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
             return interpolate(points, u, deg);
         }
         else if (a.HasMember("param_calc_mode"))
         {
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
-            auto enum_str = std::string(a["param_calc_mode"].GetString());
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
+            auto enum_str = get_val<std::string>(get_member(a, "param_calc_mode"));
             auto mode = magic_enum::enum_cast<KnotsCalcMode>(enum_str);
             return interpolate(points, deg, mode.value());
         }
         else
         {
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
             return interpolate(points, deg, KnotsCalcMode::CHORD_LENGTH);
         }
     }
@@ -255,29 +282,27 @@ namespace gbs
     {
         auto mode = KnotsCalcMode::CHORD_LENGTH;
         std::vector<T> u;
-        if (a.HasMember("param_calc_mode") && a["param_calc_mode"].IsString())
+        if (a.IsObject() && a.HasMember("param_calc_mode") && get_member(a, "param_calc_mode").IsString())
         {
-            if(strcmp(a["param_calc_mode"].GetString(),"SPECIFIED")==0)
+            if(strcmp(get_member(a, "param_calc_mode").GetString(),"SPECIFIED")==0)
             {
-                u = make_vec<T>(a["params"]);
+                u = make_vec<T>(get_member(a, "params"));
             }
             else{
-                auto enum_str = std::string(a["param_calc_mode"].GetString());
+                auto enum_str = std::string(get_member(a, "param_calc_mode").GetString());
                 mode = magic_enum::enum_cast<KnotsCalcMode>(enum_str).value();
             }
         }
-        if (!a.HasMember("constraints"))
+        if (!get_member(a, "constraints").IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        if (!a["constraints"].IsArray())
-            throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        auto nc = a["constraints"].GetArray().Size();
+        auto nc = get_member(a, "constraints").GetArray().Size();
         if (nc <= 0)
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        if (!a["constraints"].GetArray()[0].IsArray())
+        if (!get_member(a, "constraints").GetArray()[0].IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
         if (nc == 1)
         {
-            auto Q = make_constraints_vec<T, dim, 1>(a["constraints"]);
+            auto Q = make_constraints_vec<T, dim, 1>(get_member(a, "constraints"));
             if(u.size())
                 return interpolate<T, dim>(Q, u);
             else
@@ -285,7 +310,7 @@ namespace gbs
         }
         else if (nc == 2)
         {
-            auto Q = make_constraints_vec<T, dim, 2>(a["constraints"]);
+            auto Q = make_constraints_vec<T, dim, 2>(get_member(a, "constraints"));
             if(u.size())
                 return interpolate<T, dim>(Q, u);
             else
@@ -302,9 +327,9 @@ namespace gbs
     auto make_bscurve(const rapidjson::Value &a) -> BSCurve<T, dim>
     {
         // New format: integer type codes from entity_type.
-        if (a["type"].IsInt())
+        if (get_member(a, "type").IsInt())
         {
-            switch (a["type"].GetInt())
+            switch (get_member(a, "type").GetInt())
             {
             case static_cast<int>(entity_type::BSCurve):
                 return bscurve_direct<T, dim>(a);
@@ -313,15 +338,15 @@ namespace gbs
             }
         }
         // Legacy format: string-based dispatch.
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp_cn") == 0)
+        if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp_cn")
         {
             return bscurve_interp_cn<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve")  == 0)
+        else if( get_val<std::string>(get_member(a, "type")) == "bscurve")
         {
             return bscurve_direct<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        else if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp")
         {
 
             return bscurve_interp<T,dim>(a);
@@ -336,9 +361,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bssurface(const rapidjson::Value &a) -> BSSurface<T, dim>
     {
-        if (a["type"].IsInt())
+        if (get_member(a, "type").IsInt())
         {
-            switch (a["type"].GetInt())
+            switch (get_member(a, "type").GetInt())
             {
             case static_cast<int>(entity_type::BSSurface):
                 return bssurface_direct<T, dim>(a);
@@ -352,23 +377,21 @@ namespace gbs
     template <typename T, size_t dim>
     auto bscurve_interp(const rapidjson::Value &a,const std::vector<T> &u) -> BSCurve<T, dim>
     {
-        if (!a.HasMember("constraints"))
-            throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        if (!a["constraints"].IsArray())
+        if (!get_member(a, "constraints").IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        auto nc = a["constraints"].GetArray().Size();
+        auto nc = get_member(a, "constraints").GetArray().Size();
         if (nc <= 0)
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
-        if (!a["constraints"].GetArray()[0].IsArray())
+        if (!get_member(a, "constraints").GetArray()[0].IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
         if (nc == 1)
         {
-            auto Q = make_constraints_vec<T, dim, 1>(a["constraints"]);
+            auto Q = make_constraints_vec<T, dim, 1>(get_member(a, "constraints"));
             return interpolate<T, dim>(Q, u);
         }
         else if (nc == 2)
         {
-            auto Q = make_constraints_vec<T, dim, 2>(a["constraints"]);
+            auto Q = make_constraints_vec<T, dim, 2>(get_member(a, "constraints"));
             return interpolate<T, dim>(Q, u);
         }
         else
@@ -381,7 +404,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bscurve(const rapidjson::Value &a,const std::vector<T> &u) -> BSCurve<T, dim>
     {
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp")
         {
             return bscurve_interp<T,dim>(a,u);
         }
@@ -398,31 +421,31 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_curve(const rapidjson::Value &val) -> std::shared_ptr<Curve<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::BSCurve):
                 return std::make_shared<BSCurve<T,dim>>(
                     BSCurve<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
-                        val["degree"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knots")),make_vec<size_t>(get_member(val, "mults")) ),
+                        get_val<size_t>(get_member(val, "degree"))
                     }
                 );
                 break;
             case static_cast<int>(entity_type::BSCurveRational):
                 return std::make_shared<BSCurveRational<T,dim>>(
                     BSCurveRational<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
-                        make_vec<T>(val["weights"]),
-                        val["degree"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knots")),make_vec<size_t>(get_member(val, "mults")) ),
+                        make_vec<T>(get_member(val, "weights")),
+                        get_val<size_t>(get_member(val, "degree"))
                     }
                 );
                 break;
             case static_cast<int>(entity_type::CurveOnSurface):
                 return std::make_shared<CurveOnSurface<T,dim>>(
                     CurveOnSurface<T,dim>{
-                        make_curve<T,2>(val["curve2d"]),
-                        make_surface<T,dim>(val["surface"])
+                        make_curve<T,2>(get_member(val, "curve2d")),
+                        make_surface<T,dim>(get_member(val, "surface"))
                     }
                 );
                 break;
@@ -435,15 +458,15 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::BSSurface):
                 return std::make_shared<BSSurface<T,dim>>(
                     BSSurface<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
-                        flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knotsU")),make_vec<size_t>(get_member(val, "multsU")) ),
+                        flat_knots( make_vec<T>(get_member(val, "knotsV")),make_vec<size_t>(get_member(val, "multsV")) ),
+                        get_val<size_t>(get_member(val, "degreeU")),
+                        get_val<size_t>(get_member(val, "degreeV"))
                     }
                 );
                 break;
@@ -451,13 +474,13 @@ namespace gbs
                 return std::make_shared<BSSurfaceRational<T,dim>>(
                     BSSurfaceRational<T,dim>{
                         add_weights_coord(
-                            make_point_vec<T,dim>(val["poles"]),
-                            make_vec<T>(val["weights"])
+                            make_point_vec<T,dim>(get_member(val, "poles")),
+                            make_vec<T>(get_member(val, "weights"))
                         ),
-                        flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
-                        flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        flat_knots( make_vec<T>(get_member(val, "knotsU")),make_vec<size_t>(get_member(val, "multsU")) ),
+                        flat_knots( make_vec<T>(get_member(val, "knotsV")),make_vec<size_t>(get_member(val, "multsV")) ),
+                        get_val<size_t>(get_member(val, "degreeU")),
+                        get_val<size_t>(get_member(val, "degreeV"))
                     }
                 );
                 break;
@@ -470,15 +493,15 @@ namespace gbs
     template <typename T>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,3>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::SurfaceOfRevolution):
             {
                 return std::make_shared<SurfaceOfRevolution<T>>(
                     SurfaceOfRevolution<T>{
-                        make_curve<T,2>(val["curve"]),
-                        make_ax2<T,3>(val["axis2"]),
-                        get_val<T>(val["theta1"]),
-                        get_val<T>(val["theta2"])
+                        make_curve<T,2>(get_member(val, "curve")),
+                        make_ax2<T,3>(get_member(val, "axis2")),
+                        get_val<T>(get_member(val, "theta1")),
+                        get_val<T>(get_member(val, "theta2"))
                     });
                 break;
             }
diff --git a/gbs-io/fromjson2.h b/gbs-io/fromjson2.h
index b904930..10d22a5 100644
--- a/gbs-io/fromjson2.h
+++ b/gbs-io/fromjson2.h
@@ -6,12 +6,14 @@ namespace gbs{
     auto bscurve_direct_mults(const rapidjson::Value &a) -> BSCurve<T, dim>
     {
         // std::cerr << "Curve name: " << a["name"].GetString() << std::endl;
-        assert( a["type"].GetInt() == 125);
-        assert( a["dim"].GetUint64() == dim);
-        auto knots = make_vec<T>(a["knots"]);
-        auto mults = make_vec<size_t>(a["mults"]);
-        auto deg = get_val<size_t>(a["degree"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        if (get_val<int>(get_member(a, "type")) != static_cast<int>(entity_type::BSCurve))
+            throw std::invalid_argument("auto bscurve_direct_mults(const rapidjson::Value &a) unsupported type");
+        if (get_val<size_t>(get_member(a, "dim")) != dim)
+            throw std::invalid_argument("auto bscurve_direct_mults(const rapidjson::Value &a) wrong dimension");
+        auto knots = make_vec<T>(get_member(a, "knots"));
+        auto mults = make_vec<size_t>(get_member(a, "mults"));
+        auto deg = get_val<size_t>(get_member(a, "degree"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
 
         return BSCurve<T, dim>(poles, knots, mults, deg);
     }
-- 
2.43.0


From 54c3fa3252ecfc7b44fa3d49fa326992c7b7d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 54/81] fix: surfaces of revolution and offset curves embedded
 in another entity were written as null

---
 gbs-io/fromjson.h | 10 ++++++++++
 gbs-io/tojson.h   | 21 +++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index eb6dac2..db424d3 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -418,6 +418,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>;
 
+    template <typename T>
+    auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,3>>;
+
     template <typename T, size_t dim>
     auto make_curve(const rapidjson::Value &val) -> std::shared_ptr<Curve<T,dim>>
     {
@@ -484,6 +487,13 @@ namespace gbs
                     }
                 );
                 break;
+            case static_cast<int>(entity_type::SurfaceOfRevolution):
+                if constexpr (dim == 3)
+                {
+                    return make_surface<T>(val);
+                }
+                throw std::invalid_argument("Unsupported surface type");
+                break;
             default:
                 throw std::invalid_argument("Unsupported surface type");
                 break;
diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index f81d4a6..fde1616 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -295,6 +295,20 @@ namespace gbs
         {
             return make_json(*static_cast<const CurveTrimmed<T,dim>*>(crv),allocator);
         }
+        if constexpr (dim == 2)
+        {
+            if(dynamic_cast<const CurveOffset2D<T,BSCfunction<T>>*>(crv))
+            {
+                return make_json(*static_cast<const CurveOffset2D<T,BSCfunction<T>>*>(crv),allocator);
+            }
+        }
+        if constexpr (dim == 3)
+        {
+            if(dynamic_cast<const CurveOffset3D<T,BSCfunction<T>>*>(crv))
+            {
+                return make_json(*static_cast<const CurveOffset3D<T,BSCfunction<T>>*>(crv),allocator);
+            }
+        }
         rapidjson::Value null_val;
         return null_val;
     }
@@ -406,6 +420,13 @@ namespace gbs
         {
             return make_json(*static_cast<const BSSurfaceRational<T,dim>*>(srf),allocator);
         }
+        if constexpr (dim == 3)
+        {
+            if(dynamic_cast<const SurfaceOfRevolution<T>*>(srf))
+            {
+                return make_json(*static_cast<const SurfaceOfRevolution<T>*>(srf),allocator);
+            }
+        }
         rapidjson::Value null_val;
         return null_val;
     }
-- 
2.43.0


From c10d6c4b16e3e90eb2345e3c48728723a8a6a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 55/81] fix: a singular interpolation system was solved with an
 incomplete factorisation, reading out of range

---
 gbs/bscinterp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index 81c5595..1a2d964 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -53,6 +53,8 @@ auto solve_collocation(const MatrixX<T> &N, const MatrixX<T> &B) -> MatrixX<T>
     Eigen::SparseLU<Eigen::SparseMatrix<T>> solver;
     solver.analyzePattern(Ns);
     solver.factorize(Ns);
+    if (solver.info() != Eigen::Success)
+        throw std::domain_error("Interpolation: singular system, parameters and knots are not compatible");
     return solver.solve(B);
 }
 
@@ -352,6 +354,8 @@ struct collocation_solver
             Eigen::SparseMatrix<T> Ns = assemble_collocation_sparse<T>(k_flat, u, deg, nc, n_poles);
             sparse.analyzePattern(Ns);
             sparse.factorize(Ns);
+            if (sparse.info() != Eigen::Success)
+                throw std::domain_error("Interpolation: singular system, parameters and knots are not compatible");
         }
     }
     // Multi-RHS solve: every column of B is solved against the single
-- 
2.43.0


From 8afaabd0cb5c3f54dc7f5ab7b3404bce28b23ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 56/81] fix: adaptive arc length sampling used iterators
 invalidated by its own insertions

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 883cdb2..8c364c0 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -199,7 +199,7 @@ namespace gbs
                 if (curv_diff > tolerance)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = std::next(u.insert(it_u3, mid_u)); // insertion invalidates the iterators
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From c73c17c4daf3c39a945707af808b43937e83dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 57/81] fix: discretisation of less than two points looped or
 gave NaN, a closed curve was left on a single interval

---
 gbs/bscanalysis.h | 6 +++++-
 gbs/bssanalysis.h | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 8c364c0..cf0e573 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -336,6 +336,8 @@ namespace gbs
     template <typename T, size_t dim, size_t N = 10>
     auto uniform_distrib_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, size_t n_law = 30) -> std::list<T>
     {
+        if (n < 2)
+            throw std::length_error("uniform_distrib_params: at least 2 points are required");
         // Initialize the list of parameters and set the first and last elements
         std::list<T> u_lst(n);
         u_lst.front() = u1;
@@ -403,8 +405,9 @@ namespace gbs
             auto v1 = crv(um) - crv(u1);
             auto v2 = crv(u2) - crv(u1);
             auto dev = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
+            auto closed = norm(v1) > T(0) && norm(v2) == T(0); // the interval ends on its start, the angle is undefined
 
-            if (dev > dev_max)
+            if (dev > dev_max || closed)
             {
                 auto it_um = u_lst.insert(it_u2, um);
                 refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst, n_max_pts);
@@ -429,6 +432,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        n = std::max<size_t>(n, 2); // the bounds are always included
 
         // Create initial list of parameters
         std::list<T> u_lst;
diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index 07c8ba6..131be0e 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -49,7 +49,8 @@ namespace gbs
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (u_lst.size() < n_max_pts && dev_ > dev_max)
+        auto closed = norm(v1) > T(0) && norm(v2) == T(0); // the interval ends on its start, the angle is undefined
+        if (u_lst.size() < n_max_pts && (dev_ > dev_max || closed))
         {
             auto it_u2 = u_lst.insert(it_u3, u_);
             refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst, n_max_pts);
@@ -74,6 +75,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_u_params(const Surface<T, dim> &srf, T u1, T u2, T v,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        n = std::max<size_t>(n, 2); // the bounds are always included
         // Create initial list of parameters
         std::list<T> u_lst;
         for (size_t i{}; i < n; i++)
@@ -115,7 +117,8 @@ namespace gbs
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (v_lst.size() < n_max_pts && dev_ > dev_max)
+        auto closed = norm(v1) > T(0) && norm(v2) == T(0); // the interval ends on its start, the angle is undefined
+        if (v_lst.size() < n_max_pts && (dev_ > dev_max || closed))
         {
             auto it_u2 = v_lst.insert(it_v3, u_);
             refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst, n_max_pts);
@@ -141,6 +144,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_v_params(const Surface<T, dim> &srf, T v1, T v2, T u,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        n = std::max<size_t>(n, 2); // the bounds are always included
         // Create initial list of parameters
         std::list<T> v_lst;
         for (size_t i{}; i < n; i++)
-- 
2.43.0


From 347b23b2e527c37633b174873db0966771f97bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 58/81] fix: interpolation of no or a single constrained point
 wrote out of range

---
 gbs/bscinterp.h        | 2 ++
 gbs/knotsfunctions.ixx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index 1a2d964..d77a084 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -538,6 +538,8 @@ auto get_constrain(const std::vector<constrType<T, dim, nc>> &Q, size_t order) -
 template <typename T, size_t dim, size_t nc>
 auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, const std::vector<T> &u, bool add_computed=false)->BSCurve<T,dim>
 {
+    if(Q.size() != u.size()) throw std::length_error("Parameters number must match points number");
+    if(Q.size() < 2) throw std::length_error("Not enough points to interpolate");
 
     auto build_crv = [&u](size_t nc_, const auto &Q)
     {
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 857ad53..0cb35b2 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -315,6 +315,8 @@
     {
 
         std::vector<T> k(pts.size());
+        if (k.empty())
+            return k;
         k[0] = 0.;
         switch (mode)
         {
-- 
2.43.0


From 46acaeb51f5a2b71968625c3e31ca486b903a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 59/81] fix: structured mesh of a surface whose parameters do
 not start at zero was evaluated out of the curves

---
 gbs-mesh/tfi.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index b256aa9..035b3b9 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -790,12 +790,16 @@ namespace gbs
         std::vector<std::shared_ptr<Curve<T,dim>>> iso_eth, iso_ksi;
         for( auto eth : eth_j)
         {
-            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi_i.front(), eth}, point<T,2>{ksi_i.back(), eth}) );
+            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( // the surface parameter is the curve's one
+                points_vector<T,2>{{ksi_i.front(), eth}, {ksi_i.back(), eth}},
+                std::vector<T>{ksi_i.front(), ksi_i.front(), ksi_i.back(), ksi_i.back()}, 1 );
             iso_eth.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         for( auto ksi : ksi_i)
         {
-            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi,eth_j.front()},point<T,2>{ksi,eth_j.back()}) );
+            auto p_uv_crv = std::make_shared<BSCurve<T,2>>(
+                points_vector<T,2>{{ksi, eth_j.front()}, {ksi, eth_j.back()}},
+                std::vector<T>{eth_j.front(), eth_j.front(), eth_j.back(), eth_j.back()}, 1 );
             iso_ksi.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         return tfi_mesh_2d<T, dim, P, Q, slope_ctrl>(iso_ksi, iso_eth, ksi_i, eth_j, n_ksi, n_eth, p_srf);
-- 
2.43.0


From 70ac54592324c753ab8dbe59b9a01a58e9572bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 60/81] fix: a segment shorter than half the mesh step was
 given a single node and could not be meshed

---
 gbs-mesh/tfi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index 035b3b9..5c80d24 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -185,7 +185,7 @@ namespace gbs
                     }
                 );
                 l /= crv_lst.size();
-                auto n = static_cast<size_t>( round(l / dm)) + 1; 
+                auto n = std::max<size_t>(1, static_cast<size_t>( round(l / dm))) + 1; // a segment has two ends
                 return n;
             }
         );
@@ -244,7 +244,7 @@ namespace gbs
                 l += length(crv, u1, u2);
             }
             l /= crv_lst.size();
-            nui[i_ui] = static_cast<size_t>( round(l / dm)) + 1; 
+            nui[i_ui] = std::max<size_t>(1, static_cast<size_t>( round(l / dm))) + 1; 
         }
         return nui;
     }
-- 
2.43.0


From 880ae72f58222e14d6c7e18391fde96ab2eff0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 61/81] fix: meshing curves whose number does not match the
 parameters read out of range

---
 gbs-mesh/tfi.h | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index 5c80d24..4fa1007 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -163,6 +163,15 @@ namespace gbs
         T dm
         ) -> std::vector<size_t>
     {
+        if(crv_lst.size() == 0)
+        {
+            throw std::invalid_argument("No curves provided");
+        }
+        if(u.size() < 2)
+        {
+            throw std::invalid_argument("At least two parameters must be provided");
+        }
+
         std::vector<size_t> nui(u.size()-1);
         std::transform(
             u.begin(),
@@ -229,6 +238,10 @@ namespace gbs
                 throw std::invalid_argument("Same number of parameters must be provided");
             }
         }
+        if(n_u < 2)
+        {
+            throw std::invalid_argument("At least two parameters must be provided");
+        }
 
         auto n_ui  = n_u-1;
         auto n_crv = crv_lst.size();
@@ -266,6 +279,14 @@ namespace gbs
         size_t n
         ) -> std::vector<size_t>
     {
+        if(crv_lst.size() == 0)
+        {
+            throw std::invalid_argument("No curves provided");
+        }
+        if(n < 2)
+        {
+            throw std::invalid_argument("At least two nodes are required");
+        }
         auto l = std::reduce(
             crv_lst.begin(),crv_lst.end(),T{},
             // https://en.cppreference.com/w/cpp/algorithm/reduce
@@ -300,6 +321,14 @@ namespace gbs
         size_t n
         ) -> std::vector<size_t>
     {
+        if(crv_lst.size() == 0)
+        {
+            throw std::invalid_argument("No curves provided");
+        }
+        if(n < 2)
+        {
+            throw std::invalid_argument("At least two nodes are required");
+        }
         auto l = std::reduce(
             crv_lst.begin(),crv_lst.end(),T{},
             // https://en.cppreference.com/w/cpp/algorithm/reduce
@@ -335,7 +364,12 @@ namespace gbs
         const std::vector<size_t> &nui,
         const std::vector<T> &u) -> std::vector<std::vector<std::array<point<T,dim> , P>>>
     {
-        if(nui.size() != (u.size()-1))
+        if(crv_lst.size() == 0)
+        {
+            throw std::invalid_argument("No curves provided");
+        }
+
+        if(u.size() < 2 || nui.size() != (u.size()-1))
         {
             throw std::out_of_range("Incorrect sizes." + std::to_string(nui.size()) + " " + std::to_string(u.size()-1));
         }
@@ -393,7 +427,12 @@ namespace gbs
             throw std::invalid_argument("Empty parameters");
         }
 
-        if(nui.size() != (u_lst.front().size()-1))
+        if(crv_lst.size() != u_lst.size())
+        {
+            throw std::invalid_argument("Curve sequence size must match parameters sequence size");
+        }
+
+        if(u_lst.front().size() < 2 || nui.size() != (u_lst.front().size()-1))
         {
             throw std::out_of_range("Incorrect sizes." + std::to_string(nui.size()) + " " + std::to_string(u_lst.size()-1));
         }
@@ -490,6 +529,11 @@ namespace gbs
         const std::shared_ptr<Surface<T,dim>> p_srf = nullptr
     )
     {
+        if( iso_ksi.size() != ksi_i.size() || iso_eth.size() != eth_j.size() )
+        {
+            throw std::invalid_argument("Incompatible sizes.");
+        }
+
         auto X_ksi = msh_curves_set<T,dim,P>(iso_ksi, n_iso_ksi, eth_j);
         auto X_eth = msh_curves_set<T,dim,Q>(iso_eth, n_iso_eth, ksi_i);
 
-- 
2.43.0


From 5da28a4db38784ff0f11780f4a5b0daeae690868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 62/81] fix: computing the points of an edge before setting
 their number wrote out of range

---
 gbs-mesh/mshedge.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs-mesh/mshedge.h b/gbs-mesh/mshedge.h
index b898063..bb2b912 100644
--- a/gbs-mesh/mshedge.h
+++ b/gbs-mesh/mshedge.h
@@ -16,6 +16,7 @@ namespace gbs
         msh_edge(const std::shared_ptr<Curve<T, dim>> &p_crv) : 
             m_crv{p_crv, abs_curv(*p_crv)},
             n_{2},
+            m_pts(2),
             m_law{
                 std::vector<T>{ 0., 1.},
                 std::vector<T>{0., 0., 1., 1.},
@@ -28,6 +29,7 @@ namespace gbs
         msh_edge(std::shared_ptr<Curve<T, dim>> &p_crv,std::array<T,2> bounds) : 
             m_crv{p_crv, abs_curv(*p_crv, bounds[0], bounds[1])},
             n_{2},
+            m_pts(2),
             m_law{
                 std::vector<T>{ 0., 1.},
                 std::vector<T>{0., 0., 1., 1.},
-- 
2.43.0


From 91b420ff272fbb9ee15ac762f477ac55af2ac507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 63/81] fix: moving a curve to constraints added them to the
 curve

---
 gbs/bscshaping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index 81af81d..c66ba2c 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -143,7 +143,7 @@ namespace gbs
             i2 = std::min<size_t>(n-2,i2);
         }
 
-        return moved_to_constraints_delta(crv, constraints, i1, i2);
+        return moved_to_constraints_delta(crv, constraints_delta, i1, i2);
     }
 
     template<typename T, size_t dim>
-- 
2.43.0


From 4c5b5856533d9442f9dbe6515c406889513340c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 64/81] fix: moving a curve to an empty set of constraints
 built a system of wrapped around size

---
 gbs/bscshaping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index c66ba2c..93e8daf 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -87,7 +87,8 @@ namespace gbs
         auto n = poles.size();
         auto k     = crv.knotsFlats();
         auto p     = crv.degree();
-        move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
+        if(constraints_delta.size()>0)
+            move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
         return BSCurve<T,dim>{poles,k,p};
     }
 
-- 
2.43.0


From bd002318513ceda1334078e418726778359a9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 65/81] fix: moving a surface to derivative constraints applied
 them to its values

---
 gbs/bssshaping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssshaping.h b/gbs/bssshaping.h
index 5cb75ce..532cfec 100644
--- a/gbs/bssshaping.h
+++ b/gbs/bssshaping.h
@@ -42,10 +42,10 @@ namespace gbs
 
             for (size_t j{j1}; j <= j2; j++)
             {
-                Nv = basis_function(v, j, q, 0, kv);
+                Nv = basis_function(v, j, q, dv, kv);
                 for (size_t i{i1}; i <= i2; i++)
                 {
-                    Nu = basis_function(u, i, p, 0, ku);
+                    Nu = basis_function(u, i, p, du, ku);
                     B(r, i - i1 + nu * ( j - j1) ) = Nu * Nv;
                 }
             }
-- 
2.43.0


From 8ca1137f9239e7134aa40d653dce648eba181f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 66/81] fix: an edge accepted vertices up to the square root of
 its tolerance away from its curve

---
 inc/topology/edge.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/topology/edge.h b/inc/topology/edge.h
index 17ff152..9f908fa 100644
--- a/inc/topology/edge.h
+++ b/inc/topology/edge.h
@@ -138,9 +138,9 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex1(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance(m_curve->value(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
@@ -154,9 +154,9 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex2(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance(m_curve->value(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
-- 
2.43.0


From 66f6de150c1e1a0873a556ec2ed113ac23de8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 67/81] fix: closing a wire did not compile

---
 inc/topology/wire.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..ad6993c 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -231,8 +231,8 @@ namespace gbs
     void Wire<T, dim>::close()
     {
         addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+            vertex2(),
+            vertex1()});
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From a419f683461cfd20bc04db96efd07bc8e21378ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 68/81] fix: an edge sharing one end with a wire and meeting
 the other one left the wire open

---
 inc/topology/wire.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index ad6993c..7bd74e9 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -136,10 +136,15 @@ namespace gbs
             }
             if (m_edges.front()->vertex1() == ed->vertex2())
             {
+                if (m_edges.back()->vertex2() != ed->vertex1())
+                {
+                    fuseVertex1(ed); // may close the wire
+                }
                 m_edges.push_front(ed);
             }
             else if (m_edges.back()->vertex2() == ed->vertex1())
             {
+                fuseVertex2(ed); // may close the wire
                 m_edges.push_back(ed);
             }
             else
-- 
2.43.0


From 018c8d577250bef84990517e19a8acf20fcb0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 69/81] fix: finding the closest curve of a list did not
 compile

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index cf0e573..b9d6ebe 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -666,7 +666,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c1, pt, c1.midPosition(), tol)[1] < extrema_curve_point(c2, pt, c2.midPosition(), tol)[1];
             });
     }
 /**
@@ -688,7 +688,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c1, pt, c1->midPosition(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPosition(), tol)[1];
             });
     }
 
-- 
2.43.0


From 38afa33f3a4bc11b65e37d5b8572f212b7ed9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:07 +0000
Subject: [PATCH 70/81] fix: the distance criterion between a mesh and a
 surface did not compile

---
 inc/topology/halfEdgeMeshQuality.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/inc/topology/halfEdgeMeshQuality.h b/inc/topology/halfEdgeMeshQuality.h
index d25b4ab..74c44f4 100644
--- a/inc/topology/halfEdgeMeshQuality.h
+++ b/inc/topology/halfEdgeMeshQuality.h
@@ -95,7 +95,8 @@ namespace gbs
         auto operator()(const std::shared_ptr<HalfEdgeFace<T, 2>> &hf) const
         {
             // Get the face coordinates in UV space
-            auto coordsUV = getFaceCoords(hf);
+            auto [uv1, uv2, uv3] = getTriangleCoords(hf);
+            std::array<std::array<T, 2>, 3> coordsUV{uv1, uv2, uv3};
 
             // Get the bounds of the surface in UV space
             auto [u1, u2, v1, v2] = srf.bounds();
@@ -106,12 +107,12 @@ namespace gbs
                 if (u1 > u || u2 < u || v1 > v || v2 < v)
                 {
                     // Return a zero distance and a dummy UV point for out-of-bounds coordinates
-                    return std::make_pair(0., std::array<T, 2>{0., 0.});
+                    return std::make_pair(static_cast<T>(0), std::array<T, 2>{0, 0});
                 }
             }
 
             // Transform the face coordinates from UV space to 3D space
-            std::vector<std::array<T, 3>> coords(coordsUV.size());
+            std::array<std::array<T, dim>, 3> coords;
             std::transform(
                 coordsUV.begin(), coordsUV.end(),
                 coords.begin(),
@@ -121,14 +122,14 @@ namespace gbs
                 });
 
             // Compute the centroid (G) and midpoints (A, B, C) in both UV and 3D space
-            auto G_UV = average(coordsUV.begin(), coordsUV.end());
-            auto G = average(coords.begin(), coords.end());
-            auto A_UV = midpoint(coordsUV[0], coordsUV[1]);
-            auto A = midpoint(coords[0], coords[1]);
-            auto B_UV = midpoint(coordsUV[1], coordsUV[2]);
-            auto B = midpoint(coords[1], coords[2]);
-            auto C_UV = midpoint(coordsUV[2], coordsUV[0]);
-            auto C = midpoint(coords[2], coords[0]);
+            auto G_UV = (coordsUV[0] + coordsUV[1] + coordsUV[2]) / static_cast<T>(3);
+            auto G = (coords[0] + coords[1] + coords[2]) / static_cast<T>(3);
+            auto A_UV = static_cast<T>(0.5) * (coordsUV[0] + coordsUV[1]);
+            auto A = static_cast<T>(0.5) * (coords[0] + coords[1]);
+            auto B_UV = static_cast<T>(0.5) * (coordsUV[1] + coordsUV[2]);
+            auto B = static_cast<T>(0.5) * (coords[1] + coords[2]);
+            auto C_UV = static_cast<T>(0.5) * (coordsUV[2] + coordsUV[0]);
+            auto C = static_cast<T>(0.5) * (coords[2] + coords[0]);
 
             // Compute the distances between the surface and the computed points
             auto test_lst = {
-- 
2.43.0


From 627654705b5b4ee06b71e65bb310e3087b812369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:07 +0000
Subject: [PATCH 71/81] fix: the beginning and the end of a face's edges
 compared equal

---
 inc/topology/halfEdgeMeshData.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshData.h b/inc/topology/halfEdgeMeshData.h
index da8cc19..818e4b1 100644
--- a/inc/topology/halfEdgeMeshData.h
+++ b/inc/topology/halfEdgeMeshData.h
@@ -327,13 +327,14 @@ namespace gbs
 
         bool operator==(const HalfEdgeFaceEdgeIterator &other) const
         {
-            return (is_end && other.is_end) || (current_edge == other.current_edge);
+            // an edge-less face has no position to tell apart
+            return (current_edge == other.current_edge) && (is_end == other.is_end || !current_edge);
         }
 
         /// Inequality operator
         bool operator!=(const HalfEdgeFaceEdgeIterator &other) const
         {
-            return (current_edge != other.current_edge) || (is_end != other.is_end);
+            return !(*this == other);
         }
 
     private:
-- 
2.43.0


From 07ccfa58cbfd9693572d480d0775ad61b47b31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 72/81] fix: the Python reverseV of a surface reversed U

---
 python/gbsBindSurfaces.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gbsBindSurfaces.h b/python/gbsBindSurfaces.h
index 10dbe0d..1b465a8 100644
--- a/python/gbsBindSurfaces.h
+++ b/python/gbsBindSurfaces.h
@@ -84,7 +84,7 @@ inline auto declare_bssurface(py::module_ &m)
         .def("isoV", &Class::isoV,"Isoparametric curve v constant",py::arg("v"))
         .def("invertUV",&Class::invertUV,"Invert U, V parametrization")
         .def("reverseU",&Class::reverseU,"Invert U parametrization")
-        .def("reverseV",&Class::reverseU,"Invert V parametrization")
+        .def("reverseV",&Class::reverseV,"Invert V parametrization")
         .def("trimU",&Class::trimU,"Permanently trim surface between u1 and u2 along V direction",py::arg("u1"),py::arg("u2"))
         .def("trimV",&Class::trimV,"Permanently trim surface between v1 and v2 along U direction",py::arg("v1"),py::arg("v2"))
         .def("changeUBounds",&Class::changeUBounds,"Change u bounds", py::arg("u1"), py::arg("u2"))
-- 
2.43.0


From 7b121586f90a5faba5362ca6524ecb76484419b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 73/81] fix: the Python discretizations ignored the maximum
 number of points

---
 python/gbsBindDiscretize.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/gbsBindDiscretize.h b/python/gbsBindDiscretize.h
index 91da979..a9d6009 100644
--- a/python/gbsBindDiscretize.h
+++ b/python/gbsBindDiscretize.h
@@ -34,7 +34,7 @@ inline void gbs_bind_discretize(py::module &m)
         "discretize_curve",
         [](const Curve<T, dim> &crv, size_t np, T dev, size_t n_max_pts)
         {
-            py::array points = py::cast(discretize(crv, np, dev));
+            py::array points = py::cast(discretize(crv, np, dev, n_max_pts));
             return points;
         },
         "Curve discretization based on deviation",
@@ -44,7 +44,7 @@ inline void gbs_bind_discretize(py::module &m)
         "deviation_based_params",
         [](const gbs::Curve<T, dim> &crv, size_t np, T dev, size_t n_max_pts)
         {
-            py::array u_arr = py::cast(deviation_based_params(crv, np, dev));
+            py::array u_arr = py::cast(deviation_based_params(crv, np, dev, n_max_pts));
             return u_arr;
         },
         "Curve discretization parameters based on deviation",
@@ -54,7 +54,7 @@ inline void gbs_bind_discretize(py::module &m)
         "deviation_based_params",
         [](const gbs::Curve<T, dim> &crv, T u1, T u2, size_t np, T dev, size_t n_max_pts)
         {
-            py::array u_arr = py::cast(deviation_based_params(crv, u1, u2, np, dev));
+            py::array u_arr = py::cast(deviation_based_params(crv, u1, u2, np, dev, n_max_pts));
             return u_arr;
         },
         "Curve discretization based on deviation",
-- 
2.43.0


From fbc6d3178898f200de163629babcc263c4d80b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 74/81] fix: the Python elliptic smoothing took its tolerance
 for the iteration count

---
 python/gbsbindmesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gbsbindmesh.cpp b/python/gbsbindmesh.cpp
index 0935519..99b4d5e 100644
--- a/python/gbsbindmesh.cpp
+++ b/python/gbsbindmesh.cpp
@@ -192,7 +192,7 @@ void gbs_bind_mesh(py::module &m)
       m.def("elliptic_structured_smoothing",
             [](gbs::points_vector<double,2> &pts, size_t nj, size_t i1, size_t i2, size_t j1, size_t j2, size_t n_it, double tol)
             {
-                  gbs::elliptic_structured_smoothing<double>(pts, nj, i1, i2, j1, j2, tol);
+                  gbs::elliptic_structured_smoothing<double>(pts, nj, i1, i2, j1, j2, n_it, tol);
                   return pts;
             },
             "Mesh Smoothing between indices i1, i2, j1, j2",
-- 
2.43.0


From 267b1ca6f7a7e693c5b191ad0d17f3f53ca14719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 75/81] fix: the Python extended returned the extension alone

---
 python/gbsBindSurfaceTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gbsBindSurfaceTools.h b/python/gbsBindSurfaceTools.h
index bd87c7d..c303c9d 100644
--- a/python/gbsBindSurfaceTools.h
+++ b/python/gbsBindSurfaceTools.h
@@ -86,7 +86,7 @@ inline void gbs_bind_surfaceTools(py::module &m)
             SurfaceBound,
             bool,
             std::optional<size_t>
-        >(&extention<T, dim, rational>),
+        >(&extended<T, dim, rational>),
         "Surface extension in the given direction",
         py::arg("srf"),
         py::arg("l_ext"),
-- 
2.43.0


From 4dfceffc228f48bf1383bb546a0d60321b9bf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 76/81] fix: evaluating a surface on lists of different sizes
 read out of range

---
 gbs/bssurf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index cd4eeb8..95912a3 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -165,7 +165,8 @@ namespace gbs
         template <template<typename ...> class _Container, typename... Args>
         auto values(const _Container<T, Args...>& u_lst, const _Container<T, Args...>& v_lst, size_t du = 0, size_t dv = 0) const -> std::vector<std::array<T, dim>>
         {
-            assert( u_lst.size() == v_lst.size() );
+            if( u_lst.size() != v_lst.size() )
+                throw std::length_error("Surface::values: the lists of u and v parameters must have the same size.");
             std::vector<std::array<T, dim>> values(u_lst.size());
             transform_threshold(
                 u_lst.begin(), u_lst.end(),
-- 
2.43.0


From 2e9635383b6d5ac5bf042d189291dc5c4ead0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 77/81] fix: extending a surface to a curve with other poles
 read out of range

---
 gbs/bsstools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index c10be66..08eafe4 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -133,6 +133,8 @@ namespace gbs
 
         auto nu = srf.nPolesU();
         auto nv = srf.nPolesV();
+        if(crv.poles().size() != nv)
+            throw std::invalid_argument("The curve must have as many poles as the surface in the V direction.");
         auto ku = srf.knotsFlatsU();
         auto kv = srf.knotsFlatsV();
         auto p = srf.degreeU();
-- 
2.43.0


From 5f23e31fe09d609b42fc059f5977f6fb73ae1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:22 +0000
Subject: [PATCH 78/81] fix: the Python intersection of two lines was hidden by
 the one of any curves

---
 python/gbsbind.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/gbsbind.cpp b/python/gbsbind.cpp
index a08c4a9..6057e79 100644
--- a/python/gbsbind.cpp
+++ b/python/gbsbind.cpp
@@ -748,13 +748,14 @@ PYBIND11_MODULE(gbs, m) {
         py::enum_<nlopt::algorithm>(m, "nlopt_algorithm", py::arithmetic())
             .value("LN_PRAXIS", nlopt::algorithm::LN_PRAXIS)
             .value("LN_COBYLA", nlopt::algorithm::LN_COBYLA);
-        gbs_bind_extrema<double,1>(m);
-        gbs_bind_extrema<double,2>(m);
-        gbs_bind_extrema<double,3>(m);
+        // before the overloads for any curve, which accept lines too
         m.def("extrema_curve_curve",
                 py::overload_cast<const gbs::Line<double, 2>&, const gbs::Line<double, 2>&>(&gbs::extrema_curve_curve<double>),
                 py::arg("crv1"),  py::arg("crv2")
         );
+        gbs_bind_extrema<double,1>(m);
+        gbs_bind_extrema<double,2>(m);
+        gbs_bind_extrema<double,3>(m);
 
         gbs_bind_discretize(m);
 
-- 
2.43.0


From 9ef5beec37c274cbdef0507f13a9287861c288f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:37 +0000
Subject: [PATCH 79/81] fix: the Python basisCurve and basisSurface of a curve
 on surface always failed

---
 python/gbsBindCurves.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/gbsBindCurves.h b/python/gbsBindCurves.h
index 79d8529..ef6d62f 100644
--- a/python/gbsBindCurves.h
+++ b/python/gbsBindCurves.h
@@ -204,8 +204,8 @@ inline void gbs_bind_curves(py::module &m)
     .def(py::init<const gbs::CurveOnSurface<T, dim> &>())
     .def("__copy__", [](const gbs::CurveOnSurface<T, dim> &self){ return gbs::CurveOnSurface<T, dim>(self); })
     .def("__repr__", [](const gbs::CurveOnSurface<T, dim> &self) { return build_rep( self ); } )
-    .def("basisCurve",&gbs::CurveOnSurface<T, dim>::basisCurve)
-    .def("basisSurface",&gbs::CurveOnSurface<T, dim>::basisSurface)
+    .def("basisCurve",[](gbs::CurveOnSurface<T, dim> &self){ return self.p_basisCurve(); })
+    .def("basisSurface",[](gbs::CurveOnSurface<T, dim> &self){ return self.p_basisSurface(); })
     .def(py::pickle(
             [](CurveOnSurface<T, dim> &crv) {
                     auto crv_ = crv.p_basisCurve();
-- 
2.43.0


From cebe115e38867988495dd1da2d071653bab23a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 80/81] fix: the Python basisCurve and pickling of offset
 curves always failed

---
 gbs/curveoffset.h        |  4 ++++
 python/gbsBindCurves.cpp | 12 ++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 43ddf13..b08d237 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -35,6 +35,10 @@ namespace gbs
         {
             return *p_crv_;
         }
+        auto p_basisCurve() const -> const std::shared_ptr<Curve<T, dim>> &
+        {
+            return p_crv_;
+        }
         auto offset() const -> const Func &
         {
             return *f_offset_;
diff --git a/python/gbsBindCurves.cpp b/python/gbsBindCurves.cpp
index 9617e05..843a360 100644
--- a/python/gbsBindCurves.cpp
+++ b/python/gbsBindCurves.cpp
@@ -16,7 +16,7 @@ void gbs_bind_curves(py::module &m)
                 gbs::CurveOffset<double, 2, gbs::BSCfunction<double>>
         >(m, "CurveOffset2d_bs")
         .def(py::init<const std::shared_ptr<gbs::Curve<double, 2>> &, const gbs::BSCfunction<double> &>())
-        .def("basisCurve", &gbs::CurveOffset2D<double, gbs::BSCfunction<double>>::basisCurve)
+        .def("basisCurve", &gbs::CurveOffset2D<double, gbs::BSCfunction<double>>::p_basisCurve)
         .def("offset", &gbs::CurveOffset2D<double, gbs::BSCfunction<double>>::offset)
         .def("__copy__", [](const gbs::CurveOffset2D<double, gbs::BSCfunction<double>> &self)
                 { return gbs::CurveOffset2D<double, gbs::BSCfunction<double>>(self); })
@@ -26,7 +26,7 @@ void gbs_bind_curves(py::module &m)
                 // __getstate__: return a tuple that fully encodes the state
                 [](const gbs::CurveOffset2D<double, gbs::BSCfunction<double>> &self) -> py::tuple {
                         // Assuming that self.basisCurve() returns a picklable object
-                        return py::make_tuple(self.basisCurve(), self.offset());
+                        return py::make_tuple(self.p_basisCurve(), self.offset());
                 },
                 // __setstate__: reconstruct the object from the state
                 [](py::tuple t) {
@@ -47,13 +47,13 @@ void gbs_bind_curves(py::module &m)
                 gbs::CurveOffset<double, 2, std::function<double(double, size_t)>>
         >(m, "CurveOffset2d_func")
             .def(py::init<const std::shared_ptr<gbs::Curve<double, 2>> &, const std::function<double(double, size_t)> &>())
-            .def("basisCurve", &gbs::CurveOffset2D<double, std::function<double(double, size_t)>>::basisCurve)
+            .def("basisCurve", &gbs::CurveOffset2D<double, std::function<double(double, size_t)>>::p_basisCurve)
             .def("offset", &gbs::CurveOffset2D<double, std::function<double(double, size_t)>>::offset)
         .def("__copy__", [](const gbs::CurveOffset2D<double, std::function<double(double, size_t)>> &self)
                 { return gbs::CurveOffset2D<double, std::function<double(double, size_t)>>(self); })
         .def(py::pickle(
                 [](const gbs::CurveOffset2D<double, std::function<double(double, size_t)>> &self) -> py::tuple {
-                return py::make_tuple(self.basisCurve(), self.offset());
+                return py::make_tuple(self.p_basisCurve(), self.offset());
                 },
                 [](py::tuple t) {
                 if (t.size() != 2)
@@ -70,7 +70,7 @@ void gbs_bind_curves(py::module &m)
                 gbs::CurveOffset<double, 3, gbs::BSCfunction<double>>
         >(m, "CurveOffset3d_bs")
         .def(py::init<const std::shared_ptr<gbs::Curve<double, 3>> &, const gbs::BSCfunction<double> &, const std::array<double,3>&>())
-        .def("basisCurve", &gbs::CurveOffset3D<double, gbs::BSCfunction<double>>::basisCurve)
+        .def("basisCurve", &gbs::CurveOffset3D<double, gbs::BSCfunction<double>>::p_basisCurve)
         .def("offset", &gbs::CurveOffset3D<double, gbs::BSCfunction<double>>::offset)
         .def("direction", &gbs::CurveOffset3D<double, gbs::BSCfunction<double>>::direction)
         .def("__copy__", [](const gbs::CurveOffset3D<double, gbs::BSCfunction<double>> &self)
@@ -80,7 +80,7 @@ void gbs_bind_curves(py::module &m)
         .def(py::pickle(
                 [](const gbs::CurveOffset3D<double, gbs::BSCfunction<double>> &self) -> py::tuple {
                 // Here we assume that self.direction() returns a std::array<double,3> that is picklable.
-                return py::make_tuple(self.basisCurve(), self.offset(), self.direction());
+                return py::make_tuple(self.p_basisCurve(), self.offset(), self.direction());
                 },
                 [](py::tuple t) {
                 if (t.size() != 3)
-- 
2.43.0


From 12eb77c690b2c3da7fa6b2f9e0d61355eefeb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 81/81] fix: the Python accessors of circles always failed

---
 python/gbsBindCurves.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/gbsBindCurves.cpp b/python/gbsBindCurves.cpp
index 843a360..a4e86ab 100644
--- a/python/gbsBindCurves.cpp
+++ b/python/gbsBindCurves.cpp
@@ -144,8 +144,8 @@ void gbs_bind_curves(py::module &m)
         .def(py::init<double, const point<double, 2> &>(), py::arg("r") = 1., py::arg("C") = point<double,2>{0.,0.})
         .def("value",&Circle2d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         // .def("r", &Circle2d<double>::getR)
-        .def_property("r", &Circle2d<double>::getR, &Circle2d<double>::setR, "Cicle radius")
-        .def("c", &Circle2d<double>::getC, "Get circle center")
+        .def_property("r", [](const Circle2d<double> &self){ return self.getR(); }, [](Circle2d<double> &self, double r){ self.setR(r); }, "Cicle radius")
+        .def("c", [](const Circle2d<double> &self){ return self.getC(); }, "Get circle center")
         .def("value",&Circle2d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("__call__",&Circle2d<double>::operator(),"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def(py::pickle(
@@ -171,9 +171,9 @@ void gbs_bind_curves(py::module &m)
         .def("value",&Circle3d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("value",&Circle3d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("__call__",&Circle3d<double>::operator(),"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
-        .def("r", &Circle3d<double>::getR)
-        .def("c", &Circle3d<double>::getC)
-        .def("z", &Circle3d<double>::getZ)
+        .def("r", [](const Circle3d<double> &self){ return self.getR(); })
+        .def("c", [](const Circle3d<double> &self){ return self.getC(); })
+        .def("z", [](const Circle3d<double> &self){ return self.getZ(); })
         .def(py::pickle(
                 // __getstate__: encode the circle's state as a tuple (radius and axis)
                 [](const Circle3d<double>& self) -> py::tuple {
-- 
2.43.0

