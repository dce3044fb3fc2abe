From 67ff92e72a5a12b18b6c459299062dcb8e14b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 01/19] fix: carry the input's edge weights over to the spanner

The spanner was built from unweighted edges, so the exact phase and the
shortest paths of the approximation ran with all weights zero.
---
 include/parmcb/detail/approx_spanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..2389fd9 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -351,6 +351,8 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(boost::edge_weight, _spanner, spanner_e,
+                        boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
-- 
2.43.0


From de51db23263f2b0a3a80e0afced7f549aa4e63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 02/19] fix: approximate algorithms emit edges of the caller's
 graph

The cycles of the exact phase were emitted as edge descriptors of the
spanner, a private graph that is gone when the call returns. Collect
them and translate them to the input graph; this also keeps the second
phase from overwriting them when the output iterator carries its position.
---
 include/parmcb/detail/approx_spanner.hpp        | 13 ++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp     |  5 +++--
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  5 +++--
 include/parmcb/parmcb_approx_sva_trees.hpp      | 14 ++++++++------
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 14 ++++++++------
 5 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 2389fd9..19a6db0 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -277,8 +277,19 @@ public:
         // compute spanner MCB with exact algorithm
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
+        std::list<std::list<Edge>> spanner_cycles;
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        _weight += exact_mcb_algo(_spanner, spanner_weight_map,
+                std::back_inserter(spanner_cycles));
+
+        // translate cycles of the spanner to the input graph
+        for (const auto &spanner_cycle : spanner_cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const auto &spanner_e : spanner_cycle) {
+                cycle_edgelist.push_back(_edge_spanner_to_g.at(spanner_e));
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..8e2226b 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -13,8 +13,9 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
+template<class Graph>
 struct mcb_sva_signed {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed(g, weight, out);
@@ -28,7 +29,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..3500284 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -13,8 +13,9 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
+template<class Graph>
 struct mcb_sva_signed_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed_tbb(g, weight, out);
@@ -26,7 +27,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph> ExactAlgo;
 
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..7185884 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -13,16 +13,18 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees{
+template<class Graph>
+struct mcb_sva_fvs_trees {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees{
+template<class Graph>
+struct mcb_sva_iso_trees {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees(g, weight, out);
@@ -36,7 +38,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -46,7 +48,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..4be5bc1 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -13,16 +13,18 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees_tbb{
+template<class Graph>
+struct mcb_sva_fvs_trees_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees_tbb(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees_tbb{
+template<class Graph>
+struct mcb_sva_iso_trees_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees_tbb(g, weight, out);
@@ -35,7 +37,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -44,7 +46,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
-- 
2.43.0


From 95738fa5a3eda9dc4b0e896582b644b07e3f3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 03/19] fix: no overflow of 2k-1 for huge k in the spanner
 construction

---
 include/parmcb/detail/approx_spanner.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 19a6db0..725fa27 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -343,6 +343,10 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
+        // no path has more than n-1 hops, avoid the overflow of 2k-1 for huge k
+        const std::size_t max_hops = _k > boost::num_vertices(_g) ?
+                boost::num_vertices(_g) : 2 * _k - 1;
+
         // construct edge set of spanner
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
@@ -358,7 +362,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0


From e84d56738bd2522131ead3c02944a1f66ad87e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 04/19] fix: no references to temporary vertex index maps

SPTree and BaseApproxSpannerAlgorithm kept a reference to the index map
their callers pass as a temporary.
---
 include/parmcb/detail/approx_spanner.hpp | 2 +-
 include/parmcb/sptrees.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 725fa27..51c0eaf 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -306,7 +306,7 @@ private:
     const Graph &_g;
     const WeightMap &_weight_map;
     const std::size_t _k;
-    const VertexIndexMapType &_index_map;
+    const VertexIndexMapType _index_map;
     std::vector<Vertex> _vertex_g_to_spanner_vec;
     const boost::function_property_map<
             parmcb::detail::VertexIndexFunctor<Graph, Vertex>, Vertex, Vertex&> _vertex_g_to_spanner;
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 788f7ea..dc8a2b0 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -257,7 +257,7 @@ namespace parmcb {
         const std::size_t _id;
         const Graph &_g;
         const WeightMap &_weight_map;
-        const VertexIndexMapType &_index_map;
+        VertexIndexMapType _index_map;
         const Vertex _source;
 
         /*
-- 
2.43.0


From a10aad7cb966d4ca0e91298459eac65ffd01bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 05/19] fix: extended gcd, inverses and primality on zeros,
 signs and extreme values

ext_gcd replaced its arguments by their absolute values, left one
coefficient unset when an argument is zero and overflowed on the smallest
value. is_prime(2) was false and the square of the trial limit overflowed
near the largest value.
---
 include/parmcb/fp.hpp | 91 +++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 56 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..baa6181 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cstddef>
+#include <stdexcept>
+
 namespace parmcb {
 
 template<class T>
@@ -13,86 +17,67 @@ class fp {
 
 public:
     // extended euclidean gcd algorithm
-    static T ext_gcd(T &a, T &b, T &x, T &y);
-    static T get_mult_inverse(T &a, T &p);
+    static T ext_gcd(const T &a, const T &b, T &x, T &y);
+    static T get_mult_inverse(const T &a, const T &p);
 
 };
 
 // extended euclidean gcd algorithm
 template<class T>
-T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
+T fp<T>::ext_gcd(const T &a, const T &b, T &x, T &y) {
 
-    // initialize
+    // initialize, a * _x[j] + b * _y[j] == _a[j] holds for j = 0, 1
     T _x[2], _y[2], _a[2], q;
-    bool aneg, bneg;
 
     _x[0] = 1;
     _x[1] = 0;
     _y[0] = 0;
     _y[1] = 1;
-    aneg = a < 0;
-    bneg = b < 0;
-
-    a = (a < 0) ? -a : a;
-    b = (b < 0) ? -b : b;
-    if (a == 0) {
-        y = bneg ? -1 : 1;
-        return b;
-    }
-    if (b == 0) {
-        x = bneg ? -1 : 1;
-        return a;
-    }
-
-    // swap arguments appropriately
     _a[0] = a;
     _a[1] = b;
-    bool swap = false;
-    if (b > a) {
-        _a[0] = b;
-        _a[1] = a;
-        swap = true;
-    }
 
     // do the work
     std::size_t i = 0;
-    while (true) {
-        q = _a[i] / _a[1 - i];
-        if (_a[i] % _a[1 - i] == 0)
-            break;
-        _a[i] = _a[i] % _a[1 - i];
-        _x[i] = _x[i] - q * _x[1 - i];
-        _y[i] = _y[i] - q * _y[1 - i];
-        i = 1 - i;
-    }
-
-    // did we swap arguments?
-    if (swap) {
-        x = _y[1 - i] * (aneg ? -1 : 1);
-        y = _x[1 - i] * (bneg ? -1 : 1);
+    if (b == 0) {
+        i = 1;
     } else {
-        x = _x[1 - i] * (aneg ? -1 : 1);
-        y = _y[1 - i] * (bneg ? -1 : 1);
+        while (true) {
+            // -1 divides everything, but minus the smallest value may overflow
+            if (T(-1) < 0 && _a[1 - i] == -1)
+                break;
+            if (_a[i] % _a[1 - i] == 0)
+                break;
+            q = _a[i] / _a[1 - i];
+            _a[i] = _a[i] % _a[1 - i];
+            _x[i] = _x[i] - q * _x[1 - i];
+            _y[i] = _y[i] - q * _y[1 - i];
+            i = 1 - i;
+        }
     }
 
-#ifdef PARMCB_INVARIANTS_CHECK
-    assert(_a[1 - i] == ((aneg) ? (-a) : (a)) * x + ((bneg) ? (-b) : (b)) * y);
-#endif
+    // the gcd is non-negative
+    if (_a[1 - i] < 0) {
+        _a[1 - i] = -_a[1 - i];
+        _x[1 - i] = -_x[1 - i];
+        _y[1 - i] = -_y[1 - i];
+    }
 
+    x = _x[1 - i];
+    y = _y[1 - i];
     return _a[1 - i];
 }
 
 // compute multiplication inverse of an element
 template<class T>
-T fp<T>::get_mult_inverse(T &a, T &p) {
+T fp<T>::get_mult_inverse(const T &a, const T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
-        throw new std::runtime_error("p is not positive");
+        throw std::runtime_error("p is not positive");
 #endif
 
     T x, y;
     if (fp<T>::ext_gcd(a, p, x, y) != 1) {
-        throw new std::runtime_error("mult inverse does not exist");
+        throw std::runtime_error("mult inverse does not exist");
     }
     return x;
 }
@@ -109,15 +94,9 @@ public:
 #ifdef PARMCB_INVARIANTS_CHECK
          assert( p >= t );
  #endif
-        if (p % 2 == 0)
-            return false;
         T zero = T(0);
-        T sqrtt = T(sqrt(p)) + 1;
-#ifdef PARMCB_INVARIANTS_CHECK
-         if ( sqrtt * sqrtt < p )
-             throw new std::runtime_error("error calculating square");
-#endif
-        while (t <= sqrtt) {
+        // t * t <= p without overflow
+        while (t <= p / t) {
             if (p % t == zero)
                 return false;
             t++;
-- 
2.43.0


From 9ac249331c7e555df94049b4b931fb235e7d2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 06/19] fix: no overflow in sparse vectors over F_p

Products of a coordinate with a large scalar, and dot products and sums
modulo a large prime, overflowed built-in integer types.
---
 include/parmcb/spvecfp.hpp | 43 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 68072b3..6fc7bc5 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -10,6 +10,7 @@
 #include <set>
 #include <iostream>
 #include <cassert>
+#include <limits>
 
 #include <boost/tuple/tuple.hpp>
 #include <boost/serialization/vector.hpp>
@@ -90,8 +91,8 @@ public:
             } else if (index < v_index) {
                 it++;
             } else {
-                P v = (boost::get<1>(entry) * boost::get<1>(v_entry)) % p;
-                res = (res + v) % p;
+                P v = mul_mod(boost::get<1>(entry), boost::get<1>(v_entry));
+                res = add_mod(res, v);
                 it++;
                 v_it++;
             }
@@ -121,11 +122,7 @@ public:
                 res.entries.push_back(boost::make_tuple(index, value));
                 it++;
             } else {
-                P v = (value + v_value) % p;
-                while (v < 0)
-                    v += p;   // make [-i]_p = [p-i]_p
-                while (v >= p)
-                    v -= p; // make [i+p]_p = [i]_p
+                P v = add_mod(value, v_value);
                 if (v != 0) {
                     res.entries.push_back(boost::make_tuple(index, v));
                 }
@@ -160,18 +157,16 @@ public:
 
     SpVecFP<P> operator*(const P &a) const {
         SpVecFP<P> res(p);
+        P a_mod_p = a % p;
+        while (a_mod_p < 0)
+            a_mod_p += p;   // make [-i]_p = [p-i]_p
         auto it = entries.begin(), it_e = entries.end();
         while (it != it_e) {
             entry_type entry = *it;
             std::size_t index = boost::get<0>(entry);
             P value = boost::get<1>(entry);
 
-            P v = (value * a) % p;
-            while (v < 0)
-                v += p;   // make [-i]_p = [p-i]_p
-            while (v >= p)
-                v -= p; // make [i+p]_p = [i]_p
-
+            P v = mul_mod(value, a_mod_p);
             if (v != 0) {
                 res.entries.push_back(boost::make_tuple(index, v));
             }
@@ -206,6 +201,28 @@ public:
     }
 
 private:
+    // x + y modulo p for x, y in [0, p), does not overflow
+    P add_mod(const P &x, const P &y) const {
+        if (x >= p - y)
+            return x - (p - y);
+        return x + y;
+    }
+
+    // x * y modulo p for x, y in [0, p), does not overflow
+    P mul_mod(const P &x, const P &y) const {
+        if (!std::numeric_limits<P>::is_bounded || y == 0
+                || x <= (std::numeric_limits<P>::max)() / y)
+            return (x * y) % p;
+        // by doubling
+        P res = 0, d = x;
+        for (P r = y; r != 0; r /= 2) {
+            if (r % 2 != 0)
+                res = add_mod(res, d);
+            d = add_mod(d, d);
+        }
+        return res;
+    }
+
     friend class boost::serialization::access;
 
     template<class Archive>
-- 
2.43.0


From c4cf942e11d797c0a74be826967bed3c17608173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 07/19] fix: DIMACS reader on unterminated lines and large
 vertex ids

The last character of a final line without a newline was dropped, a line
starting with a zero byte was written out of bounds, and vertex ids beyond
the range of int wrapped around to declared vertices.
---
 include/parmcb/util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..80fd1c3 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,7 +119,7 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+            buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if any
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
@@ -128,10 +128,10 @@ namespace parmcb {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
             } else if (buffer[0] == 'a' || buffer[0] == 'e') {
-                int rs, rt;
+                long rs, rt;
                 double rw = 1;
                 char fc;
-                sscanf(buffer, "%c %d %d %lf", &fc, &rs, &rt, &rw);
+                sscanf(buffer, "%c %ld %ld %lf", &fc, &rs, &rt, &rw);
 
                 if (vertex_map.find(rs) == vertex_map.end()) {
                     throw std::system_error(EIO, std::generic_category(), "Vertex not found");
-- 
2.43.0


From dafbec3571bc0d0cde870d456e88b71e3b05ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 08/19] fix: keep the TBB concurrency limit in force after the
 call

The control object was local to set_global_tbb_concurrency and its limit
was lifted on return. The function is now also inline, as it is defined in
a header.
---
 include/parmcb/util.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 80fd1c3..2e00126 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <memory>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
@@ -149,11 +150,16 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+        // the limit is in force only while the control object is alive
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> init;
+        init.reset();
+        init.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
-- 
2.43.0


From 8b91d912cccd62a5aadcb77faf83b38cf25b62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 09/19] fix: demos honour --cores without --verbose

---
 src/approx-mcb-dimacs.cpp | 6 ++++--
 src/mcb-dimacs.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From 582ad372e725b2bc022415797b57ce289aee5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 10/19] fix: MPI demo rejects invalid graphs on all ranks

Only rank 0 checked the graph and left, all others kept waiting in the
first collective.
---
 src/mcb-dimacs-mpi.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..c0d0faa 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,21 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
-            std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_multiple_edges(graph)) {
-            std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
-            std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
+    // all ranks must agree, nobody enters a collective alone
+    if (parmcb::has_loops(graph)) {
+        std::cerr << "Graph has loops, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        std::cerr << "Graph has multiple edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From 6f2c2be7e075aa974fe8a5176d1fa4e445df27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 11/19] fix: demos print the basis weight with full precision

Six significant digits were printed, e.g. 1.23457e+06 for 1234567.
---
 src/approx-mcb-dimacs.cpp | 4 +++-
 src/mcb-dimacs-mpi.cpp    | 4 +++-
 src/mcb-dimacs.cpp        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index c4934ba..484d30d 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -5,6 +5,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <map>
 #include <list>
 
@@ -165,7 +167,7 @@ int main(int argc, char *argv[]) {
 
     timer.stop();
 
-    std::cout << "MCB weight = " << mcb_weight << std::endl;
+    std::cout << "MCB weight = " << std::setprecision(std::numeric_limits<double>::digits10) << mcb_weight << std::endl;
 
     if (vm["printcycles"].as<bool>()) {
         std::cout << "MCB cycles" << std::endl;
diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index c0d0faa..9a666ca 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -5,6 +5,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <map>
 #include <list>
 
@@ -137,7 +139,7 @@ int main(int argc, char *argv[]) {
     timer.stop();
 
     if (world.rank() == 0) {
-        std::cout << "MCB weight = " << mcb_weight << std::endl;
+        std::cout << "MCB weight = " << std::setprecision(std::numeric_limits<double>::digits10) << mcb_weight << std::endl;
 
         if (vm["printcycles"].as<bool>()) {
             std::cout << "MCB cycles" << std::endl;
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index 47f4ad5..9ab98a9 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -5,6 +5,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <map>
 #include <list>
 
@@ -154,7 +156,7 @@ int main(int argc, char *argv[]) {
 
     timer.stop();
 
-    std::cout << "MCB weight = " << mcb_weight << std::endl;
+    std::cout << "MCB weight = " << std::setprecision(std::numeric_limits<double>::digits10) << mcb_weight << std::endl;
 
     if (vm["printcycles"].as<bool>()) {
         std::cout << "MCB cycles" << std::endl;
-- 
2.43.0


From 10b6284819272d0102b05dfea17385a845078ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 12/19] fix: demos bail out when TBB is required but not
 supported

The message was followed by printing an uninitialised weight.
---
 src/approx-mcb-dimacs.cpp | 3 +++
 src/mcb-dimacs.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 484d30d..7a9bab3 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -134,6 +134,7 @@ int main(int argc, char *argv[]) {
             mcb_weight = parmcb::approx_mcb_sva_signed_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
             std::cout << "Using APPROX_MCB_SVA_SIGNED" << std::endl;
@@ -146,6 +147,7 @@ int main(int argc, char *argv[]) {
             mcb_weight = parmcb::approx_mcb_sva_fvs_trees_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
             std::cout << "Using APPROX_MCB_SVA_FVS_TREES" << std::endl;
@@ -158,6 +160,7 @@ int main(int argc, char *argv[]) {
                     mcb_weight = parmcb::approx_mcb_sva_iso_trees_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
         std::cout << "Using APPROX_MCB_SVA_ISO_TREES" << std::endl;
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index 9ab98a9..35e9659 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -123,6 +123,7 @@ int main(int argc, char *argv[]) {
             mcb_weight = parmcb::mcb_sva_signed_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
             std::cout << "Using MCB_SVA_SIGNED" << std::endl;
@@ -135,6 +136,7 @@ int main(int argc, char *argv[]) {
             mcb_weight = parmcb::mcb_sva_fvs_trees_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
             std::cout << "Using MCB_SVA_FVS_TREES" << std::endl;
@@ -147,6 +149,7 @@ int main(int argc, char *argv[]) {
             mcb_weight = parmcb::mcb_sva_iso_trees_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
             std::cerr << "TBB not supported, bailing out." << std::endl;
+            return EXIT_FAILURE;
 #endif
         } else {
             std::cout << "Using MCB_SVA_ISO_TREES" << std::endl;
-- 
2.43.0


From ffbadcaa4546b4810300b8d087529af930ba7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 13/19] fix: MPI signed variant splits the signed edges
 identically on all ranks

Slices and hidden edge sets followed the order of std::set<Edge>, which
compares addresses and may differ between processes, so some signed edges
were searched by nobody and the cycle found was not a shortest one.
---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..4a31a00 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -92,12 +92,16 @@ namespace parmcb {
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
                 std::vector<Edge> signed_edges_as_vector;
+                // order by index, the order of std::set<Edge> may differ between processes
+                std::set<typename ForestIndex<Graph>::size_type> signed_edges_as_indices;
+                convert_edges(signed_edges, std::inserter(signed_edges_as_indices, signed_edges_as_indices.end()),
+                        forest_index);
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (auto index : signed_edges_as_indices) {
+                    Edge se = forest_index(index);
+                    hidden_edges_per_edge.insert(std::make_pair(se, tmp_signed_edges));
+                    signed_edges_as_vector.push_back(se);
+                    tmp_signed_edges.erase(se);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From c59869a186450240caa1f3aaceb5e4c447905c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 14/19] fix: initialise the weight of a default constructed MPI
 cycle

The weight was copied while uninitialised on every rank but the root.
---
 include/parmcb/sptrees.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index dc8a2b0..d0f2a9f 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -418,7 +418,7 @@ namespace parmcb {
         typedef typename boost::property_traits<WeightMap>::value_type WeightType;
 
         SerializableMinOddCycle() :
-                exists(false) {
+                weight(WeightType()), exists(false) {
         }
 
         SerializableMinOddCycle(std::vector<Edge> edges, WeightType weight, bool exists) :
-- 
2.43.0


From 50ba343c2d29f8f7777e771b5cd9a4e7fb60a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 15/19] fix: SpVecGF2::add checks against the last coordinate,
 not past it

---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From 26b105b47f045c2077925288e044fbde8e58263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 16/19] fix: no signed overflow when adding integer distances

A walk of the signed search may traverse every edge twice, so its length
can exceed the weight type although all path and cycle weights fit.
---
 include/parmcb/detail/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 67711f4..ad97567 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -39,6 +39,8 @@ namespace parmcb {
                     return inf;
                 if (b == inf)
                     return inf;
+                if (b > T() && a > inf - b)
+                    return inf;
                 return a + b;
             }
         };
-- 
2.43.0


From f60251b867f83ea891cc05ebb641865c2ec5be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 17/19] fix: headers compile alone, without TBB or MPI, and
 link from several units

TBB and MPI code is compiled only when enabled, mpi/sptrees.hpp includes
the Boost.MPI declarations it specialises and the stream operator for
signed vertices is inline.
---
 include/parmcb/detail/approx_spanner.hpp        | 2 ++
 include/parmcb/detail/signed_dijkstra.hpp       | 2 +-
 include/parmcb/mpi/parmcb_sva_signed.hpp        | 7 ++++++-
 include/parmcb/mpi/parmcb_sva_trees.hpp         | 7 ++++++-
 include/parmcb/mpi/sptrees.hpp                  | 9 +++++++++
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp | 6 ++++++
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 6 ++++++
 include/parmcb/parmcb_sva_signed_tbb.hpp        | 7 +++++--
 include/parmcb/sptrees.hpp                      | 2 ++
 9 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 51c0eaf..9e3ccb9 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -129,6 +129,7 @@ private:
         return total_weight;
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class CycleOutputIterator, bool is_tbb_enabled = ParallelUsingTBB>
     WeightType construct_cycles_for_non_spanner_edges(CycleOutputIterator out,
             typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -225,6 +226,7 @@ private:
 
         return total_weight;
     }
+#endif
 
     const Graph &_g;
     const WeightMap &_weight_map;
diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 6bf6180..99ef151 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -22,7 +22,7 @@
 
 namespace std {
 
-    std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
+    inline std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
         out << v.first << (v.second ? "+" : "-");
         return out;
     }
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 4a31a00..64e854b 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#if defined(PARMCB_HAVE_MPI) && defined(PARMCB_HAVE_TBB)
+
 #include <cstddef>
 #include <functional>
 #include <iostream>
@@ -27,7 +31,6 @@
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/mpi/sptrees.hpp>
 #include <parmcb/forestindex.hpp>
@@ -303,4 +306,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // defined(PARMCB_HAVE_MPI) && defined(PARMCB_HAVE_TBB)
+
 #endif
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index e3762f8..2188433 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
 #include <boost/graph/graph_traits.hpp>
 #include <boost/property_map/property_map.hpp>
 #include <boost/tuple/detail/tuple_basic.hpp>
@@ -24,7 +28,6 @@
 #include <vector>
 #include <cmath>
 
-#include <parmcb/config.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/detail/fvs.hpp>
@@ -244,4 +247,6 @@ namespace parmcb {
 
 } // namespace mcb
 
+#endif // PARMCB_HAVE_MPI
+
 #endif
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 96e85bf..d1244f1 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
+#include <boost/mpi/datatype.hpp>
+#include <boost/mpi/operations.hpp>
+
 #include <parmcb/sptrees.hpp>
 
 namespace boost {
@@ -23,4 +30,6 @@ namespace boost {
     }
 }
 
+#endif // PARMCB_HAVE_MPI
+
 #endif
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 3500284..a97058e 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_TBB
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed_tbb.hpp>
 
@@ -35,4 +39,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 4be5bc1..093530a 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_TBB
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
@@ -53,4 +57,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 5132ad6..f54edab 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -19,14 +19,15 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <parmcb/config.hpp>
+
 #ifdef PARMCB_HAVE_TBB
+
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 #include <tbb/concurrent_vector.h>
 #include <tbb/task_group.h>
-#endif
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
@@ -285,4 +286,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index d0f2a9f..695f31a 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -624,6 +624,7 @@ namespace parmcb {
             return min;
         }
 
+#ifdef PARMCB_HAVE_TBB
         template<bool is_tbb_enabled = ParallelUsingTBB>
         std::tuple<std::set<Edge>, WeightType, bool> compute_shortest_odd_cycle(const std::set<Edge> &edges,
                 typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -669,6 +670,7 @@ namespace parmcb {
                     },
                     cycle_min);
         }
+#endif
 
         const Graph &g;
         const WeightMap &weight_map;
-- 
2.43.0


From 3444585aefe20ba920acdd6d98f5dd34d6c4231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 18/19] fix: spanning forest does not depend on vertex
 descriptor values

Components were started in the order of an unordered set of descriptors,
which are addresses for list-based graphs, so MPI processes could number
the edges of the same graph differently.
---
 include/parmcb/detail/spanning_forest.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/parmcb/detail/spanning_forest.hpp b/include/parmcb/detail/spanning_forest.hpp
index 56281dd..cbddfb7 100644
--- a/include/parmcb/detail/spanning_forest.hpp
+++ b/include/parmcb/detail/spanning_forest.hpp
@@ -9,6 +9,7 @@
 #include <map>
 #include <queue>
 #include <set>
+#include <unordered_set>
 
 #include <boost/graph/adjacency_list.hpp>
 
@@ -37,10 +38,12 @@ namespace parmcb {
             }
 
             std::size_t c = 0;
-            while (!unreached.empty()) {
-                auto vi = unreached.begin();
-                auto v = *vi;
-                unreached.erase(vi);
+            // in vertex order, the order of the set depends on descriptor values
+            for (boost::tie(ui, uiend) = boost::vertices(g); ui != uiend; ++ui) {
+                auto v = *ui;
+                if (unreached.erase(v) == 0) {
+                    continue;
+                }
                 queue.push(v);
 
                 while (!queue.empty()) {
-- 
2.43.0


From 72a5d663cdc94b1ff473b501ea3ad9e9439a2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 19/19] fix: isometric cycles with inexact floating point
 weights

Rounding makes ties between paths break differently in different trees.
Representations of a cycle were then linked to unrelated or missing
candidates and cycles were dropped that are needed, leaving phases without
an odd cycle.
---
 include/parmcb/detail/cycles.hpp | 93 +++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 8 deletions(-)

diff --git a/include/parmcb/detail/cycles.hpp b/include/parmcb/detail/cycles.hpp
index 8e3e5d3..3edd502 100644
--- a/include/parmcb/detail/cycles.hpp
+++ b/include/parmcb/detail/cycles.hpp
@@ -6,8 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <iostream>
+#include <limits>
 #include <map>
+#include <type_traits>
 #include <parmcb/util.hpp>
 #include <parmcb/sptrees.hpp>
 #include <parmcb/detail/fvs.hpp>
@@ -75,6 +80,42 @@ namespace parmcb {
 
         };
 
+        /*
+         * Whether all path and cycle weights are computed without rounding, i.e. all weights
+         * are multiples of a common power of two and their sum fits in the significand.
+         */
+        template<class Graph, class WeightMap>
+        typename std::enable_if<
+                std::is_floating_point<typename boost::property_traits<WeightMap>::value_type>::value, bool>::type has_exact_sums(
+                const Graph &g, const WeightMap &weight_map) {
+            typedef typename boost::property_traits<WeightMap>::value_type WeightType;
+
+            const int digits = std::numeric_limits<WeightType>::digits;
+            WeightType total = WeightType();
+            int unit_exp = (std::numeric_limits<int>::max)();
+            for (const auto &e : boost::make_iterator_range(boost::edges(g))) {
+                int exp;
+                std::uint64_t m = std::ldexp(std::frexp(boost::get(weight_map, e), &exp), digits);
+                if (m == 0) {
+                    continue;
+                }
+                exp -= digits;
+                for (; m % 2 == 0; m /= 2) {
+                    exp++;
+                }
+                unit_exp = (std::min)(unit_exp, exp);
+                total += boost::get(weight_map, e);
+            }
+            return total == WeightType() || std::ilogb(total) < unit_exp + digits - 1;
+        }
+
+        template<class Graph, class WeightMap>
+        typename std::enable_if<
+                !std::is_floating_point<typename boost::property_traits<WeightMap>::value_type>::value, bool>::type has_exact_sums(
+                const Graph&, const WeightMap&) {
+            return true;
+        }
+
         template<class Graph, class WeightMap>
         struct ISOCyclesBuilder {
 
@@ -150,6 +191,37 @@ namespace parmcb {
                     boost::put(bad_map, newv, false);
                 }
 
+                /*
+                 * If path weights are rounded, ties may be broken differently in different trees. Two candidates
+                 * are then representations of the same cycle only if they consist of the same edges, and a
+                 * cycle is not isometric only if there is a shortcut by more than the possible rounding error.
+                 */
+                const bool exact = has_exact_sums(g, weight_map);
+                const WeightType tolerance = std::numeric_limits<WeightType>::epsilon() * 4 * boost::num_vertices(g);
+
+                auto cycle_edges = [&g, &trees](std::size_t tree, const Edge &e) {
+                    std::vector<Edge> result(1, e);
+                    for (auto w : { boost::source(e, g), boost::target(e, g) }) {
+                        for (auto node = trees[tree].node(w); node->has_pred(); node = trees[tree].node(w)) {
+                            result.push_back(node->pred());
+                            w = boost::opposite(node->pred(), w, g);
+                        }
+                    }
+                    std::sort(result.begin(), result.end());
+                    return result;
+                };
+
+                auto link = [&](vertex_descriptor c, std::size_t other_tree, const Edge &other_e) {
+                    auto it = cycle_to_vertex.find(std::make_pair(other_tree, other_e));
+                    if (it == cycle_to_vertex.end()) {
+                        return;
+                    }
+                    if (exact || cycle_edges(boost::get(tree_map, c), boost::get(edge_map, c))
+                                    == cycle_edges(other_tree, other_e)) {
+                        boost::add_edge(c, it->second, cycles_g);
+                    }
+                };
+
                 vertex_iterator alli, alliend;
                 for (boost::tie(alli, alliend) = boost::vertices(cycles_g); alli != alliend; ++alli) {
 
@@ -171,25 +243,30 @@ namespace parmcb {
 
                     // we are a circuit
                     if (x == u) {
-                        boost::add_edge(*alli, cycle_to_vertex[std::make_pair(trees_index_map[index_map[v]], e)],
-                                cycles_g);
+                        link(*alli, trees_index_map[index_map[v]], e);
                     } else {
                         auto xprime = tree_x.first(u);
                         parmcb::SPTree<Graph, WeightMap> &tree_xprime = trees[trees_index_map[index_map[xprime]]];
                         auto first_xprime_v = tree_xprime.first(v);
 
                         if (x == first_xprime_v) {
-                            boost::add_edge(*alli,
-                                    cycle_to_vertex[std::make_pair(trees_index_map[index_map[xprime]], e)], cycles_g);
+                            link(*alli, trees_index_map[index_map[xprime]], e);
                         } else {
                             parmcb::SPTree<Graph, WeightMap> &tree_v = trees[trees_index_map[index_map[v]]];
                             auto first_v_xprime = tree_v.first(xprime);
                             if (u == first_v_xprime) {
-                                boost::add_edge(*alli,
-                                        cycle_to_vertex[std::make_pair(trees_index_map[index_map[v]],
-                                                tree_x.node(xprime)->pred())], cycles_g);
+                                link(*alli, trees_index_map[index_map[v]], tree_x.node(xprime)->pred());
                             } else {
-                                boost::put(bad_map, *alli, true);
+                                // the path between xprime and v is a shortcut
+                                WeightType through_x = tree_x.node(xprime)->weight() + tree_x.node(v)->weight();
+                                WeightType through_u = tree_x.node(u)->weight() - tree_x.node(xprime)->weight()
+                                        + boost::get(weight_map, e);
+                                WeightType shortcut = tree_xprime.node(v)->weight();
+                                if (exact
+                                        || shortcut + tolerance * (through_x + through_u)
+                                                < (std::min)(through_x, through_u)) {
+                                    boost::put(bad_map, *alli, true);
+                                }
                             }
                         }
                     }
-- 
2.43.0

