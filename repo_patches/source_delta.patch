From 86a0686d25ac7d03ba3be85fa6baa17935bca3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 01/18] fix: reject trees with inconsistent links, cycles or
 unreachable nodes

---
 include/tnco/tree.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..ec78400 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -117,7 +117,7 @@ struct Tree {
                                  std::end(count_parents), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
+                                   return c == (node.is_leaf() ? 0 : 2);
                                  })) {
         return {false, "Tree is not valid."};
       }
@@ -127,12 +127,36 @@ struct Tree {
                                  std::end(count_children), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
+                                   return c == (node.is_root() ? 0 : 1);
                                  })) {
         return {false, "Tree is not valid."};
       }
     }
 
+    // Children must point back to their parent, and all the nodes must be
+    // reachable from the root
+    {
+      size_t n_visited = 0;
+      std::vector<size_t> stack{size() - 1};
+      while (!std::empty(stack)) {
+        const auto pos = stack.back();
+        stack.pop_back();
+        ++n_visited;
+        if (const auto &node = nodes[pos]; !node.is_leaf()) {
+          for (const auto &x : node.children) {
+            if (nodes[x].parent !=
+                static_cast<typename node_type::index_type>(pos)) {
+              return {false, "Tree is not valid."};
+            }
+            stack.push_back(x);
+          }
+        }
+      }
+      if (n_visited != size()) {
+        return {false, "Tree is not valid."};
+      }
+    }
+
     // Everything, OK
     return {true, ""};
   }
-- 
2.43.0


From b1bfe2cc4b088380120c85f1be1428e798a197f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 02/18] fix: ignore negative positions when swapping nodes

---
 include/tnco/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index ec78400..4cf99bd 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -175,7 +175,7 @@ struct Tree {
      *
      *   Swap D <-> C.
      */
-    if (pos_D >= static_cast<long int>(size())) {
+    if (pos_D < 0 || pos_D >= static_cast<long int>(size())) {
       return;
     }
 
-- 
2.43.0


From b0a1a6f83067a91f072cc8b7315428245a9dae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 03/18] fix: never accept a move of zero probability

---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 include/tnco/optimize/infinite_memory/optimizer.hpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..ee28a87 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -198,7 +198,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
         //-------------------------------
 
-        if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+        if (uniform(this->prng) < prob(delta_cost, total_cost)) {
           // Swap
           this->ctree.swap_with_nn(pos_E);
 
@@ -292,7 +292,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           // Try to update ...
           if (const auto delta_cost =
                   new_cost_cache.partial_cost.back() - total_cost;
-              uniform(this->prng) <= prob(delta_cost, total_cost)) {
+              uniform(this->prng) < prob(delta_cost, total_cost)) {
             // Swap cost_cache
             cost_cache = std::move(new_cost_cache);
 
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..9c850aa 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -159,7 +159,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
       //-------------------------------
 
-      if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+      if (uniform(this->prng) < prob(delta_cost, total_cost)) {
         // Swap
         this->ctree.swap_with_nn(pos_E);
 
-- 
2.43.0


From 9959751163004d3710c88c40305e4e8f5545e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 04/18] fix: stop adding slices when no index is left to slice

---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index ee28a87..9129866 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_new_slices < max_number_new_slices && n_pos > 0 &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -277,7 +277,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_new_slices >= max_number_new_slices || n_pos == 0 ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 0b8ee2613b877df9abe09277c36997d7948aeadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 05/18] fix: use the width of the cost model when adding new
 slices

---
 .../tnco/optimize/finite_width/greedy/optimizer.hpp  | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 9129866..17815d1 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -252,16 +252,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
             new_slices.set(pos[n_pos - 1]);
 
             // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            new_sliced_width_B =
+                p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
-- 
2.43.0


From 59a5608db0402c8bca9fbf7604a1e05e04fdcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 06/18] fix: isinf and signbit of fixed floats

---
 include/tnco/fixed_float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..47fb910 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,9 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit", [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From 0dc0170313c403fc2855beb96dbe0f2106ad0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 07/18] fix: comparisons of fixed floats with not-a-number

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 47fb910..b9877fa 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x) != 0;
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return mpfr_equal_p(_x, x._x) == 0;
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x) != 0;
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x) != 0;
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x) != 0;
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x) != 0;
   }
 
   template <typename T>
-- 
2.43.0


From f3938371b787a1971cef64f0fa794728b2c78b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 08/18] fix: compute the cost for uniform dimensions in the
 cost type

---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..774da64 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,8 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    using std::pow;
+    return pow(static_cast<CostType>(dims), inds.count());
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From a055990bbab2a8097840d06bccd8c841600df15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 09/18] fix: equal ordered frozen sets have equal hashes

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From 95f7d49b7cc07967de5f13b8129de14fab830aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 10/18] fix: accept any iterable as path of a contraction tree

---
 tnco/ctree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tnco/ctree.py b/tnco/ctree.py
index 7ddd39d..d1b11d7 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -79,6 +79,7 @@ class ContractionTree(_ContractionTree):
             raise TypeError("Got unexpected keyword arguments.")
 
         # Convert to list
+        path = list(path)
         ts_inds = list(ts_inds)
 
         # If a list of nodes has been provide, use it as 'ctree'
-- 
2.43.0


From d8fc7b45f3a528561d9c1d21582ae556eef5ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 11/18] fix: accept any iterable as path of a contraction

---
 tnco/utils/tn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..e63c8c3 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -909,7 +909,8 @@ def contract(
     if dims is None and arrays is None:
         raise ValueError("Either 'dims' or 'arrays' must be provided.")
 
-    # Get indices
+    # Get path and indices
+    path = list(path)
     ts_inds = list(map(tuple, ts_inds))
 
     # Convert int to dict
-- 
2.43.0


From 44f178e604cd4a108159d64274b5395d50c7d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 12/18] fix: accept any iterable of paths to merge

---
 tnco/utils/tn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index e63c8c3..69827c1 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -334,6 +334,9 @@ def merge_contraction_paths(n_tensors: int,
         >>> merge_contraction_paths(4, paths)
         [(0, 1), (0, 1), (0, 1)]
     """
+    # Convert to list
+    paths = list(paths)
+
     # Initialize merged path and positions
     merged_pos = list(range(n_tensors))
     merged_path = []
-- 
2.43.0


From db53902092305922f4f5661dc832df8749346260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 13/18] fix: keep the tolerance when decomposing further
 hyper-indices

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..00e7f9c 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -139,7 +139,10 @@ def decompose_hyper_inds(
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
-- 
2.43.0


From 84a9533a889408b8b01a0f3a5e810554ceb09b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 14/18] fix: do not drop indices which have not been merged

---
 tnco/utils/tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 00e7f9c..390fde5 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -133,8 +133,11 @@ def decompose_hyper_inds(
     array = ar.do('stack',
                   list(map(lambda x: array[x, x], range(array.shape[0]))))
 
-    # In permutations, all elements in 'array' are the same
-    if array.size and ar.do('allclose', array, array.ravel()[0], atol=atol):
+    # In permutations, all elements in 'array' are the same. Indices which have
+    # not been merged with others cannot be dropped.
+    if array.size and all(map(lambda x: x in _hyper_inds, inds)) and ar.do(
+            'allclose', array,
+            array.ravel()[0], atol=atol):
         return (array.ravel()[0] * ar.do('ones_like', array, shape=()),
                 ()), _hyper_inds
 
-- 
2.43.0


From f35f655c9dea1252fe62e2c6e7c9246fee898e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 15/18] fix: preserve the value of the network when merging
 hyper-indices

---
 tnco/utils/tn.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 69827c1..627ae4d 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -802,7 +802,8 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    arrays = list(arrays)
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
     # New tn
@@ -855,6 +856,39 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Merged indices may appear more than once in a tensor. If so, keep the
+    # diagonal only.
+    for i_, xs_ in enumerate(new_ts_inds):
+        while (x_ := next(mit.duplicates_everseen(xs_), None)) is not None:
+            # Move the repeated axes to the front
+            axes_ = list(mit.locate(xs_, lambda y: y == x_))[:2]
+            axes_.extend(filter(lambda k: k not in axes_[:2], range(len(xs_))))
+            array_ = new_arrays[i_].transpose(axes_)
+
+            # Get diagonal
+            new_arrays[i_] = ar.do(
+                'stack',
+                list(map(lambda k: array_[k, k], range(array_.shape[0]))))
+            xs_ = new_ts_inds[i_] = tuple(map(xs_.__getitem__, axes_[1:]))
+
+    # A merged index may have been removed from all tensors, or from all but
+    # one. Restore it unless it is open.
+    count_ = Counter(mit.flatten(map(frozenset, ts_inds)))
+    new_count_ = Counter(mit.flatten(new_ts_inds))
+    for xs_ in filter(lambda xs: len(xs) > 1, color2inds.values()):
+        x_ = mit.first(xs_)
+        if new_count_[x_] == 0 or (new_count_[x_] == 1 and
+                                   all(map(lambda x: count_[x] > 1, xs_))):
+            for i_, (array_, inds_) in enumerate(zip(arrays, ts_inds)):
+                if x_ not in new_ts_inds[i_] and not xs_.isdisjoint(inds_):
+                    # Get dimension
+                    dim_ = dict(zip(inds_, ar.do('shape', array_)))[mit.first(
+                        filter(lambda x: x in xs_, inds_))]
+
+                    # Add axis
+                    new_arrays[i_] = ar.do('stack', [new_arrays[i_]] * dim_)
+                    new_ts_inds[i_] = (x_, *new_ts_inds[i_])
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From ef782ed50f6cdfcb53564acd5b9eb9b5781d9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 16/18] fix: never use surrogates as symbols

---
 tnco/utils/tn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 627ae4d..112a490 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -266,8 +266,8 @@ def get_symbol(i: int) -> str:
     # Skip Unicode surrogates (0xD800-0xDFFF) 55296 is the start of the
     # surrogate range (0xD800). Add 2048 to skip past the entire surrogate
     # block (2048 chars)
-    elif i >= 55296:
-        return chr(i + 2048)
+    elif i + 140 >= 55296:
+        return chr(i + 140 + 2048)
 
     # Start at 192 (0xC0)
     # 52 + 140 = 192
-- 
2.43.0


From 463bdf5f1afe0aa61113eb68ef5552e14827c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 17/18] fix: only square matrices of a power of two are
 classical operations

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..a0c930e 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -47,7 +47,7 @@ def is_classical_operation(m: Matrix) -> bool:
         ``True`` if ``m`` is a classical operation.
     """
     m = ar.do('asarray', m)
-    if m.ndim != 2 or m.shape[0] != m.shape[1] and int(math.log2(
+    if m.ndim != 2 or m.shape[0] != m.shape[1] or int(math.log2(
             m.shape[0])) != math.log2(m.shape[0]):
         return False
 
-- 
2.43.0


From 7c59bb906ec6199d2fd9e48c123d1823886378ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 18/18] fix: sample from circuits of qiskit instead of loading
 them

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index a0c930e..5808a05 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -402,7 +402,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0

