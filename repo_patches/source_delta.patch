From 110f585b2db842abb7d7b74ece887cec2dc65d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:56 +0000
Subject: [PATCH 01/53] verification hook: let a harness observe and replace
 random draws (guarded by MINORMINER_VERIFICATION)

---
 include/fastrng.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fastrng.hpp b/include/fastrng.hpp
index 02401de..04f90d6 100644
--- a/include/fastrng.hpp
+++ b/include/fastrng.hpp
@@ -13,6 +13,14 @@
 //    limitations under the License.
 
 #pragma once
+
+#ifdef MINORMINER_VERIFICATION
+// Verification builds let the harness observe (and replace) every value that is
+// drawn from the generator.  Ordinary builds never define this macro.
+#include <cstdint>
+extern "C" uint64_t minorminer_verification_draw(uint64_t value);
+#endif
+
 namespace fastrng{
 #include <algorithm>
 
@@ -68,6 +76,9 @@ class fastrng {
         S0 = y;
         x ^= x << 23;                        // a
         S1 = x ^ y ^ (x >> 17) ^ (y >> 26);  // b, c
+#ifdef MINORMINER_VERIFICATION
+        return minorminer_verification_draw(S1 + y);
+#endif
         return S1 + y;
     }
 
-- 
2.43.0


From bc57135e6f629451cb342de8675fdf5518e451e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 02/53] fix: initial chains no longer touch fixed variables or
 reserved qubits, and empty ones are ignored

---
 include/find_embedding/embedding.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..d120347 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,13 +86,20 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
+        // initial chains are hints: they don't apply to fixed variables, and they can't claim reserved qubits
+        for (auto &vC : initial_chains) {
+            if (ep.fixed(vC.first)) continue;
+            vector<int> hint;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q)) hint.push_back(q);
+            set_chain(vC.first, hint);
+        }
 
         for (auto &vC : initial_chains) {
             int v = vC.first;
             auto &c = var_embedding[v];
-            int root = vC.second[0];
+            if (ep.fixed(v) || c.size() == 0) continue;
+            int root = *std::find_if(vC.second.begin(), vC.second.end(), [&c](int q) { return c.count(q) > 0; });
             c.set_link(v, root);
             size_t hits = 0;
             stack.push_back(root);
-- 
2.43.0


From 223067f51c77e96a53652b0f07963edad7ad21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 03/53] fix: a qubit repeated in an input chain is counted once

---
 include/find_embedding/chain.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..669a3f6 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -91,9 +91,8 @@ class chain {
     chain &operator=(const vector<int> &c) {
         clear();
         for (auto &q : c) {
-            data.emplace(q, pair<int, int>(q, 1));
             minorminer_assert(0 <= q && q < static_cast<int>(qubit_weight.size()));
-            qubit_weight[q]++;
+            if (data.emplace(q, pair<int, int>(q, 1)).second) qubit_weight[q]++;
         }
         DIAGNOSE_CHAIN();
         return *this;
-- 
2.43.0


From 2877e5bf350eb28be618bea88038bfe9bddf12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 04/53] fix: searches that start from a fixed chain respect
 max_fill

---
 include/find_embedding/pathfinder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b2cc39d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -467,9 +467,13 @@ class pathfinder_base : public pathfinder_public_interface {
                             visited[p] = 1;
                         }
                     if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
                         visited[p] = 1;
+                        if (emb.weight(p) >= ep.weight_bound) {
+                            distances[v][p] = max_distance;
+                        } else {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 61148d185cb0b28293ca3ee22d134336ec4f94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 05/53] fix: fixed chains that share a qubit no longer index
 past the qubit permutations

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b2cc39d..ea20c01 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + max(num_fixed, num_reserved); v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 9c06506b08e548bd78c6ed1b272d71629e88c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 06/53] fix: quickpass with an explicit variable order
 translates the variables when some are fixed

---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From fdd82581625bd562305dc2ce53d9a3a9e066e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 07/53] fix: every C++ exception of the embedder reaches Python
 as an exception instead of aborting

---
 minorminer/_minorminer_h.pxi | 4 ++--
 minorminer/src/pyutil.hpp    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..ebdd448 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
         void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..a93bc78 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,8 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
     }
 }
 
-- 
2.43.0


From 1d8fce7f9368dfab91c615d857a734635220a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 08/53] fix: find_embedding returns a tuple for an empty source
 graph when return_overlap is set

---
 minorminer/_minorminer.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..973ecc9 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -287,7 +287,8 @@ def find_embedding(S, T, **params):
     try:
         _in = _input_parser(S, T, params)
     except EmptySourceGraphError:
-        return {}
+        # the empty mapping is a valid embedding of the empty graph
+        return ({}, 1) if params.get("return_overlap") else {}
 
     cdef vector[int] chain
     cdef vector[vector[int]] chains
-- 
2.43.0


From e4d8763420bbcda80171be22c5daf714612d555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 09/53] fix: a timeout or interactive interrupt ends the whole
 search, not only the current trial

---
 include/find_embedding/pathfinder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index ea20c01..511ac78 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -621,6 +621,7 @@ class pathfinder_base : public pathfinder_public_interface {
         check_improvement(currEmbedding);
         ep.improved = 1;
         currEmbedding = bestEmbedding;
+        bool stopped = false;
         for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
             ep.major_info("embedding trial %d\n", params.tries - trial_patience);
@@ -640,7 +641,8 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
                 switch (r) {
                     case -2:
-                        improvement_patience = 0;
+                        stopped = true;
+                        improvement_patience = trial_patience = 0;
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;  // fallthrough
@@ -661,6 +663,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 int r = initialization_pass(currEmbedding);
                 switch (r) {
                     case -2:
+                        stopped = true;
                         trial_patience = 0;
                         break;
                     case -1:
@@ -675,7 +678,7 @@ class pathfinder_base : public pathfinder_public_interface {
             }
         }
 
-        if (ep.embedded && params.chainlength_patience) {
+        if (ep.embedded && params.chainlength_patience && !stopped) {
             ep.major_info("reducing chain lengths\n");
             int improvement_patience = params.chainlength_patience;
             ep.weight_bound = 1;
-- 
2.43.0


From 4bd5749fb42499c441ab5222a663aedb995b0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 10/53] fix: a keyboard interrupt that arrives while a progress
 message is logged is no longer lost

---
 minorminer/_minorminer.pyx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 973ecc9..c9bbeca 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -84,6 +84,7 @@ This implementation adds several useful features:
 
 include "_minorminer_h.pxi"
 import os as _os, logging as _logging
+from cpython.exc cimport PyErr_SetInterrupt
 
 def find_embedding(S, T, **params):
     """Heuristically attempt to find a minor-embedding of source graph S 
@@ -310,15 +311,18 @@ def find_embedding(S, T, **params):
 class EmptySourceGraphError(RuntimeError):
     pass
 
-# Even though this is marked as noexcept, exceptions raised by the logger will
-# still eventually be caught.
+# A keyboard interrupt that arrives inside the logger cannot propagate through the C++ code: it is re-armed,
+# so that the next stop check (or the return to Python) reports it.
 cdef void wrap_logger(void *logger, int loglevel, const string &msg) noexcept:
-    if loglevel == 0:
-        (<object>logger).error(msg.rstrip())
-    elif 1 <= loglevel < 4:
-        (<object>logger).info(msg.rstrip())
-    else:
-        (<object>logger).debug(msg.rstrip())
+    try:
+        if loglevel == 0:
+            (<object>logger).error(msg.rstrip())
+        elif 1 <= loglevel < 4:
+            (<object>logger).info(msg.rstrip())
+        else:
+            (<object>logger).debug(msg.rstrip())
+    except KeyboardInterrupt:
+        PyErr_SetInterrupt()
 
 cdef class _input_parser:
     cdef input_graph Sg, Tg
-- 
2.43.0


From 06f02542016ced144ed7af6c62ec585f77a97f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 11/53] fix: quickpass with local_search on a partial embedding
 no longer dereferences missing links

---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 511ac78..6a080f3 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -559,8 +559,9 @@ class pathfinder_base : public pathfinder_public_interface {
                 lastsize = bestEmbedding.chainsize(u);
             }
 
-            bool ls = local_search;
-            if (ls && lastsize) {
+            // the local search improves a chain that is linked to all of its neighbors; it cannot place a new one
+            bool ls = local_search && lastsize && bestEmbedding.linked(u);
+            if (ls) {
                 for (auto &q : bestEmbedding.get_chain(u)) {
                     if (bestEmbedding.weight(q) > 1) {
                         ls = false;
-- 
2.43.0


From 54b5844da28cc6c52bf83f4134cc65c70e2380c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 12/53] fix: a quickpass call that fails no longer counts as
 the first one, which clears the state

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index c9bbeca..abf5bb2 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -538,7 +538,6 @@ cdef class miner:
 
         if not self.quickpassed:
             clear_first = True
-            self.quickpassed = True
 
         if varorder is not None:
             for v in varorder:
@@ -549,6 +548,7 @@ cdef class miner:
             self.pf.quickPass(neworder, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
         else:
             self.pf.quickPass(strategy, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
+        self.quickpassed = True
 
         rchain = {}
         for v in range(self.pf.num_vars()-self._in.pincount):
-- 
2.43.0


From a0564428556fe813b422cd368d1faf3b68110dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 13/53] fix: ignore hint chains given as iterables that turn
 out to be empty

---
 minorminer/_minorminer.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index abf5bb2..d8b3e60 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -697,7 +697,9 @@ cdef int _get_chainmap(C, chainmap &CMap, SL, TL, parameter) except -1:
                     else:
                         raise RuntimeError, "%s uses target node labels that weren't referred to by any edges"%parameter
                 if a in SL:
-                    CMap.insert(pair[int,vector[int]](SL[a], chain))
+                    # an iterable can be truthy and still yield nothing; empty entries are ignored
+                    if chain.size():
+                        CMap.insert(pair[int,vector[int]](SL[a], chain))
                 else:
                     raise RuntimeError, "%s uses source node labels that weren't referred to by any edges"%parameter
 
-- 
2.43.0


From c4746855a7f7b4ca7647d69b295fa85ff4168b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:47 +0000
Subject: [PATCH 14/53] fix: check for timeouts and interrupts also after an
 improvement pass that fails

---
 include/find_embedding/pathfinder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 6a080f3..d20f59c 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -241,7 +241,7 @@ class pathfinder_base : public pathfinder_public_interface {
         bool improved = false;
         for (auto &u : ep.var_order(VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
             if (ep.embedded) break;
@@ -276,7 +276,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 emb.steal_all(u);
                 emb.tear_out(u);
                 if (!find_chain(emb, u, 0)) {
-                    return -1;
+                    return check_stops(-1);
                 }
             }
             improved |= check_improvement(emb);
@@ -295,7 +295,7 @@ class pathfinder_base : public pathfinder_public_interface {
         std::fill(qubit_permutations.begin() + 1, qubit_permutations.end(), qubit_permutations[0]);
         for (auto &u : ep.var_order(ep.improved ? VARORDER_KEEP : VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
         }
-- 
2.43.0


From 296d335f01a47cb33966e48f89cbba31581d0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 15/53] fix: advance the masks inside the loop of
 cell_cache::inflate, which never ended

---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From 25c2197276593d3d9f0e10193e58e7fa9cb01c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 16/53] fix: never build a clique_cache of width 1, which ended
 the process with an uncaught exception

---
 include/busclique/find_clique.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/busclique/find_clique.hpp b/include/busclique/find_clique.hpp
index 7ba044d..132791f 100644
--- a/include/busclique/find_clique.hpp
+++ b/include/busclique/find_clique.hpp
@@ -75,7 +75,8 @@ bool find_clique_nice(const cell_cache<chimera_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<chimera_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    //the single-cell cliques (width 1) are covered by find_clique_short, and clique_cache needs a width of at least 2
+    size_t minw = max(size_t(2), (size + shore - 1)/shore);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     maxw = min(max_length - 1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -104,7 +105,8 @@ bool find_clique_nice(const cell_cache<zephyr_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<zephyr_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    //the single-cell cliques (width 1) are covered by find_clique_short, and clique_cache needs a width of at least 2
+    size_t minw = max(size_t(2), (size + shore - 1)/shore);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     if (max_length < numeric_limits<size_t>::max()) maxw = min(2*max_length+1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -128,7 +130,8 @@ bool find_clique_nice(const cell_cache<pegasus_spec> &cells,
                       size_t &,
                       size_t &max_length) {
     bundle_cache<pegasus_spec> bundles(cells);
-    size_t minw = (size + 1)/2;
+    //clique_cache needs a width of at least 2
+    size_t minw = max(size_t(2), (size + 1)/2);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
 
     for(size_t w = minw; w <= maxw; w++) {
-- 
2.43.0


From a855bdfc6a22620fda5f645ad80230770498ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 17/53] fix: use the tile parameter when translating zephyr
 coordinates

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..fca7224 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -828,7 +828,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From 567b1c2b69a0d1b34f199427d32dd295a4fd3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 18/53] fix: largest_clique_by_chainlength considers every
 embedding with shorter chains

---
 minorminer/busclique.pyx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fca7224..609fd2f 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -544,13 +544,16 @@ class busgraph_cache:
 
         """
         self._ensure_clique_cache()
-        embs = self._cliques['raw']
-        length = self._cliques['length'] or [0]
-
-        if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
-        else:
+        raw = self._cliques['raw']
+        if chainlength <= 0:
             return {}
+        # longer chains don't always make a larger clique, so look at every
+        # embedding whose chains are short enough
+        found = [raw[key] for length, key in self._cliques['length'].items()
+                 if length <= chainlength]
+        found.extend(raw[key][:size] for size, key in self._cliques['size'].items()
+                     if size and len(raw[key][size-1]) <= chainlength)
+        return self._graph.relabel(dict(enumerate(max(found, key=len, default=()))))
 
     def find_clique_embedding(self, nn):
         """Returns a clique embedding, minimizing the maximum chainlength given
-- 
2.43.0


From 65a6726b26b2a5d976ca4baec796c852c56d11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 19/53] fix: cached cliques and bicliques are kept per graph,
 odd couplers included

---
 minorminer/busclique.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 609fd2f..0189064 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -460,7 +460,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.identifier
+        identifier = self._graph.identifier + self._graph.graph_digest
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -776,6 +776,14 @@ ctypedef fused topo_cache_t:
     topo_cache[pegasus_spec]
     topo_cache[chimera_spec]
 
+cdef bytes _graph_digest(nodes_t &nodes, edges_t &edges):
+    """
+    A digest of the entire graph.  The topology identifier only covers what the
+    bus-structured algorithms look at, but caches can hold embeddings which use
+    any coupler of the graph, and must not be shared with graphs lacking those.
+    """
+    return sha256(repr((sorted(nodes), sorted((min(e), max(e)) for e in edges))).encode('utf8')).digest()
+
 cdef _serialize(topo_cache_t *topo, str family):
     cdef size_t nchars = topo.serialize(serialize_size_tag(), NULL)
     cdef char *tmp0 = <char *>PyMem_Malloc(nchars)
@@ -811,6 +819,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object graph_digest
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single zephyr graph, and dispatches
@@ -851,6 +860,7 @@ cdef class _zephyr_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
+            self.graph_digest = _graph_digest(self.nodes, edges)
 
         del zep
 
@@ -922,6 +932,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object graph_digest
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single pegasus graph, and dispatches
@@ -964,6 +975,7 @@ cdef class _pegasus_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
+            self.graph_digest = _graph_digest(self.nodes, edges)
 
         del peg
 
@@ -1045,6 +1057,7 @@ cdef class _chimera_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object graph_digest
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
         cols = g.graph['columns']
@@ -1081,6 +1094,7 @@ cdef class _chimera_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
+            self.graph_digest = _graph_digest(self.nodes, edges)
 
         del chim
 
-- 
2.43.0


From 453f14d32e32ee9550283948bde8ef990479efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 20/53] fix: keep the chains of cached cliques sorted by
 length, as their users expect

---
 minorminer/busclique.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 0189064..cd94c5b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -695,7 +695,8 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
     cdef list raw = []
     for length, emb in enumerate(embs):
         by_length[length] = length
-        raw.append(tuple(map(tuple, emb)))
+        # sort the chains, so that the first `j` of them are the shortest
+        raw.append(tuple(sorted(map(tuple, emb), key=len)))
         maxsize = max(emb.size(), maxsize)
         for i in range(maxsize, -1, -1):
             if by_size.setdefault(i, length) != length:
-- 
2.43.0


From 180e4e523684437dcea422ad080ecd5ad2ca6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 21/53] fix: graphs without bicliques get empty biclique
 embeddings instead of a ValueError

---
 minorminer/busclique.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index cd94c5b..6149dc7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -600,6 +600,8 @@ class busgraph_cache:
         self._ensure_biclique_cache()
         biggest = self._bicliques['max_side']
         embs = self._bicliques['raw']
+        if not embs:
+            return {}
         s0, s1 = key = max(embs, key=lambda x: min(x))
         raw_emb = embs[key]
         raw_emb0 = sorted(raw_emb[:s0], key=len)
@@ -754,7 +756,7 @@ cdef dict _make_biclique_cache(vector[pair[pair[size_t, size_t],
         if not _keep_biclique_key(realkey, key, chainlength):
             by_size[s0][s1] = key
 
-    max_side = {None: max(by_size)}
+    max_side = {None: max(by_size, default=0)}
     for key, val in by_size.items():
         max_side[key] = max(val)
     return {'raw': raw, 'size': by_size, 'max_side': max_side}
-- 
2.43.0


From 32345383e5d07e19bcdca8e73e30f63141d03a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 22/53] fix: find every biclique that is large enough on both
 sides, in either order, and those with an empty side

---
 minorminer/busclique.pyx | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 6149dc7..ff26c12 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -644,18 +644,19 @@ class busgraph_cache:
         m, M = _num_nodes(mm, offset = n)
         if(m < n):
             n, N, m, M = m, M, n, N
-        if m == 0:
-            emb = self._graph.independent_set(n)
+        if n == 0:
+            emb = self._graph.independent_set(m)
             if emb is None:
                 return {}
-            return dict(zip(N, emb))
+            return self._graph.relabel(dict(zip(M, emb)))
+        # note that n <= m, and that the first key of by_size is the larger side
         nmax = biggest[None]
-        for i in range(n, nmax + 1):
+        for i in range(m, nmax + 1):
             mmax = biggest.get(i, 0)
-            if mmax < m:
+            if mmax < n:
                 continue
             row = by_size.get(i, {0:None})
-            for j in range(m, mmax + 1):
+            for j in range(n, mmax + 1):
                 key = row.get(j)
                 if key is None:
                     continue
@@ -663,7 +664,7 @@ class busgraph_cache:
                 s0, s1 = key
                 emb0 = emb[:s0]
                 emb1 = emb[s0:]
-                if s0 <= n and s1 <= m:
+                if s0 <= s1:
                     emb = dict(zip(N + M, emb0[:n] + emb1))
                 else:
                     emb = dict(zip(N + M, emb1[:n] + emb0))
@@ -896,8 +897,8 @@ cdef class _zephyr_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [[self.nodes[i]] for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1011,8 +1012,8 @@ cdef class _pegasus_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [[self.nodes[i]] for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1131,8 +1132,8 @@ cdef class _chimera_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [[self.nodes[i]] for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
-- 
2.43.0


From 03de064b38f93835edaa1c6e4334edb4249d6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 23/53] fix: best_bicliques keeps the biclique with the
 shortest chains, not the last one

---
 include/busclique/find_biclique.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/busclique/find_biclique.hpp b/include/busclique/find_biclique.hpp
index 93de37a..a49ff47 100644
--- a/include/busclique/find_biclique.hpp
+++ b/include/busclique/find_biclique.hpp
@@ -58,8 +58,10 @@ void best_bicliques(topo_cache<topo_spec> &topology,
             size_t s1 = std::get<1>(z);
             size_t cl = std::get<2>(z);
             auto w = chainlength.find(std::make_pair(s0, s1));
-            if(w == chainlength.end() || (*w).second > cl)
+            if(w == chainlength.end() || (*w).second > cl) {
+                chainlength[std::make_pair(s0, s1)] = cl;
                 emb_cache[std::make_pair(s0, s1)] = std::get<3>(z);
+            }
         }
     } while(topology.next());
     for(auto &z: emb_cache)
-- 
2.43.0


From 9cc31e0a4f0a7aca18a37ff810a97fe1ea6383f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:33 +0000
Subject: [PATCH 24/53] fix: get_clique_cache exports the largest clique also
 when sparse is False

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index ff26c12..dd2aeaf 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -256,7 +256,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size, default=-1) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From 77393f6c32cea108f58942b2d5c4078192ec5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:33 +0000
Subject: [PATCH 25/53] fix: clique caches of graphs with coordinate labels can
 be imported again

---
 minorminer/busclique.pyx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index dd2aeaf..b9257dd 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -286,7 +286,8 @@ class busgraph_cache:
         empty = True
         for size, emb in cache:
             empty = False
-            self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
+            # the chains of a cache object are already integer-labeled
+            self._store_clique_embedding(sorted(emb, key=len))
 
         if empty:
             self._ensure_clique_cache(blank=True)
@@ -331,15 +332,7 @@ class busgraph_cache:
         if direct:
             if quality_function is not None:
                 raise ValueError("quality_function is ignored for direct insertion")
-            self._ensure_clique_cache(blank=True)
-            raw = self._cliques['raw']
-            key = len(raw)
-            raw.append(emb)
-            by_length = self._cliques['length']
-            self._cliques['size'][len(emb)] = key
-            length = len(emb[-1]) if emb else 0
-            if length not in by_length or len(raw[by_length[length]]) < len(emb):
-                by_length[length] = key
+            self._store_clique_embedding(emb)
             if write_to_disk:
                 self._fetch_cache('clique', lambda: self._cliques, force_write=True)
         else:
@@ -348,6 +341,19 @@ class busgraph_cache:
             cache = _make_clique_cache(emb_list)
             self.merge_clique_cache(cache, quality_function, write_to_disk)
 
+    def _store_clique_embedding(self, emb):
+        """Stores a list of integer-labeled chains, sorted by length, in the
+        in-memory cache, replacing the current clique of that size."""
+        self._ensure_clique_cache(blank=True)
+        raw = self._cliques['raw']
+        key = len(raw)
+        raw.append(emb)
+        by_length = self._cliques['length']
+        self._cliques['size'][len(emb)] = key
+        length = len(emb[-1]) if emb else 0
+        if length not in by_length or len(raw[by_length[length]]) < len(emb):
+            by_length[length] = key
+
     def merge_clique_cache(self, cache, quality_function=None, write_to_disk=True):
         """Merges the clique cache of another ``busgraph_cache`` object
 
-- 
2.43.0


From f9c501b59cec75a561344ccdd97956b5eaa3e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 26/53] fix: mine_clique_embeddings works for chimera graphs
 again

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index b9257dd..34a2340 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1328,9 +1328,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From b1c85b8ff5f52cc66bc11591a31a3109b5a47729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 27/53] fix: mine_clique_embeddings augments the cache on disk
 instead of replacing it

---
 minorminer/busclique.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 34a2340..2cdff67 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1307,6 +1307,8 @@ def mine_clique_embeddings(
     import logging
     logger = logging.getLogger(__name__)
     bgc = busgraph_cache(g)
+    # start from the existing cache, so as to augment and not to replace it
+    bgc._ensure_clique_cache()
     for i in range(num_seeds):
         logger.info("polynomial embedder run %d of %d", i+1, num_seeds)
         seed = random.randint(0, 2**32-1)
-- 
2.43.0


From a9cf43352265ef6d33a791531bb2cccd37c8d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 28/53] fix: replace the busclique cache files before releasing
 the cache's locks

Two processes or threads using one cache directory could write, and rename,
the same temporary file, and raise FileNotFoundError or lose an update.
---
 minorminer/busclique.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 2cdff67..e80f019 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -510,8 +510,9 @@ class busgraph_cache:
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, before
+                #another thread or process can reuse the temporary filenames
+                file_context.close()
         return cache
 
     def largest_clique(self):
-- 
2.43.0


From e570f239e0460b48dbbe7622f9323f07a9183c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:23 +0000
Subject: [PATCH 29/53] fix: let several processes create the busclique cache
 directory at once

homebase checks that the directory is missing and then creates it, which
raises FileExistsError if another process or thread creates it in between.
---
 minorminer/busclique.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index e80f019..79aa76d 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -203,7 +203,10 @@ class busgraph_cache:
         Returns:
             str
         """
-        return homebase.user_data_dir('busclique', 'dwave', version)
+        rootdir = homebase.user_data_dir('busclique', 'dwave', version, create=False)
+        # homebase fails if another process creates the directory meanwhile
+        pathlib.Path(rootdir).mkdir(parents=True, exist_ok=True)
+        return rootdir
 
     @staticmethod
     def clear_all_caches():
-- 
2.43.0


From 2c33fd2c3ed0a918b12a0171c94bb1ac0deda058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 30/53] fix: an eviction interrupted between removing a file
 and updating .lru no longer breaks the cache

Every later use of the full cache raised FileNotFoundError until the
directory was removed by hand.
---
 minorminer/busclique.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 79aa76d..fcd4e6a 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -509,7 +509,11 @@ class busgraph_cache:
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
                     oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    try:
+                        os.remove(os.path.join(basedir, oldkey))
+                    except FileNotFoundError:
+                        #it was removed before the .lru file could be updated
+                        pass
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-- 
2.43.0


From 0c7c908f459c40d5b42c9679fcef2453641716fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:49 +0000
Subject: [PATCH 31/53] fix: lattice_size_lower_bound no longer applies
 subgraph conditions to minor embeddings, or loops forever

Degree and coloring limits of single lattice nodes were applied to chains,
an empty source raised ValueError, and a source of degree above that of
Chimera (but at most 2+2t) was tried on larger and larger lattices forever.
---
 minorminer/utils/feasibility.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1db8d51..44c02fe 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -168,16 +168,18 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = 4
-        max_degrees = {"chimera": 2 + 2 * t, "pegasus": 15, "zephyr": 4 + 4 * t}
-        max_source_degree = max(d for _, d in S.degree)
+        if one_to_one:
+            # chains can have more neighbors than any one node
+            max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
+            max_source_degree = max((d for _, d in S.degree), default=0)
 
-        if max_source_degree > max_degrees[topology]:
-            return None
+            if max_source_degree > max_degrees.get(topology, max_source_degree):
+                return None
 
     N = S.number_of_nodes()
     if topology == "chimera":
-        # Two colorability is necessary, and cheap to check
-        if any(
+        # Two colorability is necessary without chains, and cheap to check
+        if one_to_one and any(
             c > 2
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
-- 
2.43.0


From 9068e0dcc32e711a74b6760b404a9a91cbae0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 32/53] fix: rpack.pack no longer ignores a max_width or
 max_height of zero

---
 minorminer/_extern/rpack/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/_extern/rpack/__init__.py b/minorminer/_extern/rpack/__init__.py
index c72d689..7d8d914 100644
--- a/minorminer/_extern/rpack/__init__.py
+++ b/minorminer/_extern/rpack/__init__.py
@@ -241,4 +241,5 @@ def pack(sizes: Iterable[Tuple[int, int]],
         raise TypeError("max_height must be an integer")
     if not isinstance(sizes, list):
         sizes = list(sizes)
-    return _pack(sizes, max_width or -1, max_height or -1)
+    return _pack(sizes, -1 if max_width is None else max_width,
+                 -1 if max_height is None else max_height)
-- 
2.43.0


From ebd85aeb7ccda622206374e69dc4511881035ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 33/53] fix: scaling a layout whose points coincide no longer
 makes its coordinates NaN

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index dcbf457..a7f4953 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -660,6 +660,10 @@ def _scale_layout(layout_array, new_scale, old_scale=None, center=None):
     if old_scale is None:
         old_scale = np.max(np.abs(L))
 
+    # Points that coincide can't be scaled
+    if old_scale == 0:
+        return layout_array
+
     # Scale the thing
     scaled_L = (new_scale/old_scale) * L
 
-- 
2.43.0


From dddc88973238b862ae7728a65ef46b0538dc04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 34/53] fix: a layout of an empty graph accepts a center

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index a7f4953..68b84c1 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -500,7 +500,7 @@ class Layout(abc.MutableMapping):
         # Cast it as a numpy array incase it's not.
         value = np.array(value)
 
-        if value.size != 0:
+        if value.size != 0 and self.layout_array.size != 0:
             self.layout_array = _center_layout(
                 self.layout_array, value, self._center)
 
-- 
2.43.0


From 309eef798071569fc135bf6f87be3dfb12363b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 35/53] fix: assigning a layout value at a vertex updates
 layout_array and the layout specs

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 68b84c1..5c269c2 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -528,6 +528,10 @@ class Layout(abc.MutableMapping):
         """Set the layout value at the key vertex."""
         self.layout[key] = value
 
+        # Keep layout_array and the layout specs in lockstep
+        if key in self.G and all(v in self.layout for v in self.G):
+            self.layout = self.layout
+
     def __delitem__(self, key):
         """Delete the layout value at the key vertex."""
         del self.layout[key]
-- 
2.43.0


From 8f500c4759059d448e441e07202b1f81513cab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 36/53] fix: p_norm pairs every point with the distances of its
 own vertex, and uses G_distances

---
 minorminer/layout/layout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 5c269c2..b321b7c 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -159,13 +159,16 @@ def _graph_distance_matrix(G,
     """
     if all_pairs_shortest_path_length is None:
         all_pairs_shortest_path_length = nx.all_pairs_shortest_path_length(G)
+    distances = dict(all_pairs_shortest_path_length)
 
     if disconnected_distance is None:
         disconnected_distance = len(G)
         
+    # The order of the vertices in Layout.layout_array
+    vertices = sorted(G)
     return np.array([
-        [V.get(v, disconnected_distance) for v in G]
-        for _, V in nx.all_pairs_shortest_path_length(G)
+        [distances[u].get(v, disconnected_distance) for v in vertices]
+        for u in vertices
         ])
 
 
-- 
2.43.0


From 39c2197044f237e45b4b686ad5fce8f74581de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 37/53] fix: layouts of graphs whose vertices can't be sorted

---
 minorminer/layout/layout.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index b321b7c..3fb087c 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -165,7 +165,7 @@ def _graph_distance_matrix(G,
         disconnected_distance = len(G)
         
     # The order of the vertices in Layout.layout_array
-    vertices = sorted(G)
+    vertices = _vertex_order(G)
     return np.array([
         [distances[u].get(v, disconnected_distance) for v in vertices]
         for u in vertices
@@ -465,7 +465,7 @@ class Layout(abc.MutableMapping):
         self._layout = value
 
         # Iterating through G determines the order of layout_array
-        self._layout_array = np.array([value[v] for v in sorted(self.G)])
+        self._layout_array = np.array([value[v] for v in _vertex_order(self.G)])
 
         self._set_layout_specs()
 
@@ -480,7 +480,7 @@ class Layout(abc.MutableMapping):
         self._layout_array = value
 
         # Update the layout
-        self.layout = {v: p for v, p in zip(sorted(self.G), value)}
+        self.layout = {v: p for v, p in zip(_vertex_order(self.G), value)}
 
     @property
     def dim(self):
@@ -794,6 +794,13 @@ def _parse_graph(G):
         return G
     return nx.Graph(G)
 
+def _vertex_order(G):
+    """The order of the vertices of `G` in arrays: sorted, if they can be compared."""
+    try:
+        return sorted(G)
+    except TypeError:
+        return list(G)
+
 def _get_center(layout_array):
     """Compute the center of `layout_array`"""
     mins = np.min(layout_array, axis=0)
-- 
2.43.0


From 93a82c0ebead456c83b3be59bd6c0e50ea7cd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 38/53] fix: a layout whose dimension is given by its center
 isn't packed as if it were in the plane

---
 minorminer/layout/layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 3fb087c..6df1c43 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -745,7 +745,10 @@ def _pack_components(G, layout, **kwargs):
     implementation, so we pass the graph directly into `layout` and bypass
     the packing procedure
     """
-    if kwargs.get('dim', 2) != 2:
+    dim = kwargs.get('dim')
+    if dim is None and kwargs.get('center') is not None:
+        dim = len(kwargs['center'])
+    if dim is not None and dim != 2:
         return layout(G, **kwargs)
 
     layouts = []
-- 
2.43.0


From f5b680c8f18e0a4a5acca6650ce6c9b744e8d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 39/53] fix: p_norm with p=inf works in every dimension, not
 only in the plane

---
 minorminer/layout/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 6df1c43..146ec06 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -219,14 +219,15 @@ def _p_norm_objective(layout_vector, G_distances, dim, p):
         elif p == float("inf"):
             # Note: It may not be faster to do this outside of einsum
             abs_diff = np.abs(diff)
-            x_bigger = abs_diff[:, :, 0] > abs_diff[:, :, 1]
+            # the coordinate that determines the distance
+            largest = np.arange(dim) == np.argmax(abs_diff, axis=-1)[:, :, np.newaxis]
 
             grad = np.einsum(
                 'ijk,ij,ijk,ijk->ik',
                 2*diff,
                 dist - G_distances,
                 np.nan_to_num(1/abs_diff),
-                np.dstack((x_bigger, np.logical_not(x_bigger)))
+                largest
             )
         else:
             grad = np.einsum(
-- 
2.43.0


From 3a5a2b7395df617d6fd552d18bb0fff950cc9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 40/53] fix: closest no longer considers subsets smaller than
 the lower bound of subset_size

---
 minorminer/layout/placement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 9cdf3ad..fcae00a 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -387,6 +387,8 @@ def _get_connected_subgraphs(G, k, single_set=False):
             # For each vertex in the set, iterate over its neighbors.
             for v in X:
                 for u in G.neighbors(v):
+                    if u in X:
+                        continue
                     connected_subgraphs[i + 1].add(X.union({u}))
 
     return connected_subgraphs
-- 
2.43.0


From fb27407aebae82e45acbc0e091c0293f335b2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 41/53] fix: closest accepts a num_neighbors greater than the
 number of subsets of T

---
 minorminer/layout/placement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index fcae00a..b7e7742 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -336,6 +336,9 @@ def closest(S_layout, T_layout, subset_size=(1, 1), num_neighbors=1, **kwargs):
     layout_points = [tuple(p) for p in T_subgraph_layout.values()]
     overlap_counter = Counter()
 
+    # The KDTree pads its answers if there are fewer points than neighbors
+    num_neighbors = min(num_neighbors, len(layout_points))
+
     try:
         tree = spatial.KDTree(layout_points)  # This fails for the empty graph
     except ValueError:
-- 
2.43.0


From c1457e4ad043d0070a73a0e87bd5c0d738f4d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 42/53] fix: graph_layout of a row, a column or a single vertex
 no longer contains NaN

---
 minorminer/layout/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 146ec06..e47f22d 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -321,7 +321,8 @@ def graph_layout(G, dim=None, center=None, scale=None, **kwargs):
     x_max, y_max = np.max(dnx_layout_arr, axis=0)
     if x_min!=0 or x_max!=dnx_scale or y_min!=-dnx_scale or y_max!=0: 
         dnx_layout_arr = dnx_layout_arr - np.array([x_min, y_max]) #make (0, 0) top left corner
-        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/(x_max-x_min), (dnx_scale)/(y_max-y_min)]) #make (dnx_scale, -dnx_scale) bottom right corner
+        # (a direction in which the vertices don't extend isn't scaled)
+        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/((x_max-x_min) or dnx_scale), (dnx_scale)/((y_max-y_min) or dnx_scale)]) #make (dnx_scale, -dnx_scale) bottom right corner
         paddim = dim - 2
         zeros = np.zeros((dnx_layout_arr.shape[0], paddim))
         dnx_layout_arr = np.hstack((dnx_layout_arr, zeros)) + dnx_center
-- 
2.43.0


From 4c849ac39e723dba8a8b5d5d56a61d428df2017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 43/53] fix: layout.find_embedding accepts graphs given as
 edges, as documented

---
 minorminer/layout/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 00a717b..2d2ceb6 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -17,7 +17,7 @@ import time
 import networkx as nx
 import minorminer as mm
 
-from .layout import Layout, dnx_layout, graph_layout, p_norm
+from .layout import Layout, _parse_graph, dnx_layout, graph_layout, p_norm
 from .placement import Placement, closest, intersection
 
 
@@ -87,6 +87,9 @@ def find_embedding(
     """
     start = time.perf_counter()
 
+    # Ensure S and T are graph objects
+    S, T = _parse_graph(S), _parse_graph(T)
+
     # Parse kwargs
     layout_kwargs, placement_kwargs = _parse_kwargs(kwargs)
 
-- 
2.43.0


From af40b0b5b60da871f9e9411083c4f55d4234ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 44/53] fix: layout.find_embedding uses the layout given
 explicitly for a Chimera, Pegasus or Zephyr target

---
 minorminer/layout/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 2d2ceb6..563afc1 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -162,7 +162,12 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
             raise ValueError(
                 "layout is expected to be a function or a length-2 iterable")
     else:
-        s_layout = t_layout = layout
+        s_layout = layout
+        # Use the graph_layout for T if possible
+        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+            t_layout = None
+        else:
+            t_layout = layout
 
     # Get a Layout object for S
     if isinstance(s_layout, Layout):
@@ -176,7 +181,7 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
         T_layout = t_layout
     else:
         # Use the graph_layout if possible
-        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+        if t_layout is None and T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From f0deae8589b2ac59311476779a8a92a9edd83cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:43 +0000
Subject: [PATCH 45/53] fix: placements and layout-guided embeddings of the
 empty graph

---
 minorminer/layout/placement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index b7e7742..b2fbf0b 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -452,8 +452,8 @@ class Placement(abc.MutableMapping):
         self.S_layout = _parse_layout(S_layout)
         self.T_layout = _parse_layout(T_layout)
 
-        # Layout dimensions should match
-        if self.S_layout.dim != self.T_layout.dim:
+        # Layout dimensions should match (a layout of the empty graph has none)
+        if len(self.S_layout) and self.S_layout.dim != self.T_layout.dim:
             raise ValueError(
                 "S_layout has dimension {} but T_layout has dimension {}. These must match.".format(
                     self.S_layout.dim, self.T_layout.dim)
-- 
2.43.0


From 3cff925945726a7d5cfd123e6ed7b54f94871b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:28 +0000
Subject: [PATCH 46/53] fix: find_sublattice_embeddings passes one_to_iterable,
 use_filter, shuffle_all_graphs and timeout on

---
 minorminer/utils/parallel_embeddings.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..011a527 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -432,11 +432,15 @@ def find_sublattice_embeddings(
     if sublattice_size is None and tile is None:
         return find_multiple_embeddings(
             S=S,
-            T=T,
+            T=_local_graph(T, T_family, T_kwargs) if T is None else T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
+            timeout=timeout,
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
@@ -533,6 +537,7 @@ def find_sublattice_embeddings(
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
             timeout=timeout_at - perf_counter(),
         )
         if len(defect_free_embs) == 0:
@@ -583,6 +588,8 @@ def find_sublattice_embeddings(
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
+                one_to_iterable=one_to_iterable,
+                shuffle_all_graphs=shuffle_all_graphs,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From d8e6f67f4f27f86b36da01e9ac1d69252edc1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:07 +0000
Subject: [PATCH 47/53] fix: find_sublattice_embeddings with max_num_emb=0
 returns no embedding

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 011a527..3eaa408 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -570,7 +570,7 @@ def find_sublattice_embeddings(
         sublattice_iter = sublattice_mappings(tile, _T)
 
     for f in sublattice_iter:
-        if perf_counter() > timeout_at:
+        if len(embs) >= max_num_emb or perf_counter() > timeout_at:
             break
         if use_tile_embedding:
             proposal = _mapped_proposal(tile_embedding, f, one_to_iterable)
-- 
2.43.0


From c726ba710e4215c43ad5584d0772d2ff96f50b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 48/53] fix: shuffle_all_graphs shuffles at each attempt, as
 documented

---
 minorminer/utils/parallel_embeddings.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 3eaa408..440ea17 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -203,12 +203,9 @@ def find_multiple_embeddings(
     if embedder_kwargs is None:
         embedder_kwargs = {}
 
-    if shuffle_all_graphs is True:
+    if shuffle_all_graphs:
         prng = np.random.default_rng(seed)
-        _T = T.copy()
-        _T = shuffle_graph(T, seed=prng)
-    else:
-        _T = T
+    _S, _T = S, T
 
     if max_num_emb == float("inf"):
         warnings.warn(
@@ -225,12 +222,9 @@ def find_multiple_embeddings(
             T.number_of_nodes() // S.number_of_nodes(), round(max_num_emb)
         )
 
-    if shuffle_all_graphs:
-        _S = shuffle_graph(S, seed=prng)
-    else:
-        _S = S
-
     for _ in range(max_num_emb):
+        if shuffle_all_graphs:
+            _S, _T = shuffle_graph(S, seed=prng), shuffle_graph(_T, seed=prng)
         if (
             use_filter
             and embedding_feasibility_filter(_S, _T, not one_to_iterable) is False
@@ -538,6 +532,7 @@ def find_sublattice_embeddings(
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
             one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
             timeout=timeout_at - perf_counter(),
         )
         if len(defect_free_embs) == 0:
-- 
2.43.0


From 2b04e5a429112dabde3be119eef42db6fe077fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 49/53] fix: array_to_embeddings with as many embeddings as
 nodes

---
 minorminer/utils/parallel_embeddings.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 440ea17..0ef5358 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -122,14 +122,16 @@ def array_to_embeddings(
         A list of embedding dictionaries
     """
 
-    if node_order is None:
-        node_order = range(len(embs[0]))
+    embs = list(embs)
+    if len(embs) > 0 and not isinstance(embs[0], Iterable):
+        embs = [embs]  # A single one-to-one embedding
 
-    if len(embs) == len(node_order):
-        embs = [{node_order[idx]: v for idx, v in enumerate(embs)}]
+    if node_order is None:
+        node_order = range(len(embs[0])) if embs else []
     else:
-        embs = [{node_order[idx]: v for idx, v in enumerate(emb)} for emb in embs]
-    return embs
+        node_order = list(node_order)
+
+    return [{node_order[idx]: v for idx, v in enumerate(emb)} for emb in embs]
 
 
 def find_multiple_embeddings(
-- 
2.43.0


From 66dabc68566c072a8950b9002569f5d097abb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 50/53] fix: count a line's single qubit after a missing
 coupler in the polynomial embedder's line scores

---
 minorminer/utils/polynomialembedder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 62528fa..fa73a23 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -209,6 +209,7 @@ class eden_processor(object):
                         block[y] += 1
                     elif y and (x, y, 1, k) not in self[x, y - 1, 1, k]:
                         laststart[k] = y
+                        block[y] += 1
                     else:
                         for y1 in range(laststart[k], y + 1):
                             block[y1] += 1
@@ -233,6 +234,7 @@ class eden_processor(object):
                         block[x] += 1
                     elif x and (x, y, 0, k) not in self[x - 1, y, 0, k]:
                         laststart[k] = x
+                        block[x] += 1
                     else:
                         for x1 in range(laststart[k], x + 1):
                             block[x1] += 1
-- 
2.43.0


From 3ba966fafbc42ce2db962c701a031226bcf899b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:12 +0000
Subject: [PATCH 51/53] fix: largestNativeClique with a max_chain_length beyond
 the processor's size compared None with a score

---
 minorminer/utils/polynomialembedder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index fa73a23..b7f424c 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -583,7 +583,7 @@ class eden_processor(object):
 
         for w in range(wmax + 1):
             score, clique = self.nativeCliqueEmbed(w)
-            if bestscore is None or score > bestscore:
+            if bestscore is None or (score is not None and score > bestscore):
                 bigclique = clique
                 bestscore = score
         return bestscore, bigclique
-- 
2.43.0


From 34eeef5141cf58f82c16e5f5bc99aa6829e90a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:55 +0000
Subject: [PATCH 52/53] fix: restore the order of bad edges when a topo_cache
 is reset

With more missing in-cell couplers than can be treated exhaustively, the
order was left over from the previous search, so the bicliques found after
a clique had been asked for differed from those found by a fresh object.
---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..e59e626 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,9 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            //next() reorders the bad edges, so restore their original order too
+            bad_edges.clear();
+            compute_bad_edges();
             next();
         }
     }
-- 
2.43.0


From f6bc63235ee8981fc496295faa73ec045a8424d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:58 +0000
Subject: [PATCH 53/53] fix: keep the caches of pegasus graphs with different
 seeds apart

The topology identifier of pegasus graphs doesn't include the seed, so an
object answered with what another seed had computed for the same graph.
---
 minorminer/busclique.pyx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fcd4e6a..b8f70cb 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -794,13 +794,14 @@ ctypedef fused topo_cache_t:
     topo_cache[pegasus_spec]
     topo_cache[chimera_spec]
 
-cdef bytes _graph_digest(nodes_t &nodes, edges_t &edges):
+cdef bytes _graph_digest(nodes_t &nodes, edges_t &edges, uint32_t seed):
     """
-    A digest of the entire graph.  The topology identifier only covers what the
-    bus-structured algorithms look at, but caches can hold embeddings which use
-    any coupler of the graph, and must not be shared with graphs lacking those.
+    A digest of the entire graph and the seed.  The topology identifier only
+    covers what the bus-structured algorithms look at (and, for pegasus graphs,
+    not the seed), but caches can hold embeddings which use any coupler of the
+    graph, and must not be shared with graphs lacking those, or other seeds.
     """
-    return sha256(repr((sorted(nodes), sorted((min(e), max(e)) for e in edges))).encode('utf8')).digest()
+    return sha256(repr((sorted(nodes), sorted((min(e), max(e)) for e in edges), seed)).encode('utf8')).digest()
 
 cdef _serialize(topo_cache_t *topo, str family):
     cdef size_t nchars = topo.serialize(serialize_size_tag(), NULL)
@@ -878,7 +879,7 @@ cdef class _zephyr_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
-            self.graph_digest = _graph_digest(self.nodes, edges)
+            self.graph_digest = _graph_digest(self.nodes, edges, internal_seed)
 
         del zep
 
@@ -993,7 +994,7 @@ cdef class _pegasus_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
-            self.graph_digest = _graph_digest(self.nodes, edges)
+            self.graph_digest = _graph_digest(self.nodes, edges, internal_seed)
 
         del peg
 
@@ -1112,7 +1113,7 @@ cdef class _chimera_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
-            self.graph_digest = _graph_digest(self.nodes, edges)
+            self.graph_digest = _graph_digest(self.nodes, edges, internal_seed)
 
         del chim
 
-- 
2.43.0

