From f456a1ecab525df139eefb78f7285160510cb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 01/21] fix: do not disable an edge twice if zero and full
 propagation are combined

---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..eb4ac31 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: The edge has already been disabled if zero propagation is enabled.
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From cfede9d0b671a30911b681288474325cc4e4ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 02/21] fix: pass the zero vertex of the component to zero
 propagation

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..0bb2b9d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 0829ce53c77ca686f91e8ee8a4aaddc77b8ce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 03/21] fix: consider the added edge in full propagation if
 there are parallel edges

---
 libclingo-dl/src/graph.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index eb4ac31..bda9ae3 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -405,7 +405,11 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                         costs_heap_.push(*this, v_idx);
                     } else {
                         // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
+                        if (uv_idx == relevant_idx) {
+                            // v was reached via a longer parallel edge before
+                            // (it has been included in the initial count)
+                            relevant(v_idx) = true;
+                        } else if (relevant_u != relevant_v) {
                             relevant(v_idx) = relevant_u;
                             num_relevant += relevant_u ? 1 : -1;
                         }
-- 
2.43.0


From 0804e12a73d23006851883c00fb69cacc8b0358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 04/21] fix: do not add mutexes exceeding the given maximum
 size

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 0bb2b9d..185bd5e 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -592,7 +592,7 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
                 if (found == 0 && st_truth == Clingo::TruthValue::Free) {
                     n += 1;
                 }
-                if (st.to == start.from && w < 0) {
+                if (st.to == start.from && w < 0 && n <= conf_.mutex_size) {
                     ++stats_.mutexes;
                     clause.emplace_back(-st.lit);
                     auto c = queue_offset;
-- 
2.43.0


From d59278de24365ac4530a00dc4aa4781c52c7b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 05/21] fix: evaluate division in linear expressions

A term like 4/2 was treated as a variable named 2 even though the theory
grammar supports the division operator.
---
 libclingo-dl/src/parsing.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..6acd9d1 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -297,6 +297,9 @@ template <class N> auto evaluate(Clingo::TheoryTerm const &term) -> Clingo::Symb
     return throw_syntax_error<Clingo::Symbol>();
 }
 
+//! Simplify the given vector of terms.
+template <class N> [[nodiscard]] auto simplify(CoVarVec<N> &vec) -> N;
+
 //! Parse the given theory term for an arithmetic expression.
 template <class N>
 void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol)> const &map_vert,
@@ -340,6 +343,19 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
                 }
             }
         }
+    } else if (match(term, "/", 2)) {
+        auto args = term.arguments();
+        CoVarVec<N> lhs;
+        parse_elem(args.front(), map_vert, lhs);
+        CoVarVec<N> rhs;
+        parse_elem(args.back(), map_vert, rhs);
+        auto num = simplify(lhs);
+        auto den = simplify(rhs);
+        if (!lhs.empty() || !rhs.empty()) {
+            throw_syntax_error("Invalid Syntax: only linear difference constraints are supported");
+        }
+        // note that both numbers are negated
+        res.emplace_back(safe_div<N>(num, den), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
@@ -353,7 +369,6 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
     }
 }
 
-//! Simplify the given vector of terms.
 template <class N> [[nodiscard]] auto simplify(CoVarVec<N> &vec) -> N {
     static thread_local std::unordered_map<int, typename CoVarVec<N>::iterator> seen;
     N rhs = 0;
-- 
2.43.0


From d0fbd2e5de11ffb2a6715840a6e6bb715782f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 06/21] fix: powers of zero with non-negative exponents do not
 overflow

---
 libclingo-dl/clingo-dl/impl/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/clingo-dl/impl/util.hh b/libclingo-dl/clingo-dl/impl/util.hh
index 5cc3575..05fb5e2 100644
--- a/libclingo-dl/clingo-dl/impl/util.hh
+++ b/libclingo-dl/clingo-dl/impl/util.hh
@@ -288,7 +288,7 @@ template <typename Float, std::enable_if_t<std::is_floating_point_v<Float>, int>
 }
 
 template <typename Int, std::enable_if_t<std::is_integral_v<Int>, int>> auto safe_pow(Int a, Int b) -> Int {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 3efbe8c1feed0e8843b862b6029797362fdb5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 07/21] fix: do not share the decide callback between theories

---
 libclingo-dl/src/clingo-dl.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..f6bab6f 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -135,11 +135,11 @@ void set_value(clingodl_value_t *variant, double value) {
 //! High level interface to use the DL propagator.
 template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
-    DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
+    DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf)
+        : prop_{step_, conf}, callbacks_{init<T>, propagate<T>, undo<T>, check<T>,
+                                         conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
-        handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
+        handle_error(clingo_control_register_propagator(control, &callbacks_, &prop_, false));
     }
 
     auto lookup_symbol(clingo_symbol_t name, size_t *index) -> bool override {
@@ -220,9 +220,10 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
         }
     }
 
-    Statistics step_;      //!< Per step statistics.
-    Statistics accu_;      //!< Accumulated statistics over all steps.
-    DLPropagator<T> prop_; //!< The underlying difference logic propagator.
+    Statistics step_;               //!< Per step statistics.
+    Statistics accu_;               //!< Accumulated statistics over all steps.
+    DLPropagator<T> prop_;          //!< The underlying difference logic propagator.
+    clingo_propagator_t callbacks_; //!< The callbacks registered with the solver.
 };
 
 //! Check if b is a lower case prefix of a returning a pointer to the remainder of a.
-- 
2.43.0


From 30aa5c9c01b35c4dbfb775708910237bbc6cd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 08/21] fix: refuse malformed values of add-mutexes

---
 libclingo-dl/src/clingo-dl.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index f6bab6f..c06dd81 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -321,21 +321,18 @@ auto parse_budget(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_mutex(const char *value, void *data) -> bool {
     auto &pc = *static_cast<PropagatorConfig *>(data);
-    uint64_t x = 0;
-    if ((value = parse_uint64_pre(value, &x)) == nullptr) {
+    uint64_t size = 0;
+    uint64_t cutoff = 0;
+    if ((value = parse_uint64_pre(value, &size)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
     if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+        cutoff = 10 * size; // NOLINT
+    } else if (*value != ',' || !parse_uint64(value + 1, &cutoff)) {
+        return false;
     }
+    pc.mutex_size = size;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From 8389142da61b13dca4842cfa1251502f67897419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 09/21] fix: detect overflows when parsing numbers of options

---
 libclingo-dl/src/clingo-dl.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index c06dd81..2da991b 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -253,12 +254,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            uint64_t digit = *it - '0';
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = res * 10 + digit; // NOLINT
         } else {
             break;
         }
@@ -327,7 +327,8 @@ auto parse_mutex(const char *value, void *data) -> bool {
         return false;
     }
     if (*value == '\0') {
-        cutoff = 10 * size; // NOLINT
+        constexpr auto max = std::numeric_limits<uint64_t>::max();
+        cutoff = size <= max / 10 ? 10 * size : max; // NOLINT
     } else if (*value != ',' || !parse_uint64(value + 1, &cutoff)) {
         return false;
     }
-- 
2.43.0


From 1028f3fb3076b8f52ce88ff70b0dea96387fafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 10/21] fix: refuse unknown values of dl-heuristic

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 2da991b..d7142dc 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -388,12 +388,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From 20981537dedf8e7d30ef219a035a0bf5d1d5bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 11/21] fix: do not truncate propagate-root to 32 bits

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 185bd5e..fa2446c 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -87,7 +87,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0


From 0e6400be7322e6062dd065c464131c41dc70b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 12/21] fix: name of the propagate-budget option in an error
 message

---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index d7142dc..8fef2c6 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -498,7 +498,7 @@ extern "C" auto clingodl_configure(clingodl_theory_t *theory, char const *key, c
             return check_parse("propagate-root", parse_root(value, &theory->config));
         }
         if (strcmp(key, "propagate-budget") == 0) {
-            return check_parse("propgate-budget", parse_budget(value, &theory->config));
+            return check_parse("propagate-budget", parse_budget(value, &theory->config));
         }
         if (strcmp(key, "add-mutexes") == 0) {
             return check_parse("add-mutexes", parse_mutex(value, &theory->config));
-- 
2.43.0


From 7bbfce48f22e8312765559623ddaad226bec9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 13/21] fix: overflow when adding up the propagation budget

---
 libclingo-dl/src/propagator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index fa2446c..1381b09 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -735,9 +735,10 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
     for (auto edge_idx : state.todo_edges) {
         if (state.graph.edge_is_enabled(edge_idx)) {
             // disable propagation once budget exceeded
+            auto cost = state.stats.propagate_cost_from + state.stats.propagate_cost_to;
             bool has_budget =
-                state.propagate_budget > 0 && state.stats.propagate_cost_add + state.propagate_budget >
-                                                  state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+                state.propagate_budget > 0 && (cost < state.stats.propagate_cost_add ||
+                                               cost - state.stats.propagate_cost_add < state.propagate_budget);
             if (!propagate && !has_budget) {
                 state.graph.disable_propagate();
             }
-- 
2.43.0


From c37080caa635d7edb653f1632498c581f22178b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 14/21] fix: watch existing edges in threads that join in a
 later step

---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..1c388a8 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Watch the literals of an edge in the given thread.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 1381b09..81426a1 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -164,6 +164,17 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+
+    // threads that did not take part in the previous step do not know the existing edges yet
+    for (auto i = states_.size(), n = numeric_cast<size_t>(init.number_of_threads()); i < n; ++i) {
+        for (auto const &edge : edges_) {
+            add_watches_(init, edge.lit, numeric_cast<Clingo::id_t>(i));
+        }
+        if (i < facts_.size()) {
+            facts_[i] = {};
+        }
+    }
+
     if (!add_constraints_(init)) {
         return;
     }
@@ -422,12 +433,17 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
-        }
+        add_watches_(init, lit, i);
+    }
+}
+
+template <typename T>
+void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id) {
+    init.add_watch(lit, thread_id);
+    if (conf_.get_propagate_mode(thread_id) >= PropagationMode::Zero || conf_.get_propagate_root(thread_id) > 0 ||
+        conf_.get_propagate_budget(thread_id) > 0) {
+        disable_edges_ = true;
+        init.add_watch(-lit, thread_id);
     }
 }
 
-- 
2.43.0


From c4d30f5df18161ef1544b71be44af21cad67fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 15/21] fix: accumulate statistics if the number of threads
 shrinks

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 81426a1..15b6e21 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From bd4b4462a3f927404ab4994fbef52651f5c925c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 16/21] fix: evaluate integral arguments to numbers with real
 values

---
 libclingo-dl/src/parsing.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 6acd9d1..32824dc 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -219,7 +219,14 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
 [[nodiscard]] auto evaluate_binary(Clingo::TheoryTerm const &a, Clingo::TheoryTerm const &b, F &&f) -> Clingo::Symbol {
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
-    return Clingo::String(std::to_string(f(to_number<N>(ea), to_number<N>(eb))).c_str());
+    auto res = f(to_number<N>(ea), to_number<N>(eb));
+    // integral numbers have to be equal to the ones written in the program
+    if (res >= std::numeric_limits<int>::min() && res <= std::numeric_limits<int>::max()) {
+        if (auto num = static_cast<int>(res); num == res) {
+            return Clingo::Number(num);
+        }
+    }
+    return Clingo::String(std::to_string(res).c_str());
 }
 
 //! Parse a string to a number.
-- 
2.43.0


From 5d0b30b70917a734671e965111f27cb407ff7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 17/21] fix: do not treat the empty string as a number

---
 libclingo-dl/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 32824dc..d285225 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -238,7 +238,7 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     }
     char *parsed = nullptr;                    // NOLINT
     auto res = std::strtod(name + 1, &parsed); // NOLINT
-    if (parsed != name + len - 1) {            // NOLINT
+    if (parsed == name + 1 || parsed != name + len - 1) { // NOLINT
         return std::nullopt;
     }
     auto ret = static_cast<N>(res);
-- 
2.43.0


From 9b58d93582bc650b0d847602f923abad0ad20b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 18/21] fix: report numbers that are not finite

---
 libclingo-dl/src/parsing.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index d285225..c18eb8d 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -24,6 +24,7 @@
 
 #include "clingo-dl/parsing.hh"
 #include "clingo-dl/util.hh"
+#include <cmath>
 #include <optional>
 
 namespace ClingoDL {
@@ -190,6 +191,16 @@ constexpr int INVALID_VAR{std::numeric_limits<int>::max()};
 //! Test whether a variable is valid.
 [[nodiscard]] inline auto is_valid_var(int var) -> bool { return var < INVALID_VAR; }
 
+//! Check that a number is finite.
+template <class T> [[nodiscard]] auto check_finite(T a) -> T {
+    if constexpr (std::is_floating_point_v<T>) {
+        if (!std::isfinite(a)) {
+            throw std::overflow_error("could not evaluate term: number is not finite");
+        }
+    }
+    return a;
+}
+
 //! Convert a symbol to a double or integer.
 template <class T> [[nodiscard]] auto to_number(Clingo::Symbol const &a) -> T {
     if (a.type() == Clingo::SymbolType::Number) {
@@ -219,7 +230,7 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
 [[nodiscard]] auto evaluate_binary(Clingo::TheoryTerm const &a, Clingo::TheoryTerm const &b, F &&f) -> Clingo::Symbol {
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
-    auto res = f(to_number<N>(ea), to_number<N>(eb));
+    auto res = check_finite(f(to_number<N>(ea), to_number<N>(eb)));
     // integral numbers have to be equal to the ones written in the program
     if (res >= std::numeric_limits<int>::min() && res <= std::numeric_limits<int>::max()) {
         if (auto num = static_cast<int>(res); num == res) {
@@ -241,7 +252,7 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     if (parsed == name + 1 || parsed != name + len - 1) { // NOLINT
         return std::nullopt;
     }
-    auto ret = static_cast<N>(res);
+    auto ret = static_cast<N>(check_finite(res));
     if (static_cast<double>(ret) != res) {
         throw std::runtime_error("could not evaluate term: for floating point numbers use option rdl");
     }
@@ -362,7 +373,7 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
             throw_syntax_error("Invalid Syntax: only linear difference constraints are supported");
         }
         // note that both numbers are negated
-        res.emplace_back(safe_div<N>(num, den), INVALID_VAR);
+        res.emplace_back(check_finite(safe_div<N>(num, den)), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
@@ -454,7 +465,7 @@ auto parse(Clingo::TheoryAtom const &atom, std::function<int(Clingo::Symbol)> co
         parse_elem(element.tuple().front(), map_vert, covec);
     }
 
-    auto rhs = simplify(covec);
+    auto rhs = check_finite(simplify(covec));
     return {std::move(covec), rel, rhs, atom.literal(), strict};
 }
 
-- 
2.43.0


From 489f96f39c1863c056d3736d80bf46ae00ce1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 19/21] fix: report strings that only start with a number

---
 libclingo-dl/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index c18eb8d..759f130 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -207,7 +207,11 @@ template <class T> [[nodiscard]] auto to_number(Clingo::Symbol const &a) -> T {
         return static_cast<T>(a.number());
     }
     if (a.type() == Clingo::SymbolType::String) {
-        return std::stod(a.string());
+        auto const *str = a.string();
+        size_t len = 0;
+        auto num = std::stod(str, &len);
+        check_syntax(str[len] == '\0'); // NOLINT
+        return num;
     }
     return throw_syntax_error<T>();
 }
-- 
2.43.0


From 9b33fdc02b6784f8f1b449cd0915d9d45fbaf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 20/21] fix: the optimizer does not add the least integer as a
 bound, which the theory refuses

---
 app/lib/src/app.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..0130b08 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -116,8 +116,9 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (lower_bound_ && aux <= *lower_bound_) {
         aux = *lower_bound_ + 1.0;
     }
-    if (aux < std::numeric_limits<int_value_t>::min()) {
-        aux = std::numeric_limits<int_value_t>::min();
+    // NOTE: the least integer is not supported in difference constraints
+    if (aux <= std::numeric_limits<int_value_t>::min()) {
+        aux = std::numeric_limits<int_value_t>::min() + 1;
     }
     search_bound_ = static_cast<int_value_t>(aux);
 
-- 
2.43.0


From 8103cb14f5fc60d7f190ef073c1ae852eb79181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 21/21] fix: difference constraints given by symbolic terms are
 tagged instead of refused

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 759f130..48355b8 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -61,7 +61,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -133,12 +133,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0

