From b841008f8f8693cc4430ffd7b305f1da7f4ee069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 01/14] fix: reject numeric option values that do not fit into
 64 bits

---
 libclingo-dl/src/clingo-dl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..74e2826 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -252,12 +253,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            uint64_t const digit = *it - '0';
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = res * 10 + digit; // NOLINT
         } else {
             break;
         }
-- 
2.43.0


From 16e5b3a8ef05240b8485a8159cc85e4d3a81ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 02/14] fix: reject trailing characters in mutex option and do
 not change options on failure

---
 libclingo-dl/src/clingo-dl.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 74e2826..66d1b82 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -324,17 +324,12 @@ auto parse_mutex(const char *value, void *data) -> bool {
     if ((value = parse_uint64_pre(value, &x)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
-    if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+    uint64_t cutoff = 10 * x; // NOLINT
+    if (*value != '\0' && (*value != ',' || !parse_uint64(value + 1, &cutoff))) { // NOLINT
+        return false;
     }
+    pc.mutex_size = x;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From 182c1cd3848088983ff834b95b0f8387d26afa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 03/14] fix: reject unknown decision heuristics

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 66d1b82..6d545d9 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -384,12 +384,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From 03ae12aa8a745123378626c1e910f90838c4f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 04/14] fix: report the right option name for invalid
 propagation budgets

---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 6d545d9..96ee7db 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -494,7 +494,7 @@ extern "C" auto clingodl_configure(clingodl_theory_t *theory, char const *key, c
             return check_parse("propagate-root", parse_root(value, &theory->config));
         }
         if (strcmp(key, "propagate-budget") == 0) {
-            return check_parse("propgate-budget", parse_budget(value, &theory->config));
+            return check_parse("propagate-budget", parse_budget(value, &theory->config));
         }
         if (strcmp(key, "add-mutexes") == 0) {
             return check_parse("add-mutexes", parse_mutex(value, &theory->config));
-- 
2.43.0


From 9340b3cec67850a029fefe33f1f69c21e56237fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 05/14] fix: do not share the decision heuristic setting
 between theories

---
 libclingo-dl/src/clingo-dl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 96ee7db..f394b6e 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -138,8 +138,8 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+                                    conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From 0ecd122ee9cc319e2032dcb5edde0efac6f81efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 06/14] fix: do not read past the end of thread statistics when
 accumulating

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..fbc798d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 429a1b9c8944c687bb382d8248405fe73ef9db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 07/14] fix: do not truncate the decision level bound for full
 propagation

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index fbc798d..1527881 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -87,7 +87,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0


From 8299b36cd28a0166855711066467bdcae63e9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 08/14] fix: do not disable edges twice when combining zero and
 full propagation

---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..fcccec0 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // the edge has already been disabled if it was propagated through the zero node before
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From e933d8b72b7684acc64e06f20d9b33b8ec26f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 09/14] fix: propagate through the zero vertex of the component
 of an edge

---
 libclingo-dl/src/graph.cc      | 3 ++-
 libclingo-dl/src/propagator.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index fcccec0..78cad9e 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -498,7 +498,8 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
         if (!visited_set().empty()) {
             auto costs = bellman_ford_(changed_edges_, zero_idx);
             assert(costs.has_value());
-            assert(costs->size() == bound_visited_set().size());
+            // Note: the set also contains vertices of other components
+            assert(costs->size() <= bound_visited_set().size());
             for (auto [vertex_idx, value] : *costs) {
                 static_cast<void>(vertex_idx);
                 static_cast<void>(value);
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 1527881..b626c83 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 1a3d867d9d3eed13e6be8585b6933b2143e13dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 10/14] fix: rewrite theory atoms whose name is given as a
 symbolic term

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..5c20dc2 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From 145d7d4c6297ee892a82ff125b6b804431c3c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 11/14] fix: track the relevance of the target of the
 propagated edge with parallel edges

---
 libclingo-dl/src/graph.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 78cad9e..42c336f 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -391,24 +391,20 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // this. Explicitely using uv.from and uv.to is intended here.
                 auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
                 assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
-                if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
-                    bool relevant_v = relevant(v_idx);
+                // NOTE: There might be edges parallel to the relevant edge.
+                bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                if (!visited(v_idx) || less(c, relevant_uv, v_idx)) {
+                    // vertex v became or lost relevance
+                    if (relevant_uv != relevant(v_idx)) {
+                        relevant(v_idx) = relevant_uv;
+                        num_relevant += relevant_uv ? 1 : -1;
+                    }
                     cost(v_idx) = c;
                     if (!visited(v_idx)) {
-                        // vertex v became relevant
-                        if (relevant_u && !relevant_v) {
-                            ++num_relevant;
-                        }
                         visited_set().push_back(to(uv_idx));
                         visited(v_idx) = true;
-                        relevant(v_idx) = relevant_u || uv_idx == relevant_idx;
                         costs_heap_.push(*this, v_idx);
                     } else {
-                        // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
-                        }
                         costs_heap_.decrease(*this, v_idx);
                     }
                     path(v_idx) = uv_idx;
-- 
2.43.0


From a3fdd0150e7a8e254a63fc902091a21e36593d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 12/14] fix: keep the removed watches that could not be
 reinstated yet

When limited propagation is re-enabled, the literals whose watches were removed
are processed. Literals that became true unnoticed on an earlier decision level
cannot be handled once and for all; their edges have to be disabled again with
each call as long as this holds. But just these literals were dropped, while
the literals whose watches had been reinstated were kept. Afterwards a dropped
literal was never watched again, so its edges were no longer disabled.
---
 libclingo-dl/src/propagator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index b626c83..90a2f81 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -703,6 +703,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             }
             if (truth == Clingo::TruthValue::Free || ass.level(*jt) == level) {
                 ctl.add_watch(*jt);
+            } else {
                 if (it != jt) {
                     *it = *jt;
                 }
-- 
2.43.0


From ff9808f40b0bb544f9c8f9deeb81d8294fc889d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 13/14] fix: reinstate removed watches when solving again

When limited propagation is disabled, watches of literals without constraints
are removed. The literals are stored in the thread states and reinstated when
propagation is enabled again. But the thread states are rebuilt when solving
again while the solver keeps the watches as they are. The watches that were
removed at the end of the previous step were never reinstated.
---
 libclingo-dl/src/propagator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 90a2f81..2f002a6 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -615,6 +615,12 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
 }
 
 template <typename T> void DLPropagator<T>::initialize_states_(Clingo::PropagateInit &init) {
+    // reinstate watches that were removed but not reinstated in previous steps
+    for (size_t i = 0; i < states_.size(); ++i) {
+        for (auto lit : states_[i].removed_watchs) {
+            init.add_watch(lit, numeric_cast<Clingo::id_t>(i));
+        }
+    }
     states_.clear();
     stats_.thread_statistics.resize(init.number_of_threads());
     if (facts_.size() < numeric_cast<size_t>(init.number_of_threads())) {
-- 
2.43.0


From 22a30a8037e2b79b69418aa365e8b397babd93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 14/14] fix: watch constraints of previous steps in additional
 threads

Watches were only added for the threads available in the step in which a
constraint was added. If the number of threads was increased afterwards, the
additional threads ignored all earlier constraints and reported wrong answers.
---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..f16e56c 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Watch the literal of an edge in all threads starting from the given one.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, int first_thread);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 2f002a6..c7249e2 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -164,6 +164,10 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+    // watch literals of previous steps in additional threads
+    for (auto const &edge : edges_) {
+        add_watches_(init, edge.lit, numeric_cast<int>(states_.size()));
+    }
     if (!add_constraints_(init)) {
         return;
     }
@@ -421,7 +425,12 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     auto id = numeric_cast<edge_t>(edges_.size());
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
-    for (int i = 0; i < init.number_of_threads(); ++i) {
+    add_watches_(init, lit, 0);
+}
+
+template <typename T>
+void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, int first_thread) {
+    for (int i = first_thread; i < init.number_of_threads(); ++i) {
         init.add_watch(lit, i);
         if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
             conf_.get_propagate_budget(i) > 0) {
-- 
2.43.0

