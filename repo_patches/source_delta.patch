From e2fad2b0c95cfcfad60362532108112e387c781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 01/34] fix: use the negated literal for the reverse of strict
 nonlinear constraints

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From a6fa68b9a352829f76ed5c3e106544491e0cb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 02/34] fix: add the literal of nonlinear constraints to their
 reasons

---
 libclingcon/src/constraints.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..6eacf26 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1413,9 +1413,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
     [[nodiscard]] auto propagate(Solver &solver, AbstractClauseCreator &cc, bool check_state) -> bool override {
         // TODO: This implementation is just a first shot that has to be
         // refined further.
-        static_cast<void>(cc);
         static_cast<void>(check_state);
 
+        auto ass = cc.assignment();
+        auto clit = constraint_.literal();
+
         auto &vs_x = solver.var_state(constraint_.var_x());
         auto &vs_y = solver.var_state(constraint_.var_y());
         nsum_t co_a = constraint_.co_a();
@@ -1459,6 +1461,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
             // (or negative) the term a*b should behave monotonely.
             // std::cerr << "  the constraint is conflicting" << std::endl;
             auto &reason = solver.temp_reason();
+            reason.emplace_back(-clit);
             reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
             reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
             reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1473,6 +1476,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
             return cc.add_clause(reason);
         }
 
+        // bounds can only be derived from constraints that have to hold
+        if (!ass.is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1490,6 +1498,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z < upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_y << " < " << upper_y << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1506,6 +1515,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z > upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_z << " > " << upper_z << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
-- 
2.43.0


From c16d1f6a21d5e442f3c62ddc600edb609718b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 03/34] fix: let ceildiv round up if the signs of its arguments
 are equal

---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..6413519 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (((n < 0) == (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From d81e9bc314286e24b5d224462d4f6c27d1fda01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 04/34] fix: count nonlinear terms when checking for at most
 one in nonlinear sums

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From 0ff15a552bc5756a1eda299752f85553e95e128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 05/34] fix: measure times with a steady clock

---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 6413519..9e5cae7 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -97,7 +97,7 @@ template <typename I> auto ceildiv(I n, I m) -> I {
 //! Simple timer that adds the elapsed time to the given `double` upon
 //! destruction.
 class Timer {
-    using Clock = std::chrono::high_resolution_clock;
+    using Clock = std::chrono::steady_clock;
     using Time = std::chrono::time_point<Clock>;
     using Duration = std::chrono::duration<double>;
 
-- 
2.43.0


From 738b7e93039d83eda9ebfe6d51c096c1a5ebc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 06/34] fix: count constraints with a signed type because they
 can be removed in later steps

---
 libclingcon/clingcon/base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..f8cf1a3 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -187,7 +187,7 @@ struct Statistics {
     double time_translate = 0;
     double time_simplify = 0;
     uint64_t num_variables = 0;
-    uint64_t num_constraints = 0;
+    int64_t num_constraints = 0;
     uint64_t num_clauses = 0;
     uint64_t num_literals = 0;
     uint64_t translate_removed = 0;
-- 
2.43.0


From 186314ae00a2a4858f2a74215955d9938d073aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 07/34] fix: forbid domain constraints with empty domains

---
 libclingcon/src/solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..ab5f2d6 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,10 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // an empty domain cannot be satisfied
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From f28336fde9938625b17a3eb68b05f48bcfb2ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 08/34] fix: do not shift difference constraints whose relation
 cannot be negated

---
 libclingcon/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..a3b0929 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,13 +119,18 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // difference constraints only support relation <= and cannot be negated
+        auto negated = static_cast<Sign>(lit.get<int>(Attribute::Sign)) == Sign::Negation;
+        if (!negated && match(atom.get<Node>(Attribute::Term), "diff")) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
         auto ret_hd = atom.copy();
         auto guard = ret_hd.get<Clingo::Optional<Node>>(Attribute::Guard);
         check_syntax(guard.get() != nullptr);
-        if (static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation) {
+        if (!negated) {
             auto const *rel = guard->get<char const *>(Attribute::OperatorName);
             auto ret_guard = guard->copy();
             ret_guard.set(Attribute::OperatorName, negate_relation(rel));
-- 
2.43.0


From a4ba3e25e0a7b122e4f774c1a663917cf0cb9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 09/34] fix: do not translate minimize constraints over fixed
 variables if disabled

---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 6eacf26..a272929 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -734,7 +734,7 @@ class MinimizeConstraintState : public AbstractConstraintState {
         int64_t size = 0;
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
-            size += static_cast<int64_t>(vs.max_bound()) - vs.min_bound() - 1;
+            size += static_cast<int64_t>(vs.max_bound()) - vs.min_bound();
         }
         return size;
     }
-- 
2.43.0


From c3a75203262ba833bd1f41e41b33798371bae869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 10/34] fix: watch order literals of previous steps in newly
 added threads

---
 libclingcon/clingcon/solver.hh |  3 +++
 libclingcon/src/propagator.cc  |  2 ++
 libclingcon/src/solver.cc      | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1696306..eaf120f 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -739,6 +739,9 @@ class Solver {
     //! This function must be called on the top level.
     void copy_state(Solver const &master);
 
+    //! Watch all order literals in the given thread.
+    void add_watches(Clingo::PropagateInit &init, Clingo::id_t thread_id) const;
+
     //! Mark the number of static variables.
     //!
     //! This function has to be called at the end of propagator initialization
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..aac7c2a 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -440,6 +440,8 @@ void Propagator::init(Clingo::PropagateInit &init) {
     auto n = static_cast<size_t>(init.number_of_threads());
     for (size_t i = solvers_.size(); i < n; ++i) {
         solvers_.emplace_back(config_.solver_config(i), stats_step_.solver_stats(i));
+        // watches added in previous steps are unknown to new threads
+        master_().add_watches(init, static_cast<Clingo::id_t>(i));
     }
     while (solvers_.size() > n) {
         solvers_.pop_back();
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index ab5f2d6..b93c1d9 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -404,6 +404,17 @@ void Solver::copy_state(Solver const &master) {
     Level::copy_state(*this, master);
 }
 
+void Solver::add_watches(Clingo::PropagateInit &init, Clingo::id_t thread_id) const {
+    lit_t lit = 0;
+    for (auto const &olit : litmap_) {
+        ++lit;
+        if (!olit.invalid()) {
+            init.add_watch(lit, thread_id);
+            init.add_watch(-lit, thread_id);
+        }
+    }
+}
+
 auto Solver::add_variable(val_t min_int, val_t max_int) -> var_t {
     var_t idx = var2vs_.size();
     var2vs_.emplace_back(idx, min_int, max_int);
-- 
2.43.0


From 7af6f884881dc500e1861576ad884dc9dbae1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 11/34] fix: update bounds of distinct constraints before
 translating them

---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index a272929..2564787 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -840,6 +840,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // the bounds might be outdated if the constraint stems from a previous step
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From a10ded24182f3894343b689c957abee7c2fed54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 12/34] fix: keep the sign of constants when extending minimize
 constraints in later steps

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index aac7c2a..6654ee7 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            minimize_elems_.emplace_back(-minimize_->adjust(), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 1e30e96a36b3ec2f30904e604b6783ffac35988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 13/34] fix: stop propagating distinct constraints that became
 false

---
 libclingcon/src/constraints.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 2564787..de13c58 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1152,6 +1152,11 @@ class DistinctConstraintState final : public AbstractConstraintState {
     auto propagate_(Solver &solver, AbstractClauseCreator &cc, int s, uint32_t i, uint32_t j) -> bool {
         auto ass = cc.assignment();
 
+        // Note: A clause added earlier might have made the constraint false.
+        if (ass.is_false(constraint_.literal())) {
+            return true;
+        }
+
         auto &reason = solver.temp_reason();
         auto const &elem_i = constraint_[i];
         auto const &elem_j = constraint_[j];
-- 
2.43.0


From 709af17c4ede645c370f34199eb0c8427d825b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 14/34] fix: stop propagating disjoint constraints that became
 false

---
 libclingcon/src/constraints.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index de13c58..da6551e 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1728,6 +1728,11 @@ class DisjointConstraintState final : public AbstractConstraintState {
         }
 
         [[nodiscard]] auto insert(It i) -> bool {
+            // Note: A clause added earlier might have made the constraint false.
+            if (cc.assignment().is_false(clit)) {
+                return true;
+            }
+
             auto k = end;
 
             i->last_left = i->left;
-- 
2.43.0


From c3701654ae4621ce5b1227c06685d165bde0f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 15/34] fix: do not check solutions on the top level if there
 is a bound on the objective

---
 libclingcon/src/solver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index b93c1d9..05fb6d2 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -984,6 +984,12 @@ void Solver::check_full(AbstractClauseCreator &cc, bool check_solution) {
 
     if (check_solution) {
         auto ass = cc.assignment();
+        // Note: Clauses implied by the bound on the objective are subject to
+        // the current step. On the top level, where the step literal has not
+        // been assumed yet, they do not lead to a conflict.
+        if (minimize_bound_.has_value() && ass.decision_level() == 0) {
+            return;
+        }
         for (auto [lit, cs] : lit2cs_) {
             if (ass.is_true(lit)) {
                 cs->check_full(*this);
-- 
2.43.0


From 99ab8fdbb4264f7006f5ef9a8cbad5fb6acb0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 16/34] fix: skip weight constraints that became trivial before
 they are committed

---
 libclingcon/clingcon/base.hh | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index f8cf1a3..24555f7 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -337,15 +337,8 @@ class InitClauseCreator final : public AbstractClauseCreator {
     //! Add a weight constraint of form `lit == (wlits <= bound)`.
     [[nodiscard]] auto add_weight_constraint(lit_t lit, Clingo::WeightedLiteralSpan wlits, val_t bound,
                                              Clingo::WeightConstraintType type) -> bool {
-        auto ass = assignment();
-        if (ass.is_true(lit)) {
-            if (type < 0) {
-                return true;
-            }
-        } else if (ass.is_false(lit)) {
-            if (type > 0) {
-                return true;
-            }
+        if (is_trivial_(lit, type)) {
+            return true;
         }
 
         if (state_ == InitState::Translate) {
@@ -373,6 +366,10 @@ class InitClauseCreator final : public AbstractClauseCreator {
         clauses_ = Clause();
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
+            // Note: the literal might have been assigned in the meantime
+            if (is_trivial_(lit, type)) {
+                continue;
+            }
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
                 return false;
@@ -389,6 +386,12 @@ class InitClauseCreator final : public AbstractClauseCreator {
     }
 
   private:
+    //! Check if a weight constraint is satisfied because of its literal.
+    [[nodiscard]] auto is_trivial_(lit_t lit, Clingo::WeightConstraintType type) -> bool {
+        auto ass = assignment();
+        return (ass.is_true(lit) && type < 0) || (ass.is_false(lit) && type > 0);
+    }
+
     InitState state_{InitState::Init};
     Clingo::PropagateInit &init_;
     Statistics &stats_;
-- 
2.43.0


From 339774829638c051b3b90ae667f705e04a7af22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 17/34] fix: initially propagate all elements of distinct
 constraints

---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index da6551e..744b097 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // elements that are already assigned have to be propagated, too
+            mark_todo_(1, idx);
+            mark_todo_(-1, idx);
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From 4798598b504435a978c33207e56b5da1f301a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 18/34] fix: do not pass trivial implications to weight
 constraints

---
 libclingcon/clingcon/base.hh | 37 ++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index 24555f7..5522558 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -25,8 +25,10 @@
 #ifndef CLINGCON_BASE_H
 #define CLINGCON_BASE_H
 
+#include <algorithm>
 #include <clingo.hh>
 #include <forward_list>
+#include <map>
 #include <math/wide_integer/uintwide_t.h>
 #include <optional>
 
@@ -337,7 +339,7 @@ class InitClauseCreator final : public AbstractClauseCreator {
     //! Add a weight constraint of form `lit == (wlits <= bound)`.
     [[nodiscard]] auto add_weight_constraint(lit_t lit, Clingo::WeightedLiteralSpan wlits, val_t bound,
                                              Clingo::WeightConstraintType type) -> bool {
-        if (is_trivial_(lit, type)) {
+        if (is_trivial_(lit, wlits, bound, type)) {
             return true;
         }
 
@@ -366,8 +368,8 @@ class InitClauseCreator final : public AbstractClauseCreator {
         clauses_ = Clause();
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
-            // Note: the literal might have been assigned in the meantime
-            if (is_trivial_(lit, type)) {
+            // Note: literals might have been assigned in the meantime
+            if (is_trivial_(lit, wlits, bound, type)) {
                 continue;
             }
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
@@ -386,10 +388,33 @@ class InitClauseCreator final : public AbstractClauseCreator {
     }
 
   private:
-    //! Check if a weight constraint is satisfied because of its literal.
-    [[nodiscard]] auto is_trivial_(lit_t lit, Clingo::WeightConstraintType type) -> bool {
+    //! Check if a weight constraint is satisfied by the top-level assignment.
+    //!
+    //! Such implications must not be passed to the solver because it would
+    //! treat them like equivalences.
+    [[nodiscard]] auto is_trivial_(lit_t lit, Clingo::WeightedLiteralSpan wlits, val_t bound,
+                                   Clingo::WeightConstraintType type) -> bool {
+        if (type == Clingo::WeightConstraintType::Equivalence) {
+            return false;
+        }
         auto ass = assignment();
-        return (ass.is_true(lit) && type < 0) || (ass.is_false(lit) && type > 0);
+        if (type > 0 ? ass.is_false(lit) : ass.is_true(lit)) {
+            return true;
+        }
+        // gather the weights of literals and their complements
+        std::map<lit_t, std::pair<sum_t, sum_t>> weights;
+        for (auto const &wlit : wlits) {
+            auto &[pos, neg] = weights[std::abs(wlit.literal())];
+            (wlit.literal() > 0 ? pos : neg) += wlit.weight();
+        }
+        sum_t lower = 0;
+        sum_t upper = 0;
+        for (auto const &[var, weight] : weights) {
+            auto const &[pos, neg] = weight;
+            lower += ass.is_true(var) ? pos : ass.is_false(var) ? neg : std::min(pos, neg);
+            upper += ass.is_true(var) ? pos : ass.is_false(var) ? neg : std::max(pos, neg);
+        }
+        return type > 0 ? upper <= bound : lower > bound;
     }
 
     InitState state_{InitState::Init};
-- 
2.43.0


From 1ba5d0f0703efe9173716e5c6ab2b59113da8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 19/34] fix: keep todo and inactive marks of remaining
 constraints when removing translated ones

---
 libclingcon/src/solver.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 05fb6d2..a859706 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -205,17 +205,11 @@ class Solver::Level {
         }
 
         solver.inactive_.erase(std::remove_if(solver.inactive_.begin(), solver.inactive_.end(),
-                                              [in_removed](auto *cs) {
-                                                  cs->mark_active();
-                                                  return in_removed(*cs);
-                                              }),
+                                              [in_removed](auto *cs) { return in_removed(*cs); }),
                                solver.inactive_.end());
 
         solver.todo_.erase(std::remove_if(solver.todo_.begin(), solver.todo_.end(),
-                                          [in_removed](auto *cs) {
-                                              cs->mark_todo(false);
-                                              return in_removed(*cs);
-                                          }),
+                                          [in_removed](auto *cs) { return in_removed(*cs); }),
                            solver.todo_.end());
     }
 
-- 
2.43.0


From 9d41060492fd6a312599dc34f080ff5ec2cd2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 20/34] fix: propagate facts to order literals introduced after
 the fact

---
 libclingcon/src/solver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index a859706..eaac2d8 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -798,16 +798,20 @@ auto Solver::update_domain_(AbstractClauseCreator &cc, lit_t lit) -> bool {
     if (lit == TRUE_LIT) {
         assert(ass.decision_level() == 0);
         for (auto [fact_lit, var, value, prec_lit] : factmap_) {
+            // Note: Order literals might have been introduced after the fact
+            // has been recorded. Thus, it does not help to know that the
+            // preceding/succeeding literal at that point is already true.
+            static_cast<void>(prec_lit);
             auto &vs = var_state(var);
             if (fact_lit == TRUE_LIT) {
-                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_upper_(lvl, cc, var, TRUE_LIT, value, -TRUE_LIT)) {
                     return false;
                 }
                 assert(vs.get_literal(value) == TRUE_LIT);
                 update_litmap_(vs, 0, value);
                 vs.unset_literal(value);
             } else {
-                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, prec_lit)) {
+                if (!update_lower_(lvl, cc, var, TRUE_LIT, value, TRUE_LIT)) {
                     return false;
                 }
                 assert(vs.get_literal(value) == -TRUE_LIT);
-- 
2.43.0


From efbdef2ad3968e919ac7ad09eefb2d50e1390545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 21/34] fix: support bounds on the objective exceeding the
 range of values

---
 libclingcon/src/constraints.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 744b097..0571366 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -776,13 +776,7 @@ class MinimizeConstraintState : public AbstractConstraintState {
 
     [[nodiscard]] static auto has_rhs(Solver &solver) -> bool { return solver.minimize_bound().has_value(); }
 
-    [[nodiscard]] static auto rhs(Solver &solver) -> val_t {
-        auto ret = *solver.minimize_bound();
-        if (MIN_VAL > ret || ret > MAX_VAL) {
-            throw std::overflow_error("bound value out of range");
-        }
-        return static_cast<val_t>(ret);
-    }
+    [[nodiscard]] static auto rhs(Solver &solver) -> sum_t { return *solver.minimize_bound(); }
 
     MinimizeConstraint &constraint_;
     sum_t lower_bound_{0};
-- 
2.43.0


From db09a48b020a9e81e80b38ed97dfdf842f8a574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 22/34] fix: do not translate minimize constraints with
 overflowing weights

---
 libclingcon/src/constraints.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 0571366..10531c8 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -752,11 +752,23 @@ class MinimizeConstraintState : public AbstractConstraintState {
             return {true, false};
         }
 
+        // Note: clasp sums up the weights of equal literals without checking
+        // for overflows.
+        sum_t fixed = -constraint_.adjust();
+        for (auto [co, var] : constraint_) {
+            fixed = safe_add<sum_t>(fixed, safe_mul<sum_t>(co, solver.var_state(var).min_bound()));
+        }
+        if (fixed < std::numeric_limits<val_t>::min() || fixed > std::numeric_limits<val_t>::max()) {
+            if (solver.translate_minimize()) {
+                throw std::overflow_error("minimize constraint cannot be translated");
+            }
+            return {true, false};
+        }
+
         solver.enable_translate_minimize();
-        cc.add_minimize(TRUE_LIT, -constraint_.adjust(), 0);
+        cc.add_minimize(TRUE_LIT, static_cast<val_t>(fixed), 0);
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
-            cc.add_minimize(TRUE_LIT, safe_mul(co, vs.min_bound()), 0);
             for (auto value = vs.min_bound(); value < vs.max_bound(); ++value) {
                 cc.add_minimize(-solver.get_literal(cc, vs, value), co, 0);
             }
-- 
2.43.0


From 1ff2fbd41bee43ca5a9d91b3d324d534673161e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 23/34] fix: watch order literals in threads that have not been
 started in previous steps

---
 libclingcon/src/propagator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 6654ee7..94b6764 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -440,7 +440,10 @@ void Propagator::init(Clingo::PropagateInit &init) {
     auto n = static_cast<size_t>(init.number_of_threads());
     for (size_t i = solvers_.size(); i < n; ++i) {
         solvers_.emplace_back(config_.solver_config(i), stats_step_.solver_stats(i));
-        // watches added in previous steps are unknown to new threads
+    }
+    // Note: Watches added in previous steps are unknown to threads that are
+    // new or that have not been started because the search was interrupted.
+    for (size_t i = 1; i < n; ++i) {
         master_().add_watches(init, static_cast<Clingo::id_t>(i));
     }
     while (solvers_.size() > n) {
-- 
2.43.0


From 36a0760601e39b4c6d9b61e043da5765e219b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 24/34] fix: only reject negative powers of zero

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index a3b0929..24128ef 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -258,7 +258,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From b7b5d7d7144b5897e0123f5265e83d20556e0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 25/34] fix: reject domain constraints over numbers

---
 libclingcon/src/parsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 24128ef..0d90759 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -802,6 +802,7 @@ void parse_show(AbstractConstraintBuilder &builder, Clingo::TheoryAtom const &at
 
     check_syntax(atom.has_guard(), "Invalid Syntax: invalid dom statement");
     auto var = evaluate(atom.guard().second);
+    check_syntax(var.type() != Clingo::SymbolType::Number, "Invalid Syntax: invalid dom statement");
 
     return builder.add_dom(builder.solver_literal(atom.literal()), builder.add_variable(var), elements);
 }
-- 
2.43.0


From aa3fa4ce0717f9e9cc772774db12a039f891991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 26/34] fix: register the decide callback depending on the
 theory being registered

---
 libclingcon/src/clingcon.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..744ec0a 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,9 +347,13 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    // Note: The structs have to stay valid as long as the control object and
+    // must not depend on the configuration of a specific theory.
+    static clingo_propagator_t const propagator = {init, propagate, undo, check, nullptr};
+    static clingo_propagator_t const propagator_heuristic = {init, propagate, undo, check, decide};
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
-           clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
+           clingo_control_register_propagator(control, has_heuristic ? &propagator_heuristic : &propagator,
+                                              &theory->propagator, false);
 }
 
 extern "C" auto clingcon_rewrite_ast(clingcon_theory_t *theory, clingo_ast_t *ast, clingcon_ast_callback_t add,
-- 
2.43.0


From acfa6fd9bf68cf950513295709ca8b23926d8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 27/34] fix: do not remove constraints from threads that have
 no state for them

---
 libclingcon/src/solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index eaac2d8..089e489 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -553,6 +553,11 @@ auto Solver::add_constraint(AbstractConstraint &constraint) -> AbstractConstrain
 void Solver::remove_constraint(AbstractConstraint &constraint) {
     auto lit = constraint.literal();
     auto it = c2cs_.find(&constraint);
+    // Note: There is no state if initialization stopped before the states of
+    // the master were copied.
+    if (it == c2cs_.end()) {
+        return;
+    }
     auto &cs = *it->second;
     cs.detach(*this);
 
-- 
2.43.0


From f1be7b68a933c2cc90ec9dc0565b63f8fbf33dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 28/34] fix: consider all bounds when checking for overflowing
 minimize constraints

---
 libclingcon/src/constraints.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 10531c8..186335b 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -752,13 +752,19 @@ class MinimizeConstraintState : public AbstractConstraintState {
             return {true, false};
         }
 
-        // Note: clasp sums up the weights of equal literals without checking
-        // for overflows.
+        // Note: clasp sums up the weights of equal and of fixed literals
+        // without checking for overflows.
         sum_t fixed = -constraint_.adjust();
+        sum_t lower = 0;
+        sum_t upper = 0;
         for (auto [co, var] : constraint_) {
-            fixed = safe_add<sum_t>(fixed, safe_mul<sum_t>(co, solver.var_state(var).min_bound()));
+            auto &vs = solver.var_state(var);
+            fixed = safe_add<sum_t>(fixed, safe_mul<sum_t>(co, vs.min_bound()));
+            auto diff = static_cast<sum_t>(co) * (static_cast<sum_t>(vs.max_bound()) - vs.min_bound());
+            (diff < 0 ? lower : upper) += diff;
         }
-        if (fixed < std::numeric_limits<val_t>::min() || fixed > std::numeric_limits<val_t>::max()) {
+        if (std::min(fixed, fixed + lower) < std::numeric_limits<val_t>::min() ||
+            std::max(fixed, fixed + upper) > std::numeric_limits<val_t>::max()) {
             if (solver.translate_minimize()) {
                 throw std::overflow_error("minimize constraint cannot be translated");
             }
-- 
2.43.0


From c12a6ec7bc2d852f0fcada1bccc240765fea8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 29/34] fix: do not undo levels that could not be opened

---
 libclingcon/clingcon/solver.hh | 2 +-
 libclingcon/src/propagator.cc  | 2 +-
 libclingcon/src/solver.cc      | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index eaf120f..6b34586 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -777,7 +777,7 @@ class Solver {
     //!
     //! This includes undoing changed bounds of variables clearing constraints
     //! that where not propagated on the current decision level.
-    void undo();
+    void undo(level_t level);
 
     [[nodiscard]] auto decide(Clingo::Assignment const &assign, lit_t fallback) -> lit_t;
     //! @}
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 94b6764..bfd00fc 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -543,7 +543,7 @@ void Propagator::check(Clingo::PropagateControl &control) {
 
 void Propagator::undo(Clingo::PropagateControl const &control, Clingo::LiteralSpan changes) noexcept {
     static_cast<void>(changes);
-    solver_(control.thread_id()).undo();
+    solver_(control.thread_id()).undo(control.assignment().decision_level());
 }
 
 auto Propagator::decide(Clingo::id_t thread_id, Clingo::Assignment const &assign, lit_t fallback) -> lit_t {
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 089e489..0eb6050 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -902,10 +902,15 @@ auto Solver::check(AbstractClauseCreator &cc, bool check_state) -> bool {
     }
 }
 
-void Solver::undo() {
+void Solver::undo(level_t level) {
     Timer timer{stats_.time_undo};
 
     auto &lvl = level_();
+    if (lvl.level() != level) {
+        // the level was not opened because of an error during propagation
+        assert(lvl.level() < level);
+        return;
+    }
     assert(lvl.level() != 0);
 
     lvl.undo(*this);
-- 
2.43.0


From ebcabd98525045dcd128198d2dbcd15e2b1d9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 30/34] fix: skip auxiliary variables when iterating over the
 assignment

---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 744ec0a..182059f 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -614,7 +614,7 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From fc7acd720c6a35088f977fceb98aa770e4b10277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 31/34] fix: do not translate sums whose weights exceed the
 solver's range

---
 libclingcon/src/constraints.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 186335b..97c2277 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -499,6 +499,7 @@ class SumConstraintState : public AbstractConstraintState {
         // Note: this magic number can be dangerous if there is a huge number of
         // variables.
         std::vector<Clingo::WeightedLiteral> wlits;
+        sum_t sum = 0;
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
             if (co > 0) {
@@ -506,6 +507,7 @@ class SumConstraintState : public AbstractConstraintState {
                 auto value = floordiv<sum_t>(diff, co);
                 assert(value >= vs.lower_bound());
                 for (sum_t i = vs.lower_bound(), e = std::min<sum_t>(value + 1, vs.upper_bound()); i != e; ++i) {
+                    sum += co;
                     wlits.emplace_back(-solver.get_literal(cc, vs, static_cast<val_t>(i)), co);
                 }
             } else {
@@ -513,11 +515,15 @@ class SumConstraintState : public AbstractConstraintState {
                 auto value = -floordiv<sum_t>(diff, -co);
                 assert(value <= vs.upper_bound());
                 for (sum_t i = std::max<sum_t>(value - 1, vs.lower_bound()), e = vs.upper_bound(); i != e; ++i) {
+                    sum -= co;
                     wlits.emplace_back(solver.get_literal(cc, vs, static_cast<val_t>(i)), -co);
                 }
             }
         }
-        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max()) {
+        // Note: The solver stores weights as well as sums over weights and the
+        // bound using 32 bit integers.
+        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max() &&
+            sum <= std::numeric_limits<val_t>::max() / 2) {
             // Note: For strict constraints, we can actually use the
             // equivalence here and only add one weight constraint instead of
             // two. In the current system design, this requires storing the
-- 
2.43.0


From f568f5f61acd016abad44e5f135ea5f105ee6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 32/34] fix: reject unknown options when configuring the theory

---
 libclingcon/src/clingcon.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 182059f..48fa8f1 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -439,6 +439,8 @@ extern "C" auto clingcon_configure(clingcon_theory_t *theory, char const *key, c
             set_value(Target::PropagateChain, config, parse_bool_thread(value));
         } else if (std::strcmp(key, "split-all") == 0) {
             set_value(Target::SplitAll, config, parse_bool_thread(value));
+        } else {
+            throw std::invalid_argument("invalid option");
         }
     }
     CLINGCON_CATCH;
-- 
2.43.0


From 58f7023893c64536aa9f16493fd481436f28d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 33/34] fix: only accept complete words as option values

---
 libclingcon/src/clingcon.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 48fa8f1..179b2b2 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -136,15 +136,21 @@ template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -
     return val;
 }
 
+//! Check if the given range equals the given string.
+[[nodiscard]] auto match_str(char const *begin, char const *end, char const *str) -> bool {
+    size_t len = end != nullptr ? end - begin : std::strlen(begin);
+    return len == std::strlen(str) && std::strncmp(begin, str, len) == 0;
+}
+
 template <class T>
 [[nodiscard]] auto parse_range_num(char const *begin, char const *end = nullptr,
                                    T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max())
     -> T {
     assert(min <= max);
-    if (strncmp(begin, "min", end - begin) == 0) {
+    if (match_str(begin, end, "min")) {
         return min;
     }
-    if (strncmp(begin, "max", end - begin) == 0) {
+    if (match_str(begin, end, "max")) {
         return max;
     }
     auto res = strtonum<T>(begin, end);
@@ -211,13 +217,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_bool(char const *begin, char const *end = nullptr) -> bool {
-    size_t len = end != nullptr ? end - begin : std::strlen(begin);
-    if (std::strncmp(begin, "true", len) == 0 || std::strncmp(begin, "yes", len) == 0 ||
-        std::strncmp(begin, "1", len) == 0) {
+    if (match_str(begin, end, "true") || match_str(begin, end, "yes") || match_str(begin, end, "1")) {
         return true;
     }
-    if (std::strncmp(begin, "false", len) == 0 || std::strncmp(begin, "no", len) == 0 ||
-        std::strncmp(begin, "0", len) == 0) {
+    if (match_str(begin, end, "false") || match_str(begin, end, "no") || match_str(begin, end, "0")) {
         return false;
     }
     throw std::invalid_argument("invalid argument");
@@ -247,10 +250,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "+", comma - value) == 0) {
+    if (match_str(value, comma, "+")) {
         return {std::numeric_limits<val_t>::max(), thread};
     }
-    if (std::strncmp(value, "-", comma - value) == 0) {
+    if (match_str(value, comma, "-")) {
         return {std::numeric_limits<val_t>::min(), thread};
     }
     return {parse_range_num<val_t>(value, comma), thread};
@@ -272,10 +275,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "none", comma - value) == 0) {
+    if (match_str(value, comma, "none")) {
         return {static_cast<val_t>(Heuristic::None), thread};
     }
-    if (std::strncmp(value, "max-chain", comma - value) == 0) {
+    if (match_str(value, comma, "max-chain")) {
         return {static_cast<val_t>(Heuristic::MaxChain), thread};
     }
     throw std::invalid_argument("invalid argument");
-- 
2.43.0


From 6b251b4153f7394f5de4081e35c002e4f1a51009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 34/34] fix: avoid overflows when propagating disjoint
 constraints with large weights

---
 libclingcon/src/constraints.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 97c2277..b0537dd 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1637,7 +1637,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         val_t last_left;
         val_t last_right;
         val_t weight;
-        val_t u;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
@@ -1666,7 +1666,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
@@ -1759,7 +1759,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             i->last_left = i->left;
             i->last_right = i->right;
 
-            u(i) = lower(i) + weight(i) - 1;
+            u(i) = static_cast<sum_t>(lower(i)) + weight(i) - 1;
 
             for (auto j = begin; j != i; ++j) {
                 if (lower(j) < lower(i)) {
-- 
2.43.0

