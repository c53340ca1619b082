From fff7294b9fafffd385fca9d7933e1bfe49d5a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/14] fix: restore the lower bound replaced by an equality
 bound

When an equality bound replaced both bounds of a variable, only the previous
upper bound was recorded on the trail; backtracking then overwrote the lower
bound with the previous upper bound.  If the upper bound had already been
recorded on the same level, the last trail entry (possibly belonging to
another variable) was turned into an equality entry.  Both lost answers.
---
 libclingo-lpx/src/solving.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..86b7ff7 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
-- 
2.43.0


From 6a910c3f665c86c254ea3620774b10f106031421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 02/14] fix: compare empty sums with the bound the right way
 around

A constraint whose sum is empty after simplification compares zero with its
right hand side.  The comparisons were reversed: `&sum { x - x } <= 1` was
rejected and `&sum { x - x } >= 1` was accepted.
---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 86b7ff7..bc1ea9b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -292,25 +292,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From 038eba7279926052950f88184a6d1b6d599caaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 03/14] fix: give conditional constants their value

The auxiliary variable for a constant with a condition was equated with an
unconstrained variable standing for the constant one, so that a term like
`10 : a` could take any value if `a` is true.
---
 libclingo-lpx/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..00df2a5 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,11 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From e86c86a68f9f2e29d0c8789bd590b63468d832ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 04/14] fix: reject division by zero in evaluated terms

Terms like `f(1/0)` aborted the process instead of raising a syntax error.
---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 00df2a5..d864667 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From 96a9240aaf1d9c0d854b0088442bdf67dddf67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 05/14] fix: compare big integers by value

The internal representation of the second integer, which is a tagged pointer
for big integers, was passed to a comparison with a machine integer.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From ab82bb8d98780f22ea4911907954612e17b1a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 06/14] fix: parse the objective in clingolpx_configure

The value was parsed as Boolean and written over the first byte of the step
value; the documented values local and global were rejected.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..66edafa 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,7 +383,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
-- 
2.43.0


From d90183bb9b934a2d71136d60e3d2deee4913e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 07/14] fix: pass the options to parse_propagate in
 clingolpx_configure

The function expects a pointer to the options. Passing a pointer to the
propagate mode left the mode unchanged and wrote behind it.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 66edafa..00b5568 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -389,7 +389,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
-- 
2.43.0


From 66f03a781cba42c27cf25a3bafc5f1956729fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 08/14] fix: name the right key in the error for invalid store
 values

---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 00b5568..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -395,7 +395,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From 2f37fe4ec760349ad57269994278cc00c8e45cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 09/14] fix: canonicalize the objective step value

Step values like 2/4 or 3/-6 were used in arithmetic, which expects canonical
rationals, leading to wrong bounds and values; a zero denominator was accepted.
---
 libclingo-lpx/src/clingo-lpx.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..827d20a 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -308,7 +308,12 @@ auto parse_objective(const char *value, void *data) -> bool {
         return true;
     }
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    auto step = Rational{value, 10};
+    if (step.den() == 0) {
+        return false;
+    }
+    step.canonicalize();
+    options.global_objective = RationalQ{std::move(step)};
     return true;
 }
 
-- 
2.43.0


From 892e5e259d40f12c7aac944e1ff012cb36e47b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 10/14] fix: sum step statistics over all threads

The step statistics only showed the values of the last thread; the
accumulated statistics were already summed.
---
 libclingo-lpx/src/solving.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index bc1ea9b..90846c7 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1090,12 +1090,16 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    size_t pivots = 0;
+    size_t propagated_bounds = 0;
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
-        accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
-        accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
+        pivots += slv.statistics().pivots;
+        propagated_bounds += slv.statistics().propagated_bounds;
     }
+    step_pivots.set_value(pivots);
+    accu_pivots.set_value(accu_pivots.value() + pivots);
+    step_propagated_bounds.set_value(propagated_bounds);
+    accu_propagated_bounds.set_value(accu_propagated_bounds.value() + propagated_bounds);
 }
 
 template <typename Value>
-- 
2.43.0


From 722582deaa0b4a4546018e0dd8c1f77c25b0b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 11/14] fix: name the key in the error for malformed objective
 steps

The exception thrown by the number parser replaced the error message (and passed
through clingo's option parser on the command line).
---
 libclingo-lpx/src/clingo-lpx.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 827d20a..e335515 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -307,8 +307,13 @@ auto parse_objective(const char *value, void *data) -> bool {
         options.global_objective = RationalQ{Rational{0}, Rational{1}};
         return true;
     }
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    auto step = Rational{value, 10};
+    auto step = Rational{};
+    try {
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+        step = Rational{value, 10};
+    } catch (std::runtime_error const &e) {
+        return false;
+    }
     if (step.den() == 0) {
         return false;
     }
-- 
2.43.0


From 6fa76ffa78abdeb356ff05ae7e87d62eff37ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 12/14] fix: tell conditions of different steps apart

Condition ids are only unique within a step. Auxiliary variables are kept over
steps, so that with multi-shot solving a conditional element could be tied to the
condition of an element of an earlier step.
---
 libclingo-lpx/src/parsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index d864667..5252b51 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -344,10 +344,11 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                // condition ids are only unique within a step
+                auto lit = mapper(elem.condition_id());
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
-- 
2.43.0


From 0aae56ad40b10d1810cd9cd7809bf53586930dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 13/14] fix: replay the facts of each thread in later steps

Only the facts of the first thread were recorded and replayed in all threads, so
that threads ahead of it lost constraints true on the top level when solving again.
Furthermore, the vector of facts was extended while other threads were reading it.
---
 libclingo-lpx/src/solving.cc | 25 ++++++++++++++++++-------
 libclingo-lpx/src/solving.hh |  4 ++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 90846c7..3126f01 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,8 +1039,17 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
-    facts_offset_ = facts_.size();
-    if (facts_offset_ > 0 || options_.global_objective.has_value()) {
+    // the facts each thread has been notified about in earlier steps
+    if (facts_.size() < init.number_of_threads()) {
+        facts_.resize(init.number_of_threads());
+    }
+    facts_offset_.clear();
+    bool has_facts = false;
+    for (auto const &facts : facts_) {
+        facts_offset_.emplace_back(facts.size());
+        has_facts = has_facts || !facts.empty();
+    }
+    if (has_facts || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
     }
 
@@ -1123,9 +1132,10 @@ template <typename Value> void Propagator<Value>::on_model(Clingo::Model const &
 template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl &ctl) {
     auto ass = ctl.assignment();
     auto &[offset, slv] = slvs_[ctl.thread_id()];
-    if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_}); // NOLINT
-        offset = facts_offset_;
+    auto const &facts = facts_[ctl.thread_id()];
+    if (auto end = facts_offset_[ctl.thread_id()]; ass.decision_level() == 0 && offset < end) {
+        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts.data() + offset, end - offset}); // NOLINT
+        offset = end;
         // can happen in case of a top-level conflict
         if (!res) {
             return;
@@ -1153,9 +1163,10 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
     auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
+    if (ass.decision_level() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
+        auto &facts = facts_[ctl.thread_id()];
+        facts.insert(facts.end(), changes.begin(), changes.end());
     }
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..51a2519 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -304,8 +304,8 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     SymbolVec var_vec_;
     std::vector<Term> objective_;
     std::vector<Inequality> iqs_;
-    size_t facts_offset_{0};
-    std::vector<Clingo::literal_t> facts_;
+    std::vector<size_t> facts_offset_;
+    std::vector<std::vector<Clingo::literal_t>> facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From d6cafd42d7c0d68c602851468d6c32b90558f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:27 +0000
Subject: [PATCH 14/14] fix: report no value for assignment indices beyond the
 range of variable indices

---
 libclingo-lpx/src/clingo-lpx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index e335515..6129cbb 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -29,6 +29,7 @@
 #include <clingo.h>
 #include <clingo.hh>
 
+#include <limits>
 #include <optional>
 #include <sstream>
 #include <stdexcept>
@@ -148,7 +149,7 @@ template <typename Value> class LPXPropagatorFacade : public PropagatorFacade {
     auto get_symbol(size_t index) -> clingo_symbol_t override { return prop_.get_symbol(index - 1).to_c(); }
 
     auto has_value(uint32_t thread_id, size_t index) -> bool override {
-        return index > 0 && prop_.has_value(thread_id, index - 1);
+        return index > 0 && index - 1 <= std::numeric_limits<index_t>::max() && prop_.has_value(thread_id, index - 1);
     }
 
     void get_value(uint32_t thread_id, size_t index, clingolpx_value_t *value) override {
-- 
2.43.0

