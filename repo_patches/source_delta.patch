From 3bf7cc9151333ebfc83c801ea4997af914af28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 01/79] fix: do not form a pointer before the start of a watch
 list when purging

An empty std::vector has a null data(), so data() - 1 is undefined behaviour
(reported by UBSan in every chronological backtracking run that purges).
---
 src/solver/NapSAT-purge.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 15abf14..22934cd 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -74,10 +74,8 @@ void napsat::NapSAT::purge_root_watch_lists()
     vector<TSwatch>& watch_list = _watches[lit];
     TSwatch* j = watch_list.data();
     TSwatch* k = j;
-    // start one before so that we just need to increment at the start of the loop
-    j--;
     TSwatch* end = j + watch_list.size();
-    while (j++ < end) {
+    for (; j < end; j++) {
       TSwatch &w = *j;
       Tclause cl = w.cl;
       TSclause& clause = _clauses[cl];
-- 
2.43.0


From 50a57fbd738f2ab4a39a3771ece221ee5f87b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 02/79] fix: approximate chunk weights used stale or missing
 contributions

The cached chunk set was keyed on an earlier literal, so a literal could be
accounted with the chunks of another one, and literals shared by all candidate
chunks were left out of the sum estimation although they count once per chunk.
Debug builds aborted on the related assertions with -max-approx-cost and
-sum-approx-cost.
---
 src/solver/NapSAT-conflict.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..cf529a6 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -538,11 +538,14 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       lit_chunks_set = lit_chunks(lit);
       lit_chunks_set &= counted_chunks;
       count = lit_chunks_set.count();
-    } else {
-      last_chunks = &lit_chunks(lit);
     }
-    // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
-    if (count == 0 || count == counted_chunk_size)
+    last_chunks = &lit_chunks(lit);
+    // if the literal belongs to none of the counted chunks, it does not contribute to any weight
+    if (count == 0)
+      continue;
+    // if it belongs to all of them, the max estimation of each weight changes by the same amount.
+    // This does not hold for the sum estimation, where it counts once per chunk of the weight.
+    if (count == counted_chunk_size && !_options.use_sum_approximate_cost_estimation)
       continue;
 
     double lit_cost = literal_cost(lit);
-- 
2.43.0


From b5faeb70f67bc91aa971ca3772470cdf7afc16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 03/79] fix: justify input clauses reduced by root-level
 literals in the proof

An input clause whose literals were all false at level 0 made the solver UNSAT
without the empty clause being derived (check_proof/print_proof then aborted,
or read out of bounds in release builds). Literals falsified at level 0 were
removed using a partial record of the root assignments, looking only at the
literals of the original clause; use the trail like the purge does.
---
 src/solver/NapSAT-clauses.cpp | 11 ++++-------
 src/solver/NapSAT.cpp         | 19 +++++++++++++++++++
 src/solver/NapSAT.hpp         | 13 +++++++++++++
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..61090b3 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -191,6 +191,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (clause_size == 0) {
     _status = status::UNSAT;
+    if (_proof && external)
+      prove_input_clause(id, lits_input, input_size, lits, 0);
     return id;
   }
 
@@ -224,13 +226,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = new_size;
   }
 
-  if (_proof && external) {
-    _proof->input_clause(id, lits_input, input_size);
-    // Remove the literals falsified at level 0 in the proof
-    if (n_removed > 0) {
-      _proof->remove_root_literals(id);
-    }
-  }
+  if (_proof && external)
+    prove_input_clause(id, lits_input, input_size, lits, clause.size);
   if (_dependency_tracker && external) {
     _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..323208c 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -62,6 +62,25 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
   }
 }
 
+void napsat::NapSAT::prove_input_clause(Tclause id, const Tlit* input_lits, unsigned input_size, const Tlit* lits, unsigned size)
+{
+  ASSERT(_proof);
+  _proof->input_clause(id, input_lits, input_size);
+  vector<Tlit> removed;
+  for (unsigned i = 0; i < input_size; i++)
+    if (lit_level(input_lits[i]) == LEVEL_ROOT)
+      removed.push_back(input_lits[i]);
+  if (removed.empty())
+    return;
+  // Remove the literals falsified at level 0 in the proof
+  _proof->start_resolution_chain();
+  _proof->link_resolution(LIT_UNDEF, id);
+  prove_root_literal_removal(removed.data(), removed.size());
+  // we need to deactivate the clause to be able to replace it
+  _proof->deactivate_clause(id);
+  _proof->finalize_resolution(id, lits, size);
+}
+
 void NapSAT::restart()
 {
   NOTIFY_STAT(_n_restart);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..99af85d 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2363,6 +2363,19 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Adds an input clause to the proof and, if some of its literals are falsified at level
+     * 0, the resolution chain that removes them.
+     * @param id the id of the clause
+     * @param input_lits the literals of the clause, as given by the user
+     * @param input_size number of literals given by the user
+     * @param lits the literals of the clause without those falsified at level 0
+     * @param size number of literals not falsified at level 0
+     * @pre the proof system is enabled
+     * @pre all the literals in the trail must be unmarked
+     */
+    void prove_input_clause(Tclause id, const Tlit* input_lits, unsigned input_size, const Tlit* lits, unsigned size);
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From 2f421ab14117a16b1190376b45830acee1268bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 04/79] fix: solvers created, reported and parsed with one
 variable too many (or too few)

---
 src/solver/NapSAT-utils.cpp | 6 +++---
 src/solver/NapSAT.cpp       | 4 ++--
 src/solver/NapSAT.hpp       | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..4df7dde 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -106,7 +106,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != var_string.size())
             throw invalid_argument(var_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -146,7 +146,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
@@ -170,7 +170,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (first_line) {
         unsigned n_var, n_clauses;
         sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var > _vars.size().value) {
+        if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 323208c..821f248 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -278,7 +278,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   // TODO replace this with an std::vector
   _lit_buffer = new Tlit[2*n_var+1];
   _lit_buffer_size = 0;
-  var_allocate(n_var + 1);
+  var_allocate(n_var);
 
   if (options.build_proof)
     _proof = new napsat::proof::resolution_proof();
@@ -294,7 +294,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 99af85d..7436baa 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -223,7 +223,7 @@ namespace napsat
      * @brief Returns the number of variables in the solver.
      * @return the number of variables in the solver.
      */
-    inline Tvar var_count() const noexcept { return _vars.size(); }
+    inline Tvar var_count() const noexcept { return _vars.size() - 1; }
 
     /**
      * @brief Parse a DIMACS file and add the clauses to the clause set.
-- 
2.43.0


From f240fd5bff9c4310e157352f5fabf25b967b82fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 05/79] fix: NCB and CB re-implied already correctly implied
 literals when adding a clause

---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From 5a36cbc1bfd36d01b7dfcec46d959aee5b770357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 06/79] fix: GB rejected learned clauses whose literals were
 falsified at level 0 by an earlier one

When several conflicts are repaired at once, the first learned clauses may
propagate literals of the next ones at level 0. Remove them, and justify it in
the proof.
---
 src/solver/NapSAT-clauses.cpp | 10 ++++++----
 src/solver/NapSAT.cpp         | 12 +++++++++---
 src/solver/NapSAT.hpp         | 13 +++++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 61090b3..06d6575 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,10 +127,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
-        "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
-      // The solver should not generate redundant literals and clauses
+      // A learned clause may also contain such literals: when several conflicts are repaired at once, the
+      // clauses added first may propagate at level 0 a literal of the next ones.
       satisfied_at_root |= lit_true(l);
       n_removed++;
     }
@@ -193,6 +191,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     _status = status::UNSAT;
     if (_proof && external)
       prove_input_clause(id, lits_input, input_size, lits, 0);
+    else if (_proof && n_removed > 0)
+      prove_reduced_clause(id, lits_input, input_size, lits, 0);
     return id;
   }
 
@@ -228,6 +228,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (_proof && external)
     prove_input_clause(id, lits_input, input_size, lits, clause.size);
+  else if (_proof && n_removed > 0)
+    prove_reduced_clause(id, lits_input, input_size, lits, clause.size);
   if (_dependency_tracker && external) {
     _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 821f248..1b8b467 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -66,10 +66,16 @@ void napsat::NapSAT::prove_input_clause(Tclause id, const Tlit* input_lits, unsi
 {
   ASSERT(_proof);
   _proof->input_clause(id, input_lits, input_size);
+  prove_reduced_clause(id, input_lits, input_size, lits, size);
+}
+
+void napsat::NapSAT::prove_reduced_clause(Tclause id, const Tlit* full_lits, unsigned full_size, const Tlit* lits, unsigned size)
+{
+  ASSERT(_proof);
   vector<Tlit> removed;
-  for (unsigned i = 0; i < input_size; i++)
-    if (lit_level(input_lits[i]) == LEVEL_ROOT)
-      removed.push_back(input_lits[i]);
+  for (unsigned i = 0; i < full_size; i++)
+    if (lit_level(full_lits[i]) == LEVEL_ROOT)
+      removed.push_back(full_lits[i]);
   if (removed.empty())
     return;
   // Remove the literals falsified at level 0 in the proof
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 7436baa..c5adf42 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2376,6 +2376,19 @@ public:
      */
     void prove_input_clause(Tclause id, const Tlit* input_lits, unsigned input_size, const Tlit* lits, unsigned size);
 
+    /**
+     * @brief Adds to the proof the resolution chain that removes from a clause its literals falsified
+     * at level 0. If there are none, the proof is left unchanged.
+     * @param id the id of the clause. It must be in the proof with all its literals.
+     * @param full_lits the literals of the clause
+     * @param full_size number of literals of the clause
+     * @param lits the literals of the clause without those falsified at level 0
+     * @param size number of literals not falsified at level 0
+     * @pre the proof system is enabled
+     * @pre all the literals in the trail must be unmarked
+     */
+    void prove_reduced_clause(Tclause id, const Tlit* full_lits, unsigned full_size, const Tlit* lits, unsigned size);
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From 0faef830fe1f0719cdf68f8e12ec97b475964266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 07/79] fix: the id of the empty clause in the proof could be
 given to a clause added later

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index cf529a6..f68ae55 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -435,6 +435,8 @@ bool NapSAT::root_level_conflict()
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        // the empty clause is not in the clause set. The next clause may use this id
+        _proof->deactivate_clause(_clauses.size());
       }
       return true;
     }
-- 
2.43.0


From 93484d0c6884f78d268a4eb86558d50f7de04145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 08/79] fix: the empty clause could not be added without a
 literal buffer

---
 src/solver/NapSAT-clauses.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 06d6575..51bc6ed 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -108,7 +108,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             bool external,
                                             Tclause id)
 {
-  ASSERT(lits_input != nullptr);
+  ASSERT(lits_input != nullptr || input_size == 0);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
   if (external) {
@@ -172,7 +172,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   // copy the literals to the clause
   if (n_removed == 0)
-    memcpy(lits, lits_input, input_size * sizeof(Tlit));
+    copy(lits_input, lits_input + input_size, lits);
   else {
     // cannot use memcpy because we skip the literals falsified at level 0
     for (unsigned i = 0, j = 0; i < input_size; i++) {
-- 
2.43.0


From a5f9e2f04af444a54adca2c72b541651d24cbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 09/79] fix: lazy chunk merging kept lazy reasons of literals
 re-implied at level 0

---
 src/solver/NapSAT-imply.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..f924df5 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -162,6 +162,17 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
     _decision_index.resize(_decision_index.size() - 1);
+    // the literal is no longer a decision, and the lazy reimplications must not refer to the freed chunk
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
+    if (_options.lazy_chunk_merging) {
+      for (TSchunk& chunk : _chunks) {
+        if (!chunk.is_reimplied || !chunk.missed_implication.get(ck))
+          continue;
+        lit_lazy_reason(Tlit(chunk.decision, 1)) = CLAUSE_UNDEF;
+        chunk.missed_implication.clear();
+        chunk.is_reimplied = false;
+      }
+    }
   }
 
   // update the level of the literal to root
-- 
2.43.0


From 422c154229eaf9cc98a1d0d35c796b1323773422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 10/79] fix: lazy chunk merging discarded the possibilities
 already containing a merged chunk

No possibility could be left, and the solver answered UNSAT.
---
 src/solver/NapSAT-conflict.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index f68ae55..1779ca4 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -102,12 +102,17 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
       merged_chunks -= _locked_chunks;
     }
 
+    if (merged_chunks.has_intersection(current)) {
+      // we already have one of the chunks, any larger combination would be subsumed
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
+      if (combinations.size() > _options.backtrack_possibilities_limit) {
+        return;
+      }
+      continue;
+    }
+
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
       Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
       next_current.set(c2, true);
       compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-- 
2.43.0


From 257a07c5b497ce709814b68d25053bce2ae95355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 11/79] fix: the trail was printed with the lazy reimplications
 of other chunks

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4df7dde..8191c6d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -834,7 +834,7 @@ void NapSAT::print_trail() const
       cout << " (γ = " << lit_chunks(lit).to_string() << ", ";
       cout <<   "η = " << (lit_cross_chunks(lit) - lit_chunks(lit)).to_string();
       if (lit_decision(lit) && lit_lazy_reason(lit) != CLAUSE_UNDEF) {
-        cout << ", ξ = " << _chunks[lit.var()].missed_implication.to_string();
+        cout << ", ξ = " << _chunks[*lit_chunks(lit).cbegin()].missed_implication.to_string();
       }
       cout << ")";
     }
-- 
2.43.0


From ecfaca2cf90eed17852a08bd41aa33f8c282e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 12/79] fix: lazy chunk merging kept lazy reasons after their
 literals moved to level 0

---
 src/solver/NapSAT-imply.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index f924df5..04d0c12 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -162,17 +162,8 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
     _decision_index.resize(_decision_index.size() - 1);
-    // the literal is no longer a decision, and the lazy reimplications must not refer to the freed chunk
+    // the literal is no longer a decision
     lit_lazy_reason(lit) = CLAUSE_UNDEF;
-    if (_options.lazy_chunk_merging) {
-      for (TSchunk& chunk : _chunks) {
-        if (!chunk.is_reimplied || !chunk.missed_implication.get(ck))
-          continue;
-        lit_lazy_reason(Tlit(chunk.decision, 1)) = CLAUSE_UNDEF;
-        chunk.missed_implication.clear();
-        chunk.is_reimplied = false;
-      }
-    }
   }
 
   // update the level of the literal to root
@@ -275,6 +266,24 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
         }
       }
     }
+
+    if (_options.lazy_chunk_merging) {
+      // the chunks of the literals changed. Forget the lazy reimplications that depended on them
+      for (TSchunk& chunk : _chunks) {
+        if (!chunk.is_reimplied)
+          continue;
+        Tclause& lazy_reason = lit_lazy_reason(Tlit(chunk.decision, 1));
+        ASSERT(lazy_reason != CLAUSE_UNDEF);
+        bitset chunks(_n_allocated_chunks);
+        for (unsigned j = 1; j < clause_size(lazy_reason); j++)
+          chunks |= lit_chunks(clause_lits(lazy_reason)[j]);
+        if (chunks != chunk.missed_implication) {
+          lazy_reason = CLAUSE_UNDEF;
+          chunk.missed_implication.clear();
+          chunk.is_reimplied = false;
+        }
+      }
+    }
   }
 
   ASSERT(check_decision_index_consistency());
-- 
2.43.0


From 458b80dcfbc9c0b578b278bae579b7ea44275c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 13/79] fix: the level of a missed implication was wrong in GB
 when the second literal was not the highest

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index c5adf42..f6015b3 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1421,6 +1421,9 @@ public:
       ASSERT(lit_level(lit) > LEVEL_ROOT);
       ASSERT(check_clause_implying(l_reason));
       ASSERT(clause_size(l_reason) > 1);
+      // in GB, the second literal is not necessarily at the highest level
+      if (_options.graph_backtracking)
+        return implication_level(l_reason);
       ASSERT(lit_is_max_literal(lits[1], lits + 1, clause_size(l_reason) - 1));
       return lit_level(lits[1]);
     }
-- 
2.43.0


From 2b7270fedb8c44bc73802456b89e5f42cabf669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 14/79] fix: solve ignored the conflict limit and went on from
 an unrepaired conflict

---
 src/solver/NapSAT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 1b8b467..769a9a2 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -438,6 +438,10 @@ status NapSAT::solve()
         }
         break;
       }
+      if (_status == status::UNKNOWN) {
+        // the conflict limit was reached. The conflict will be repaired if the solver is called again
+        break;
+      }
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From 0fe02e67d3d361f86ea8d8251d1bc8a5bdf64737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 15/79] fix: the polarity suggested by the user was never used

---
 src/solver/NapSAT.cpp |  4 +++-
 src/solver/NapSAT.hpp | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 769a9a2..7caab0e 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -523,7 +523,9 @@ bool NapSAT::decide()
   // bool value = (rand() % 2) == 0;
   // Tlit lit = literal(var, value);
   // Tlit lit = literal(var, false);
-  Tlit lit = Tlit(var, _vars[var].synced);
+  TSvar& svar = _vars[var];
+  Tlit lit = Tlit(var, svar.suggested ? svar.suggested_polarity : svar.synced);
+  svar.suggested = false;
   imply_literal(lit, CLAUSE_UNDEF);
   return true;
 }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index f6015b3..3c32002 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -469,9 +469,8 @@ namespace napsat
 
     /**
      * @brief Suggest a polarity for a variable.
-     * @details When the variable is decided, it will be assigned the suggested
-     * polarity, unless it has already been assigned, in which case the phase_cache
-     * will be used.
+     * @details The next time the variable is decided by the solver, it will be assigned the
+     * suggested polarity.
      * @param lit literal whose variable will have a suggested polarity.
      * @param polarity suggested polarity. true for positive, false for negative.
      */
@@ -479,7 +478,8 @@ namespace napsat
     {
       Tvar var = lit.var();
       ASSERT(var < _vars.size());
-      _vars[var].phase_cache = polarity ? 1 : 0;
+      _vars[var].suggested = true;
+      _vars[var].suggested_polarity = polarity ? 1 : 0;
     }
 
     void set_weight_function(std::function<double(Tlit)> func) {
@@ -538,6 +538,8 @@ public:
         state(Tval::UNDEF),
         phase_cache(0),
         synced(0),
+        suggested(false),
+        suggested_polarity(0),
         constrained(0),
         locked(0)
       {}
@@ -602,6 +604,16 @@ public:
        */
       unsigned synced : 1;
 
+      /**
+       * @brief True if the user suggested a polarity that no decision has used yet.
+       */
+      unsigned suggested : 1;
+
+      /**
+       * @brief Polarity suggested by the user.
+       */
+      unsigned suggested_polarity : 1;
+
       /**
        * @brief True if at least one clause constraints this variable.
        */
-- 
2.43.0


From f6891b03b454fb3aca12e472394434140f1a53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 16/79] fix: bitset::empty ignored the elements described by
 all but the first metadata word

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From f785d8ee13bfb20099074ee57d12b198be4dfe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 17/79] fix: a truncated bitset was printed with the wrong
 number of remaining elements

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3ed90ad..627347d 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -532,7 +532,7 @@ std::string bitset::to_string() const {
     }
     if (--lim == 0) {
       result += "... ";
-      unsigned left = count() - 20;
+      unsigned left = count() - 1000;
       result += std::to_string(left) + " more";
       break;
     }
-- 
2.43.0


From d57e541756b3c985fb74b0a1ed17ee2062f78a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 18/79] fix: heap::remove could leave the heap out of order

---
 src/utils/heap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..7bba2b1 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,12 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
-    heapify_down(i);
+  if (i < _heap.size()) {
+    // the element that took the place may come from another subtree, and have a higher activity than its new parent
+    Tvar moved = _heap[i];
+    heapify_up(i);
+    heapify_down(_index[moved]);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 694543edfda7041b61dc3762add47c213529280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 19/79] fix: an empty bitset of size 0 asked for an enormous
 capacity

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 627347d..4bed276 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -78,7 +78,7 @@ bitset::bitset() noexcept : _bits(1) {
   assert(_bits[0] == 0);
 }
 
-bitset::bitset(size_t size) noexcept : _bits(MP(size-1) + 1, M_NEXT_MSK) {
+bitset::bitset(size_t size) noexcept : _bits(size ? MP(size-1) + 1 : 1, M_NEXT_MSK) {
   // clear the last entry
   _bits.back() = 0;
 }
-- 
2.43.0


From 415995eae796e9059bd528ced0094ff5d8ab246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 20/79] fix: parsing a file with a name shorter than an
 extension threw an exception

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 8191c6d..87ddc2b 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -51,7 +51,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +60,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From bd03c5a397ca45d318d9c157cbcced03015795fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 21/79] fix: comments giving an alias or a weight to a variable
 that is not positive were accepted

---
 src/solver/NapSAT-utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 87ddc2b..ce1bd7a 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -102,9 +102,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_index = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_index <= 0)
             throw invalid_argument(var_string);
+          Tvar var = var_index;
           if (var >= _vars.size())
             var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
@@ -139,9 +140,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_index = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_index <= 0)
             throw invalid_argument(var_string);
+          Tvar var = var_index;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
-- 
2.43.0


From b5216183be3e57e9a56531871ccfcaaa64d3f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 22/79] fix: a DIMACS header without its numbers was read from
 uninitialised memory

---
 src/solver/NapSAT-utils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index ce1bd7a..9de067d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -170,9 +170,13 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
-        sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var >= _vars.size().value) {
+        int n_var, n_clauses;
+        if (sscanf(line.c_str(), "p cnf %d %d", &n_var, &n_clauses) != 2 || n_var < 0 || n_clauses < 0) {
+          LOG_ERROR("The line \"" << line << "\" is not a valid header.");
+          _status = status::ERROR;
+          return false;
+        }
+        if ((unsigned) n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
-- 
2.43.0


From d9a2119b3112910f9c04be2980a524add6496af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 23/79] fix: DIMACS clauses that are not written one per line
 were split or truncated

---
 src/solver/NapSAT-utils.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 9de067d..1b7fba6 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -21,6 +21,7 @@
 #include <fstream>
 #include <iomanip>
 #include <algorithm>
+#include <climits>
 
 #define ORANGE "\033[0;33m"
 #define GREEN "\033[0;32m"
@@ -80,6 +81,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   }
 
   string line;
+  vector<Tlit> clause;
   bool first_line = true;
   while (getline(stream, line)) {
     ltrim(line);
@@ -189,29 +191,31 @@ bool NapSAT::parse_dimacs(const char* filename)
 
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while(ss >> token) {
       int lit;
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        if (pos != token.size() || lit == INT_MIN)
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (lit != 0) {
+        clause.push_back(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      add_clause(clause.data(), clause.size());
+      clause.clear();
+      if (_status == status::UNSAT)
+        return true;
     }
-    finalize_clause();
-    if (_status != status::UNKNOWN)
-      return true;
   }
+  // be lenient with a last clause without its terminating 0
+  if (!clause.empty())
+    add_clause(clause.data(), clause.size());
   return true;
 }
 
-- 
2.43.0


From e8f851e05e5f93315c2d1a8079b16a92e3e1d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 24/79] fix: truncated or multi-stream xz files were read up to
 the end of what was decoded

---
 src/utils/decoder.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..b6d786b 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -100,7 +100,7 @@ static string byte_size_to_string(uint64_t n_bytes) {
 bool decompress_xz(const char* filename, ostringstream& output)
 {
   lzma_stream strm = LZMA_STREAM_INIT;
-  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, 0);
+  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, LZMA_CONCATENATED);
   if (ret != LZMA_OK) {
     LOG_ERROR("failed to initialize the decompression stream");
     return false;
@@ -108,6 +108,7 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -115,22 +116,25 @@ bool decompress_xz(const char* filename, ostringstream& output)
   char buffer_out[buff_size];
 
   do {
-    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
-    if (strm.avail_in == 0)
-      break;
+    file.read(buffer_in, sizeof(buffer_in));
+    strm.avail_in = file.gcount();
+    // at the end of the file, let the decoder check that the last stream is complete
+    const lzma_action action = strm.avail_in == 0 ? LZMA_FINISH : LZMA_RUN;
     strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
     do {
       strm.avail_out = sizeof(buffer_out);
       strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
-      ret = lzma_code(&strm, LZMA_RUN);
+      ret = lzma_code(&strm, action);
       if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
         print_error_message(ret);
+        lzma_end(&strm);
         return false;
       }
       output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
     } while (strm.avail_out == 0);
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
-- 
2.43.0


From 523829ac38cedb2dfa654c4024c77c5ed05d7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 25/79] fix: only the first stream of a multi-stream bz2 file
 was read

---
 src/utils/decoder.cpp | 50 +++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index b6d786b..1ea8b0b 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -21,6 +21,7 @@
 #include <lzma.h>
 #include <bzlib.h>
 #include <string>
+#include <cstring>
 #include <sstream>
 
 using namespace std;
@@ -149,24 +150,41 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
         return false;
     }
 
-    BZFILE* bzFile = nullptr;
-    int bzError;
-    bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, nullptr, 0);
-    if (bzError != BZ_OK) {
-        fclose(file);
-        return false;
-    }
-
-    while (bzError == BZ_OK) {
-        int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
-        if (bytesRead > 0) {
-            output.write(buffer, bytesRead);
+    // the file may contain several streams (as written by parallel compressors)
+    char unused[BZ_MAX_UNUSED];
+    int nUnused = 0;
+    int bzError = BZ_OK;
+    bool success = true;
+    do {
+        int closeError;
+        BZFILE* bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, unused, nUnused);
+        nUnused = 0;
+        while (bzError == BZ_OK) {
+            int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
+            if (bytesRead > 0) {
+                output.write(buffer, bytesRead);
+            }
         }
-    }
-
-    bool success = (bzError == BZ_STREAM_END);
+        success = (bzError == BZ_STREAM_END);
+        if (success) {
+            // keep what was read after the end of the stream
+            void* rest = nullptr;
+            BZ2_bzReadGetUnused(&bzError, bzFile, &rest, &nUnused);
+            success = (bzError == BZ_OK);
+            if (success) {
+                memmove(unused, rest, nUnused);
+            }
+        }
+        BZ2_bzReadClose(&closeError, bzFile);
+        if (success && nUnused == 0) {
+            // look for another stream
+            int next = fgetc(file);
+            if (next == EOF)
+                break;
+            ungetc(next, file);
+        }
+    } while (success);
 
-    BZ2_bzReadClose(&bzError, bzFile);
     fclose(file);
 
     return success;
-- 
2.43.0


From 3d66d29e40471bea1ab2789d55cbb09fd7b6c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 26/79] fix: parsing a directory threw an exception

---
 src/solver/NapSAT-utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 1b7fba6..3d5885d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -77,6 +77,13 @@ bool NapSAT::parse_dimacs(const char* filename)
       _status = status::ERROR;
       return false;
     }
+    // opening a directory succeeds, but reading it does not
+    file.peek();
+    if (file.bad()) {
+      LOG_ERROR("The file " << filename << " could not be read.");
+      _status = status::ERROR;
+      return false;
+    }
     stream = istringstream(string((istreambuf_iterator<char>(file)), istreambuf_iterator<char>()));
   }
 
-- 
2.43.0


From fdd8663114686ab671c68853ef572d7042459f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 27/79] fix: the proof checker read out of bounds on, or
 accepted, derivations that are not resolutions

---
 src/proof/proof.cpp | 66 ++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..3029039 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -163,28 +163,34 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     return true;
   }
   tmp_lits.clear();
-  for (pair<Tlit, unsigned> link : c.resolution_chain) {
-    Tlit pivot = link.first;
-    assert(link.second < clauses.size());
-    clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
-
-    if (pivot == LIT_UNDEF)
+  for (size_t k = 0; k < c.resolution_chain.size(); k++) {
+    const Tlit pivot = c.resolution_chain[k].first;
+    const TclauseID resolvent = c.resolution_chain[k].second;
+    // a clause can only be derived from the clauses that were in the proof before it
+    if (resolvent >= index) {
+      LOG_ERROR("The clause " << index << " is derived from the clause " << resolvent << " which is not before it in the proof");
+      return false;
+    }
+    clause &cl = clauses[resolvent];
+    if (k == 0) {
+      for (unsigned i = 0; i < cl.size; i++)
+        binary_insert(tmp_lits, cl.lits[i]);
       continue;
-
+    }
+    // C <- (C \ {pivot}) u (C' \ {~pivot})
     unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
+    if (pivot == LIT_UNDEF || pivot_index == tmp_lits.size()) {
+      LOG_ERROR("The pivot " << pivot.to_string() << " of the derivation of the clause " << index << " is not in the resolved clause");
+      return false;
+    }
+    if (binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+      LOG_ERROR("The negation of the pivot " << pivot.to_string() << " of the derivation of the clause " << index << " is not in the clause " << resolvent);
+      return false;
+    }
     tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+    for (unsigned i = 0; i < cl.size; i++)
+      if (cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
   }
 
   if(tmp_lits.size() != c.size) {
@@ -233,8 +239,7 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
   }
 
   // check if the clause is a tautology
-  assert(!check_tautology(c.lits, c.size));
-  return true;
+  return !check_tautology(c.lits, c.size);
 }
 
 void resolution_proof::root_assign(napsat::Tlit lit, napsat::Tclause reason)
@@ -281,23 +286,28 @@ void resolution_proof::deactivate_clause(napsat::Tclause id)
 
 bool resolution_proof::check_proof(void)
 {
-  assert(empty_clause_id != 0xFFFFFFFF);
+  if (empty_clause_id == 0xFFFFFFFF) {
+    LOG_ERROR("The empty clause is not in the proof");
+    return false;
+  }
+  bool success = true;
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  while(success && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
-    clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    if (clauses[index].marked)
+      continue;
+    clauses[index].marked = true;
+    success = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      if (!clauses[link.second].marked)
+      if (success && !clauses[link.second].marked)
         clauses_to_check.push_back(link.second);
   }
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return success;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From be1cbe3465016ae350ca8ba12418dcda6db166b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 28/79] fix: printing a proof took a time exponential in the
 sharing of its clauses

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 3029039..d0ce295 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -381,7 +381,8 @@ void resolution_proof::print_proof(void)
     clause &c = clauses[index];
     c.marked = true;
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      clauses_to_check.push_back(link.second);
+      if (!clauses[link.second].marked)
+        clauses_to_check.push_back(link.second);
   }
 
   for (unsigned index = 0; index < clauses.size(); index++) {
-- 
2.43.0


From 969cd8eea74e994f58ca8796fda62cf28d7a59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 29/79] fix: numeric options rejected negative values and
 accepted, or threw on, malformed ones

---
 src/utils/options.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..e267529 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -143,19 +143,22 @@ namespace napsat
   bool DoubleOption::consume(const vector<string>& tokens, unsigned& i)
   {
     string next_token = (i + 1 < tokens.size()) ? tokens[i + 1] : "";
-    if (next_token.empty() || next_token[0] == '-') {
-      LOG_WARNING("option " << tokens[i] << " requires a value (floating point number).");
-      LOG_WARNING("Default value " << _storage << " is used.");
-      return false;
-    }
+    // the value might be negative, so a leading '-' does not always start another option
+    double value = 0;
+    size_t n_read = 0;
     try {
-      _storage = stod(next_token);
+      value = stod(next_token, &n_read);
+    }
+    catch (const std::invalid_argument&) {}
+    catch (const std::out_of_range&) {
+      n_read = 0;
     }
-    catch (const std::invalid_argument&) {
-      LOG_WARNING("option " << tokens[i] << " requires a floating point number value.");
+    if (n_read == 0 || n_read != next_token.size()) {
+      LOG_WARNING("option " << tokens[i] << " requires a value (floating point number).");
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
     }
+    _storage = value;
     i++;
     return true;
   }
-- 
2.43.0


From 9e514ccce35124db807ff1b5a3cefb2eb0af4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 30/79] fix: the value of a global boolean option was left to
 be parsed as another option

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..30bb5d5 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -92,6 +92,7 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
           LOG_WARNING("Default value " << (*bool_options[token] ? "on" : "off") << " is used.");
           continue;
         }
+        i++;
       }
       else
         *bool_options[token] = true;
-- 
2.43.0


From ee7b364b39182916c4389f8e4f43e01aa0f92f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 31/79] fix: graph backtracking did not disable lazy
 reimplication and gave wrong answers with it

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 30bb5d5..a11f5b7 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -327,6 +327,7 @@ napsat::options::options(vector<string>& tokens)
     LOG_WARNING("graph backtracking subsumes chronological backtracking.");
     LOG_WARNING("The solver will run with graph backtracking.");
     chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
   }
 
   interactive |= !sentinel_options.commands_file.empty();
-- 
2.43.0


From 9707a4b0df6e6cfbcbf80898a4262776525320c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 32/79] fix: the search for backtrack possibilities was
 exponential in the number of conflicts whatever its limit

---
 src/solver/NapSAT-conflict.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 1779ca4..af4d82d 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -168,6 +168,7 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
   priority_queue<prefix_t, vector<prefix_t>, compare_prefixes> prefixes;
 
   bitset remaining(_n_allocated_chunks);
+  unsigned n_expanded = 0;
   prefixes.push(make_pair(_conflicts_chunks.size(), bitset(_n_allocated_chunks)));
   while (!prefixes.empty()) {
     // check if the prefix is subsumed by an existing possibility
@@ -193,6 +194,18 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
       possibilities.push_back(prefix);
       continue;
     }
+    if (n_expanded++ > _options.backtrack_possibilities_limit) {
+      // the number of prefixes grows exponentially with the number of conflicts: no longer expand them,
+      // and only ensure that there is at least one possibility
+      if (possibilities.empty()) {
+        NOTIFY_STAT(_n_backtrack_limit_reached);
+        for (const bitset& cl_chunks : _conflicts_chunks)
+          if (!prefix.has_intersection(cl_chunks))
+            prefix.set(*cl_chunks.cbegin(), true);
+        possibilities.push_back(prefix);
+      }
+      continue;
+    }
 
     // Calculate which chunks can still be required
     remaining.clear();
-- 
2.43.0


From f558b4ba85a96e4950d93be05df0761a71aeff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 33/79] fix: lazy chunk merging kept incomplete backtrack
 possibilities past their limit

---
 src/solver/NapSAT-conflict.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index af4d82d..9378878 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -138,15 +138,19 @@ void NapSAT::enhance_backtrack_possibilities_with_lazy_merging(const bitset& com
   size_t original_size = possibilities.size();
   while(original_size > 0) {
     bitset current = possibilities[original_size - 1];
-    if (possibilities.size() > _options.backtrack_possibilities_limit
-     || !current.has_intersection(mergeable_chunks)) {
+    if (!current.has_intersection(mergeable_chunks)) {
       // no mergeable chunk, nothing to do
       original_size--;
       continue;
     }
+    // without the merged chunks, the possibility does not repair the conflicts and cannot be kept
     possibilities[original_size - 1] = possibilities.back();
     possibilities.pop_back();
     original_size--;
+    if (possibilities.size() > _options.backtrack_possibilities_limit && !possibilities.empty()) {
+      // the limit is reached, and there is another possibility
+      continue;
+    }
     compute_lazy_merge_chunk_combination(possibilities, mergeable_chunks, current, bitset(_n_allocated_chunks));
     // remove the original possibility
   }
-- 
2.43.0


From f1bf5fc2f906e2200d6cdb532adf980a6b355aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 34/79] fix: lazy chunk merging enumerated every order of the
 merged chunks

---
 src/solver/NapSAT-conflict.cpp | 45 +++++++++++++++-------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 9378878..3b99b70 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -92,33 +92,28 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
     return;
   }
 
-  for (auto i = diff.cbegin(); i != diff.cend(); ++i) {
-    Tchunk c = *i;
-    bitset next_process = processed;
-    next_process.set(c, true);
-    bitset merged_chunks = _chunks[c].missed_implication;
-    if (_n_assumptions > 0) {
-      // the assumptions cannot be backtracked, and are removed from the possibilities
-      merged_chunks -= _locked_chunks;
-    }
+  // all the chunks of the difference have to be inspected, and the order does not matter
+  Tchunk c = *diff.cbegin();
+  processed.set(c, true);
+  bitset merged_chunks = _chunks[c].missed_implication;
+  if (_n_assumptions > 0) {
+    // the assumptions cannot be backtracked, and are removed from the possibilities
+    merged_chunks -= _locked_chunks;
+  }
 
-    if (merged_chunks.has_intersection(current)) {
-      // we already have one of the chunks, any larger combination would be subsumed
-      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
-      if (combinations.size() > _options.backtrack_possibilities_limit) {
-        return;
-      }
-      continue;
-    }
+  if (merged_chunks.has_intersection(current)) {
+    // we already have one of the chunks, any larger combination would be subsumed
+    compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, processed);
+    return;
+  }
 
-    for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
-      Tchunk c2 = *j;
-      bitset next_current = current;
-      next_current.set(c2, true);
-      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-      if (combinations.size() > _options.backtrack_possibilities_limit) {
-        return;
-      }
+  for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
+    Tchunk c2 = *j;
+    bitset next_current = current;
+    next_current.set(c2, true);
+    compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, processed);
+    if (combinations.size() > _options.backtrack_possibilities_limit) {
+      return;
     }
   }
 }
-- 
2.43.0


From f75dc07faa5a4d91b60aae2ab1b4f6a283a5535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 35/79] fix: adding conflicting clauses after UNSAT repaired
 conflicts that could not be

---
 src/solver/NapSAT-conflict.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 3b99b70..c6e8d32 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -928,6 +928,11 @@ void NapSAT::fix_watched_literals(Tclause conflict)
 
 void NapSAT::repair_conflicts()
 {
+  if (_status == status::UNSAT) {
+    // a conflict cannot be repaired already. Clauses may still be added but the others are not worth repairing,
+    // and may no longer be conflicting
+    return;
+  }
   synchronize();
   NOTIFY_STAT(_n_conflict_repair);
   auto start = chrono::high_resolution_clock::now();
-- 
2.43.0


From 68890c601e424530d930dab28961237dfb77d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 36/79] fix: the VSIDS cost estimation of the chunks was never
 used

---
 src/solver/NapSAT-conflict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index c6e8d32..6b719a1 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -525,7 +525,7 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       for (auto it = w.chunks.cbegin(); it != w.chunks.cend(); ++it) {
         size_t chunk_id = *it;
         Tvar decision = _chunks[chunk_id].decision;
-        chunk_weights[chunk_id] += var_activity(decision);
+        w.total_weight += var_activity(decision);
       }
     }
   }
-- 
2.43.0


From 964b2b39a11aff4e6b85a32b9cf401402366f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 37/79] fix: backtrack possibilities included in one another
 were not ordered

---
 src/solver/NapSAT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 3c32002..d8e8312 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1972,7 +1972,8 @@ public:
               ++it1;
               ++it2;
             }
-            assert(false); // should never happen
+            // a possibility may be included in another one
+            return it1 == chunks.cend() && it2 != other.chunks.cend();
           }
           return total_weight < other.total_weight;
         }
-- 
2.43.0


From b17fc7b7240fb98c828aaf737e3bbfe3714ea8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 38/79] fix: conflict analysis read out of bounds when lazily
 merged chunks left no UIP

---
 src/solver/NapSAT-conflict.cpp | 27 ++++++++++++++++++++++-----
 src/solver/NapSAT.hpp          |  7 ++++---
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 6b719a1..2873b33 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -738,7 +738,7 @@ bool NapSAT::mark_relevant_literals(Tlit lit, T level, unsigned& count) {
 }
 
 template <typename T>
-void NapSAT::analyze_conflict_impl(T level) {
+bool NapSAT::analyze_conflict_impl(T level) {
   ASSERT(_lit_buffer_size > 0);
   ASSERT(all_of(_trail.begin(), _trail.end(), [this](Tlit l){ return !lit_marked(l); }));
   NOTIFY(message, "Analyzing conflict " + clause_to_string(_lit_buffer, _lit_buffer_size) + " at level " + level.to_string(), 8);
@@ -759,7 +759,12 @@ void NapSAT::analyze_conflict_impl(T level) {
   unsigned i = _trail.size();
 
   while (count > 1) {
-    ASSERT(i > 0);
+    if (i == 0) {
+      // the chunks can be merged, but not following the trail. There is no UIP
+      ASSERT(_options.lazy_chunk_merging);
+      for (Tlit lit : _trail) { lit_unmark(lit); }
+      return false;
+    }
     Tlit lit = _trail[--i];
     if (!lit_marked(lit))
       continue;
@@ -837,10 +842,11 @@ void NapSAT::analyze_conflict_impl(T level) {
     _lit_buffer[k++] = lit;
   }
   _lit_buffer_size = k;
+  return true;
 }
 
-void NapSAT::analyze_conflict(Tlevel l) { analyze_conflict_impl(l); };
-void NapSAT::analyze_conflict(const bitset& b) { analyze_conflict_impl(b); };
+bool NapSAT::analyze_conflict(Tlevel l) { return analyze_conflict_impl(l); };
+bool NapSAT::analyze_conflict(const bitset& b) { return analyze_conflict_impl(b); };
 
 
 Tlevel NapSAT::compute_repair_level()
@@ -1171,8 +1177,11 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _dependency_tracker->start_tracking();
 
     T bt_save = bt;
+    bool has_uip = true;
     do {
-      analyze_conflict(bt);
+      has_uip = analyze_conflict(bt);
+      if (!has_uip)
+        break;
 
       // check if the uip is a missed implication
       Tlit uip = _lit_buffer[0];
@@ -1207,6 +1216,14 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     } while (true);
     bt = bt_save;
 
+    if (!has_uip) {
+      if (_proof)
+        _proof->cancel_resolution_chain();
+      if (_dependency_tracker)
+        _dependency_tracker->cancel_tracking();
+      continue;
+    }
+
     // check if the clause is new
 
     for (unsigned j = 0; j < _lit_buffer_size; j++) { lit_mark(_lit_buffer[j]); }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index d8e8312..f27c99d 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2198,7 +2198,7 @@ public:
      * @brief Helper to implement both the level and chunk conflict analysis together
      */
     template <typename T>
-    void analyze_conflict_impl(T x);
+    bool analyze_conflict_impl(T x);
 
     /**
      * Analyze a conflict and learn a new clause.
@@ -2226,13 +2226,14 @@ public:
      * @details Sets the clause in the literal_buffer and _lit_buffer_size variables.
      * @post The literal_buffer is set such that the first literal is the UIP
      */
-    void analyze_conflict(Tlevel level);
+    bool analyze_conflict(Tlevel level);
 
     /**
      * @details Sets the clause in the literal_buffer and _lit_buffer_size variables.
      * @post The literal_buffer is set such that the first literal is the UIP
+     * @return false if there is no UIP because of the lazily merged chunks. The literal buffer is then empty.
      */
-    void analyze_conflict(const bitset& chunks);
+    bool analyze_conflict(const bitset& chunks);
 
 
     /*************************************************************************/
-- 
2.43.0


From 204324e012baeb496c2a528a829145ca0f4b6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 39/79] fix: printing a proof without the empty clause read out
 of bounds

---
 src/proof/proof.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index d0ce295..a16b3d3 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -372,7 +372,10 @@ void resolution_proof::print_resolution_chain(unsigned index) {
 
 void resolution_proof::print_proof(void)
 {
-  assert(empty_clause_id != 0xFFFFFFFF);
+  if (empty_clause_id == 0xFFFFFFFF) {
+    LOG_ERROR("The empty clause is not in the proof");
+    return;
+  }
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
   while(!clauses_to_check.empty()) {
-- 
2.43.0


From 00cc2989b2edea7de9d321c684455a7e684d10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 40/79] fix: the statistics and the unused watch invariants
 were never deleted

---
 src/solver/NapSAT-checker.cpp | 6 ++++++
 src/solver/NapSAT.cpp         | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/solver/NapSAT-checker.cpp b/src/solver/NapSAT-checker.cpp
index 5e46a31..a99a186 100755
--- a/src/solver/NapSAT-checker.cpp
+++ b/src/solver/NapSAT-checker.cpp
@@ -18,6 +18,7 @@
 #include "custom-assert.hpp"
 #include "../utils/printer.hpp"
 
+#include <algorithm>
 #include <fstream>
 
 using namespace std;
@@ -374,4 +375,9 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
       LOG_INFO("Unknown invariant: " + line + "\nWatched literal invariants are not supported in this build. Check the SAT-config.hpp file to enable them.");
   }
   file.close();
+
+  // only the invariants of the configuration are given to the sentinel
+  for (auto& invariant : custom_invariants)
+    if (find(_watch_invariants.begin(), _watch_invariants.end(), invariant.second) == _watch_invariants.end())
+      delete invariant.second;
 }
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 7caab0e..7728a5f 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -316,6 +316,10 @@ NapSAT::~NapSAT()
     delete _proof;
   if (_dependency_tracker)
     delete _dependency_tracker;
+#if USE_STATISTICS
+  if (_statistics)
+    delete _statistics;
+#endif
   delete[] _lit_buffer;
 }
 
-- 
2.43.0


From 35562f865c55d261db34b85383ff3ea49b3e6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:20 +0000
Subject: [PATCH 41/79] fix: with unused variables ignored, unassigned ones
 came back in the heap and a second solve was refused

---
 src/solver/NapSAT-backtrack.cpp | 2 +-
 src/solver/NapSAT.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index fbe9ffa..7b1ecf8 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -30,7 +30,7 @@ void NapSAT::var_unassign(Tvar var)
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
-  if (!_variable_heap.contains(var))
+  if (v.constrained && !_variable_heap.contains(var))
     _variable_heap.insert(var, v.activity);
 
   if (_options.graph_backtracking) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 7728a5f..46ea51c 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -427,7 +427,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
-- 
2.43.0


From cd0b75c51e3eb8e302d45a25ec138ddd1fb18813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 42/79] fix: recording the dependencies read and deleted
 clauses that were never recorded

---
 src/solver/NapSAT-conflict.cpp |  4 +++-
 src/solver/NapSAT-purge.cpp    |  4 ++--
 src/solver/NapSAT.hpp          | 17 +++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 2873b33..b9dda6b 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1266,8 +1266,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 22934cd..2520c3c 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -83,7 +83,7 @@ void napsat::NapSAT::purge_root_watch_lists()
         // remove the clause from the watch list
         continue;
       }
-      if (is_protected(cl)) {
+      if (is_protected(cl) || is_satisfied_input(cl)) {
         // keep the clause
         *(k++) = *j;
         continue;
@@ -144,7 +144,7 @@ void napsat::NapSAT::purge_clauses()
     TSclause& clause = _clauses[cl];
     if (clause.deleted || !clause.watched || clause.size <= 2)
       continue;
-    if (is_protected(cl))
+    if (is_protected(cl) || is_satisfied_input(cl))
       continue;
     // Since all literals are propagated, if a clause has a watched literal falsified at level 0, then the other must be satisfied.
     // In strong chronological backtracking, the other watched literal must be satisfied at level 0 too.
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index f27c99d..e928e98 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1528,6 +1528,23 @@ public:
           || lit_lazy_reason(_clauses[cl].lits[0]) == cl;
     }
 
+    /**
+     * @brief Returns true if the clause is an input clause satisfied at level 0 that must nevertheless be kept,
+     * because the dependencies are recorded.
+     * @param cl clause to evaluate.
+     */
+    inline bool is_satisfied_input(Tclause cl) const
+    {
+      ASSERT(cl < _clauses.size());
+      const TSclause& clause = _clauses[cl];
+      if (!_dependency_tracker || !clause.external)
+        return false;
+      for (unsigned i = 0; i < clause.size; i++)
+        if (lit_true(clause.lits[i]) && lit_level(clause.lits[i]) == LEVEL_ROOT)
+          return true;
+      return false;
+    }
+
     /**
      * @brief Marks a variable as being constrained. That is, the variable should be assigned a value by the solver.
      * @details if the options ignore_unused_variables is set to false, all variables are marked as constrained.
-- 
2.43.0


From 717e9df156cd76eb1d1f1b4e5985b3b8c4d8992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 43/79] fix: a clause added after a search stopped by the
 conflict limit made its pending conflict stale

---
 src/solver/NapSAT.cpp | 10 ++++++++++
 src/solver/NapSAT.hpp |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 46ea51c..135fecc 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -541,9 +541,18 @@ bool napsat::NapSAT::decide(Tlit lit)
   return true;
 }
 
+void NapSAT::repair_interrupted_conflict()
+{
+  // A search stopped by the conflict limit leaves its last conflict unrepaired. Adding a clause may backtrack, after
+  // which the conflict would no longer be one.
+  if (!_conflicts.empty() && !_options.graph_backtracking && _status != status::UNSAT)
+    repair_conflicts();
+}
+
 void NapSAT::start_clause()
 {
   ASSERT(!_writing_clause);
+  repair_interrupted_conflict();
   _writing_clause = true;
   _lit_buffer_size = 0;
 }
@@ -568,6 +577,7 @@ napsat::Tclause NapSAT::finalize_clause()
 
 napsat::Tclause napsat::NapSAT::add_clause(const Tlit* lits, unsigned size)
 {
+  repair_interrupted_conflict();
   Tvar max_var = 0;
   for (unsigned i = 0; i < size; i++)
     if (lits[i].var() > max_var)
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index e928e98..5d0e54f 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2076,6 +2076,12 @@ public:
      */
     void repair_conflicts();
 
+    /**
+     * @brief Repairs the conflict left by a search that was stopped by the conflict limit, before the user adds a
+     * clause. In graph backtracking, adding a clause never backtracks and the conflict can wait.
+     */
+    void repair_interrupted_conflict();
+
     /**
      * @brief Returns true if the literal is required in the learned clause.
      * Returns false if the literal is already implied by the other literals of
-- 
2.43.0


From b0252f98f1ad66e680783bd42f3099d4148f6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 44/79] fix: a literal implied again at level 0 forgot the
 chunks its watched clauses depend on

---
 src/solver/NapSAT-imply.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 04d0c12..934085e 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -174,6 +174,12 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
 
   // this does nothing outside of GB, but it does not hurt either
   bitset old_chunks = lit_chunks(lit);
+  // the clauses watched by this literal may be satisfied by literals in its old chunks
+  if (_options.graph_backtracking) {
+    lit_cross_chunks(lit) |= old_chunks;
+    if (squash_level)
+      lit_cross_chunks(lit) -= old_chunks;
+  }
   lit_chunks(lit).clear();
 
   // fix the trail
@@ -260,6 +266,9 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
       if (lit_chunks(l) >= old_chunks) {
         Tlevel prev_level = lit_level(l);
         lit_level(l) = implication_level(lit_reason(l));
+        lit_cross_chunks(l) |= lit_chunks(l);
+        if (squash_level)
+          lit_cross_chunks(l) -= old_chunks;
         recompute_chunks(l);
         if (lit_level(l) != prev_level) {
           NOTIFY(update_level, l, lit_level(l));
-- 
2.43.0


From 91774b94b5c7e577b188d22e4db842a78d4ebd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 45/79] fix: lazy chunk merging deferred implications at level
 0 and could lose every way to repair a conflict

---
 src/solver/NapSAT-imply.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 934085e..a270ad4 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -367,7 +367,9 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     ASSERT(lit_chunks(c2).count() == 1);
     Tchunk decision_chunk = *lit_chunks(c2).cbegin();
     NOTIFY_STAT(_n_cross_implication_decisions);
-    if (!reimplication_cycle(decision_chunk, chunks)) {
+    // a decision implied at level 0 has no other chunk to merge with: its chunk is backtracked as usual, and the literal is
+    // then implied at level 0
+    if (!chunks.empty() && !reimplication_cycle(decision_chunk, chunks)) {
       lit_lazy_reason(c2) = reason;
       _chunks[decision_chunk].missed_implication = chunks;
       _chunks[decision_chunk].is_reimplied = true;
-- 
2.43.0


From f65225fec90545b02ccb542fcdafc51cf9985922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 46/79] fix: the threshold of clause elimination overflowed
 with a large multiplier (undefined behaviour)

---
 src/solver/NapSAT-purge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 2520c3c..0ce3169 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -19,6 +19,8 @@
 #include <iostream>
 #include <cstring>
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 using namespace std;
 
@@ -254,7 +256,9 @@ void napsat::NapSAT::purge_clauses()
 
 void napsat::NapSAT::simplify_clause_set()
 {
-  _next_clause_elimination *= _options.clause_elimination_multiplier;
+  // the multiplier is arbitrary: the conversion of an out of range value would be undefined
+  _next_clause_elimination = fmax(0.0, fmin(_next_clause_elimination * _options.clause_elimination_multiplier,
+                                            numeric_limits<unsigned>::max()));
   _clause_activity_threshold *= _options.clause_activity_threshold_decay;
   double threshold = _max_clause_activity * _clause_activity_threshold;
   for (Tclause cl = 0; cl < _clauses.size(); cl++) {
-- 
2.43.0


From c678922050b0ed0dda7ba5f73305b5b6fe217ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 47/79] fix: NaN was accepted by the options restricted to a
 range

---
 src/utils/options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index e267529..73bc4c8 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -167,7 +167,8 @@ namespace napsat
   {
     if (!_has_range)
       return;
-    if (_storage < _min || _storage > _max) {
+    // written so that NaN is out of range
+    if (!(_storage >= _min && _storage <= _max)) {
       if (_fatal) {
         LOG_ERROR(_name << " must be between " << _min << " and " << _max << ".");
         exit(1);
-- 
2.43.0


From f2636febb65481cb06835774a97392d98618418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 48/79] fix: --all-models without an input file read arguments
 that do not exist

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index ea4c76a..ac31f28 100644
--- a/main.cpp
+++ b/main.cpp
@@ -46,6 +46,10 @@ int main(int argc, char** argv)
       argv[i] = argv[i + 1];
     }
     argc--;
+    if (argc < 2) {
+      cout << "Usage: " << argv[0] << " --all-models <input_file> [options]" << endl;
+      return 1;
+    }
   }
 
   vector<string> tokens(argv + 2, argv + argc);
-- 
2.43.0


From 722729287298ed343fcee1ab9fe40f1724f43cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 49/79] fix: the timeout option was accepted and documented but
 had no effect

---
 src/solver/NapSAT.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 135fecc..c71b869 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -474,6 +474,13 @@ status NapSAT::solve()
       continue;
     }
     NOTIFY(check_invariants);
+    if (_options.timeout >= 0) {
+      std::chrono::duration<double, std::milli> elapsed = std::chrono::high_resolution_clock::now() - start_time;
+      if (elapsed.count() >= _options.timeout) {
+        LOG_INFO("Timeout reached: " + std::to_string(_options.timeout));
+        break;
+      }
+    }
     // synchronize();
 #if USE_OBSERVER
     if (_options.interactive)
-- 
2.43.0


From c73c6530bf49feae194d6f0feb7baf273c583675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 50/79] fix: analysing a missed lower implication could write
 after the end of the literal buffer

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 3d5885d..241aa3d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -357,8 +357,9 @@ void NapSAT::var_allocate(Tvar var)
   _watches.resize(2 * var.value + 2);
   _binary_watches.resize(2 * var.value + 2);
   // reallocate the literal buffer to make sure it is big enough
+  // (the analysis of a missed lower implication appends a reason to a clause)
   // TODO replace with std::vector
-  Tlit* new_literal_buffer = new Tlit[_vars.size().value + 1];
+  Tlit* new_literal_buffer = new Tlit[2 * _vars.size().value + 1];
   assert(_lit_buffer);
   std::memcpy(new_literal_buffer, _lit_buffer,
               _lit_buffer_size * sizeof(Tlit));
-- 
2.43.0


From b8546e6c768512f0a2013eb86bb53c20c0fc393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 51/79] fix: solvers running in several threads, or called from
 a weight function, shared the scratch memory of their repairs

---
 src/solver/NapSAT-backtrack.cpp |  5 -----
 src/solver/NapSAT-conflict.cpp  | 13 +++++--------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index 7b1ecf8..c63af17 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -177,8 +177,6 @@ void NapSAT::backtrack(Tlevel level)
   }
 }
 
-static Tvar last_backtracked_decision = 0;
-
 void NapSAT::backtrack(const bitset& backtracked_chunks)
 {
   ASSERT(_options.graph_backtracking);
@@ -247,9 +245,6 @@ void NapSAT::backtrack(const bitset& backtracked_chunks)
     // only for after the start position
 
     if (backtracked) {
-      if(lit_decision(lit)) {
-        last_backtracked_decision = lit.var();
-      }
       // we need to unassign the variable
       var_unassign(lit.var());
       _sync_validity_index = min(_sync_validity_index, (size_t) (j - _trail.data()));
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index b9dda6b..418164a 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1288,8 +1288,8 @@ void NapSAT::try_and_learn(Tlevel level, vector<pair<Tclause, vector<Tlit>>>& le
 
 void NapSAT::graph_repair()
 {
-  static vector<bitset> possibilities;
-  possibilities.clear();
+  // not static: a weight function may call another solver, and solvers may run in several threads
+  vector<bitset> possibilities;
   _conflicts_chunks.clear();
   _conflicts_chunks.reserve(_conflicts.size());
   for (Tclause conflict : _conflicts) {
@@ -1313,18 +1313,15 @@ void NapSAT::graph_repair()
   }
 
   // Calculate the highest chunk involved in conflicts
-  static vector<Tweight> weights;
-  weights.clear();
+  vector<Tweight> weights;
   weights.reserve(possibilities.size());
 
   Tlevel highest_level = LEVEL_ROOT;
 
   setup_weights(possibilities, highest_level, weights);
 
-  static vector<Tclause> implying_conflicts;
-  static vector<pair<Tclause, vector<Tlit>>> learned_clauses;
-  implying_conflicts.clear();
-  learned_clauses.clear();
+  vector<Tclause> implying_conflicts;
+  vector<pair<Tclause, vector<Tlit>>> learned_clauses;
 
   Tweight best;
   Tweight analyzed;
-- 
2.43.0


From 8e2e1a286dffb18a58056a8e8548229474a3a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 52/79] fix: with unused variables ignored, a clause over
 variables unused so far kept the stale SAT answer

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 5d0e54f..e57f064 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1555,6 +1555,9 @@ public:
       }
       _variable_heap.insert(var, _vars[var].activity);
       _vars[var].constrained = 1;
+      // a model found while the variable was not used may not assign it
+      if (_status == status::SAT)
+        _status = status::UNKNOWN;
     }
 
     /**
-- 
2.43.0


From 96da11d49ea7282ef5e872225b224c8a9774e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 53/79] fix: the empty clause was added without notifying the
 observer

---
 src/solver/NapSAT-clauses.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 51bc6ed..fcc99be 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -189,6 +189,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (clause_size == 0) {
     _status = status::UNSAT;
+    NOTIFY(add_clause, id, lits, 0, external);
+    NOTIFY_STAT(new_clause);
     if (_proof && external)
       prove_input_clause(id, lits_input, input_size, lits, 0);
     else if (_proof && n_removed > 0)
-- 
2.43.0


From 9d10b175f64be86dddcd1bbc09e81df9b5b26dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 54/79] fix: most counters of the statistics were never
 incremented

---
 src/solver/NapSAT-backtrack.cpp | 1 +
 src/solver/NapSAT-clauses.cpp   | 1 +
 src/solver/NapSAT-imply.cpp     | 2 ++
 src/solver/NapSAT-purge.cpp     | 2 ++
 src/solver/NapSAT-utils.cpp     | 1 +
 src/solver/NapSAT.cpp           | 3 +++
 src/solver/NapSAT.hpp           | 2 ++
 7 files changed, 12 insertions(+)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index c63af17..39e4925 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -27,6 +27,7 @@ void NapSAT::var_unassign(Tvar var)
 
   TSvar& v = _vars[var];
   NOTIFY(unassign, Tlit(var, v.state));
+  NOTIFY_STAT(unassignment);
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index fcc99be..381baf2 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -347,6 +347,7 @@ void napsat::NapSAT::delete_clause(Tclause cl)
   clause.watched = false;
   _deleted_clauses.push_back(cl);
   NOTIFY(delete_clause, cl);
+  NOTIFY_STAT(delete_clause);
   if(_proof)
     _proof->deactivate_clause(cl);
   if (_dependency_tracker)
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index a270ad4..7012b15 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -61,6 +61,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
     _decision_index.push_back(_trail.size() - 1);
     svar.level = solver_level();
     NOTIFY(assign, lit);
+    NOTIFY_STAT(decision);
     if (_options.graph_backtracking) {
       if (_free_chunks.empty()) {
         allocate_chunks(2 * _n_allocated_chunks);
@@ -107,6 +108,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
       }
     }
     NOTIFY(assign, lit, reason);
+    NOTIFY_STAT(implication);
   }
 
   if (svar.level == LEVEL_ROOT) {
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 0ce3169..a065413 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -175,6 +175,7 @@ void napsat::NapSAT::purge_clauses()
         // remove the literal and push it to the back
         // we push it to the back so that we can print the clause even after the literal is removed
         NOTIFY(shrink_clause, cl, *i);
+        NOTIFY_STAT(remove_literal);
         Tlit tmp = *i;
         *i = *end;
         *end = tmp;
@@ -205,6 +206,7 @@ void napsat::NapSAT::purge_clauses()
         }
 #endif
         NOTIFY(shrink_clause, cl, lits[1]);
+        NOTIFY_STAT(remove_literal);
         clause.size--;
       }
     }
diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 241aa3d..cf3be6d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -352,6 +352,7 @@ void NapSAT::var_allocate(Tvar var)
     _vars[i].chunks.resize(_n_allocated_chunks);
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
     NOTIFY(add_variable, i);
+    NOTIFY_STAT(new_variable);
   }
 
   _watches.resize(2 * var.value + 2);
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index c71b869..74822c2 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -394,10 +394,12 @@ bool NapSAT::propagate()
       _vars[lit.var()].propagated = true;
       _n_propagated_lits++;
       NOTIFY(propagate, lit);
+      NOTIFY_STAT(propagation);
     }
 
     if (!_conflicts.empty()) {
       _conflict_count++;
+      NOTIFY_STAT(conflict);
       if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
         LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
         return false;
@@ -426,6 +428,7 @@ bool NapSAT::propagate()
 status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
+  NOTIFY_STAT(done);
   if (_status != status::UNKNOWN) {
     ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index e57f064..0bd545d 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1382,6 +1382,7 @@ public:
       ASSERT(!_vars[var].locked);
       _vars[var].locked = true;
       NOTIFY(lock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(lock_assumption);
       _n_assumptions++;
     }
     inline void lit_lock(Tlit lit) { var_lock(lit.var()); }
@@ -1390,6 +1391,7 @@ public:
       ASSERT(_vars[var].locked);
       _vars[var].locked = false;
       NOTIFY(unlock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(unlock_assumption);
       _n_assumptions--;
     }
     inline void lit_unlock(Tlit lit) { var_unlock(lit.var()); }
-- 
2.43.0


From a9382edc5ca10f234328a3abf32c73efb1f83d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 55/79] fix: printing the trail at level 0 aborted, and
 negative numbers were printed as nothing

---
 src/utils/printer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..293dde6 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -57,6 +57,7 @@ static inline unsigned log10(int n)
 string pad(unsigned n, unsigned max_int)
 {
   n = max(n, 1u);
+  max_int = max(max_int, 1u);
   int max_digits = log10(max_int);
   int digits = log10(n);
   string s = "";
@@ -69,19 +70,22 @@ string pretty_integer(long long n)
 {
   string s = "";
   if (n == 0) return "0";
-  while (n > 0) {
-    s = to_string(n % 1000) + "," + s;
+  const bool negative = n < 0;
+  while (n != 0) {
+    s = to_string(abs(n % 1000)) + "," + s;
     n /= 1000;
-    if (s.size() % 4 != 0 && n > 0)
+    if (s.size() % 4 != 0 && n != 0)
       s = string(4 - s.size() % 4, '0') + s;
   }
   if (s.size() > 0)
     s = s.substr(0, s.size() - 1);
-  return s;
+  return negative ? "-" + s : s;
 }
 
 string pretty_float(double f, unsigned n)
 {
+  if (f < 0)
+    return "-" + pretty_float(-f, n);
   string s = pretty_integer((long long)f);
   if (n)
     s += ".";
-- 
2.43.0


From b81de9275c6260c76015a0a30925c18dfd0958e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 56/79] fix: the clause set was printed with a wrong width, and
 the watch lists from a literal that does not exist

---
 src/solver/NapSAT-utils.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index cf3be6d..ae781b8 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -908,21 +908,13 @@ const static unsigned TERMINAL_WIDTH = 120;
 
 void NapSAT::print_clause_set() const
 {
-  unsigned longest_clause = 0;
+  unsigned max_clause_width = 0;
   for (Tclause cl = 0; cl < _clauses.size(); cl++) {
     if (_clauses[cl].deleted)
       continue;
-    if (_clauses[cl].size > longest_clause)
-      longest_clause = _clauses[cl].size;
+    max_clause_width = max(max_clause_width, string_length_escaped(clause_to_string(cl)));
   }
-  unsigned longest_var = 1; // 1 for the sign
-  Tvar max_var = _vars.size();
-  while (max_var > 0) {
-    max_var.value /= 10;
-    longest_var++;
-  }
-
-  unsigned max_clause_width = (longest_clause + 2) * (longest_var + 1) + 3;
+  max_clause_width += 3;
   Tclause i = 0;
   while (i < _clauses.size()) {
     unsigned j = max_clause_width;
@@ -949,7 +941,7 @@ void NapSAT::print_clause_set() const
 
 void NapSAT::print_watch_lists(Tlit lit) const
 {
-  Tlit i = 1;
+  Tlit i = 2;
   Tlit end = _watches.size();
   if (lit != LIT_UNDEF) {
     i = lit;
-- 
2.43.0


From dd54226c42b6a43f83b1a7739407fea1298b6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 57/79] fix: describing an unassigned variable computed the
 cost of a literal that is not true

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index ae781b8..20e6e31 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -674,7 +674,8 @@ std::string napsat::NapSAT::var_to_gui_info_string(Tvar var) const
   if (_options.graph_backtracking) {
     s += "γ: " + var_chunks(var).to_string() + "\n";
     s += "η: " + (var_cross_chunks(var) - var_chunks(var)).to_string() + "\n";
-    s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
+    if (!var_undef(var))
+      s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
   }
 
   for (unsigned pol = 0; pol < 2; pol++) {
-- 
2.43.0


From 322541ae5c85ca4f84f0f3c7002720b7cdd79153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 58/79] fix: commands of the interactive mode could abort or
 corrupt the solver

---
 src/solver/NapSAT-utils.cpp | 129 +++++++++++++++++++++++-------------
 src/solver/NapSAT.cpp       |   4 +-
 2 files changed, 85 insertions(+), 48 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 20e6e31..ba3cf8a 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -22,6 +22,7 @@
 #include <iomanip>
 #include <algorithm>
 #include <climits>
+#include <limits>
 
 #define ORANGE "\033[0;33m"
 #define GREEN "\033[0;32m"
@@ -966,6 +967,33 @@ void NapSAT::print_watch_lists(Tlit lit) const
   }
 }
 
+/**
+ * @brief Reads a number given to a command.
+ * @return true if the whole text is a number that fits, false otherwise.
+ */
+template<typename T>
+static bool parse_number(const string& text, T& number)
+{
+  const char* end = text.data() + text.size();
+  auto [last, error] = from_chars(text.data(), end, number);
+  return error == errc() && last == end;
+}
+
+/**
+ * @brief Reads a literal given to a command.
+ * @return true if the text is a literal, false otherwise.
+ */
+static bool parse_literal(const string& text, Tlit& lit)
+{
+  int number = 0;
+  if (!parse_number(text, number) || number == 0 || number == numeric_limits<int>::min()) {
+    LOG_WARNING("\"" << text << "\" is not a literal. This command is ignored.");
+    return false;
+  }
+  lit = Tlit(abs(number), number > 0);
+  return true;
+}
+
 bool NapSAT::parse_command(std::string input)
 {
   if (input == "") {
@@ -998,12 +1026,27 @@ bool NapSAT::parse_command(std::string input)
     LOG_WARNING("Empty command. Try \"HELP\" to get the list of commands.");
     return false;
   }
+  // reads the literal of a command that is about an existing variable
+  auto parse_known_literal = [this](const string& text, Tlit& lit) {
+    if (!parse_literal(text, lit))
+      return false;
+    if (lit.var() >= _vars.size()) {
+      LOG_WARNING("The variable of the literal " << text << " does not exist. This command is ignored.");
+      return false;
+    }
+    return true;
+  };
+  Tlit lit = LIT_UNDEF;
   if (tokens[0] == "DECIDE") {
+    if (_status != status::UNKNOWN || !_conflicts.empty()) {
+      LOG_WARNING("There is nothing to decide. This command is ignored.");
+      return false;
+    }
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
-      int lit_int = stoi(tokens[1]);
-      Tlit lit = Tlit(abs(lit_int), lit_int > 0);
+      if (!parse_known_literal(tokens[1], lit))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
@@ -1015,60 +1058,38 @@ bool NapSAT::parse_command(std::string input)
       return false;
     }
   }
-  else if (tokens[0] == "ASSUME") {
+  else if (tokens[0] == "ASSUME" || tokens[0] == "FORGET") {
     if (tokens.size() != 2) {
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
-    if (!assume(lit)) {
-      LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
+    if (!_options.graph_backtracking) {
+      LOG_WARNING("Assumptions are only supported in graph backtracking. This command is ignored.");
       return false;
     }
-  }
-  else if (tokens[0] == "FORGET") {
-    if (tokens.size() != 2) {
-      LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
+    if (!parse_known_literal(tokens[1], lit))
+      return false;
+    if (tokens[0] == "ASSUME" && !assume(lit)) {
+      LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
-    if (!forget_assumption(lit)) {
+    if (tokens[0] == "FORGET" && !forget_assumption(lit)) {
       LOG_WARNING("The forgetting of assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
     }
   }
   else if (tokens[0] == "HINT") {
-    if (tokens.size() == 2) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      hint(Tlit(abs(lit), lit > 0));
-    }
-    else if (tokens.size() == 3) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      Tlevel level = stoi(tokens[2]);
-      hint(Tlit(abs(lit), lit > 0), level);
-    }
-    else {
-      LOG_WARNING("Wrong number of arguments (expected 0 or 1). This command is ignored.");
-      return false;
-    }
+    LOG_WARNING("Hints are not supported yet. This command is ignored.");
+    return false;
   }
   else if (tokens[0] == "LEARN") {
-    start_clause();
+    vector<Tlit> lits;
     for (unsigned i = 1; i < tokens.size(); i++) {
-      int lit = stoi(tokens[i]);
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!parse_literal(tokens[i], lit))
+        return false;
+      lits.push_back(lit);
     }
-    finalize_clause();
+    add_clause(lits.data(), lits.size());
   }
   else if (tokens[0] == "EXIT") {
     exit(0);
@@ -1083,31 +1104,47 @@ bool NapSAT::parse_command(std::string input)
         print_clause_set();
       else if (tokens[1] == "watch-lists")
         print_watch_lists();
-      else
+      else {
         LOG_WARNING("unknown argument \"" << tokens[1] << "\"");
+        return false;
+      }
     }
-    else
+    else {
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
+      return false;
+    }
   }
   else if (tokens[0] == "DELETE_CLAUSE") {
     if (tokens.size() != 2) {
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    Tclause cl = stoi(tokens[1]);
-    if (cl < 0 || cl >= _clauses.size()) {
-      LOG_WARNING("The clause " << cl << " does not exist. This command is ignored.");
+    Tclause cl = CLAUSE_UNDEF;
+    if (!parse_number(tokens[1], cl.value) || cl >= _clauses.size()) {
+      LOG_WARNING("The clause " << tokens[1] << " does not exist. This command is ignored.");
       return false;
     }
     if (_clauses[cl].deleted) {
       LOG_WARNING("The clause " << cl << " is already deleted\n");
       return false;
     }
+    if (_clauses[cl].size == 0 || is_protected(cl) || (_dependency_tracker && _clauses[cl].external)
+     || find(_conflicts.begin(), _conflicts.end(), cl) != _conflicts.end()) {
+      LOG_WARNING("The clause " << cl << " is in use and cannot be deleted. This command is ignored.");
+      return false;
+    }
     delete_clause(cl);
+    repair_watch_lists();
   }
   else if (tokens[0] == "HELP") {
-    // print the content of the help file
-    // TODO: make this work with modernized parser
+    cout << "DECIDE [literal]        decides a literal; if none is given, the solver chooses it\n"
+         << "ASSUME <literal>        assumes a literal (graph backtracking only)\n"
+         << "FORGET <literal>        forgets the assumption of a literal (graph backtracking only)\n"
+         << "LEARN [literal]*        adds a clause\n"
+         << "DELETE_CLAUSE <clause>  deletes a clause\n"
+         << "PRINT <trail|trail-simple|clause-set|watch-lists>\n"
+         << "HELP                    prints this list\n"
+         << "EXIT                    exits\n";
   }
   else {
     LOG_WARNING("unknown command \"" << tokens[0] << "\"; try \"HELP\" to get the list of commands");
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 74822c2..f811d52 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -491,8 +491,8 @@ status NapSAT::solve()
     else
 #endif
       decide();
-    ASSERT(_status != status::UNSAT);
-    if (_status == status::SAT)
+    ASSERT(_status != status::UNSAT || _options.interactive);
+    if (_status != status::UNKNOWN)
       break;
   }
   if (_status == status::SAT)
-- 
2.43.0


From bc4ea0e6c1b6b522e4b1687fb5dbb4bfa0ce6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 59/79] fix: the links in an exported implication graph led to
 files that do not exist

---
 src/solver/NapSAT-utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index ba3cf8a..4ee7341 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -523,7 +523,9 @@ std::string napsat::NapSAT::lit_to_md_string(Tlit lit) const
     s += "</u>";
 
   s += "</span>";
-  s += "](obsidian://open?vault=VAULT_NAME&file=" + lit.var().to_string() + ".md)";
+  // the files are named after the literals of the trail
+  Tlit trail_lit = lit_false(lit) ? ~lit : lit;
+  s += "](obsidian://open?vault=VAULT_NAME&file=" + trail_lit.to_string() + ".md)";
 
   return s;
 }
-- 
2.43.0


From f3e2173eadf76d4547f76bb5ae85096528bf0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 60/79] fix: exporting the implication graph asked forever once
 the input had ended

---
 src/exporter/implication_graph_exporter.cpp | 5 ++++-
 src/solver/NapSAT.hpp                       | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exporter/implication_graph_exporter.cpp b/src/exporter/implication_graph_exporter.cpp
index 6b01b9f..2cc4075 100644
--- a/src/exporter/implication_graph_exporter.cpp
+++ b/src/exporter/implication_graph_exporter.cpp
@@ -37,7 +37,10 @@ void implication_graph_exporter::export_implication_graph(const std::string& fol
       }
     }
     cout << "Please provide a folder name to export the implication graph to: ";
-    getline(cin, actual_folder_name);
+    if (!getline(cin, actual_folder_name)) {
+      LOG_ERROR("No folder name was provided. The implication graph is not exported.");
+      return;
+    }
     if (actual_folder_name.empty()) {
       cout << "Folder name cannot be empty. Please try again." << endl;
       continue;
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0bd545d..95cecbb 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -161,7 +161,8 @@ do {                                                                          \
     while (true) {                                                            \
       std::string input;                                                      \
       std::cout << "Enter [y/n] to save or not the implication graph: ";      \
-      std::getline(std::cin, input);                                          \
+      if (!std::getline(std::cin, input))                                     \
+        break;                                                                \
       if (input == "y" || input == "Y") {                                     \
         save = true;                                                          \
         break;                                                                \
-- 
2.43.0


From 168714955b27844c59dfde44e0a795b45999ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 61/79] fix: the watch invariant of graph backtracking rejected
 correct states after an eager chunk merge
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The documented invariant compares with γ(c₁) ∪ η(c₁). Merging a chunk into
others changes γ(c₁) of propagated literals, and η(c₁) alone does not cover it.
---
 src/solver/NapSAT-checker.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-checker.cpp b/src/solver/NapSAT-checker.cpp
index a99a186..772125c 100755
--- a/src/solver/NapSAT-checker.cpp
+++ b/src/solver/NapSAT-checker.cpp
@@ -351,11 +351,13 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
           Tlit n_c1 = Tlit(c1.value);
           Tlit n_c2 = Tlit(c2.value);
           Tlit n_blocker = Tlit(blocker.value);
+          // the chunks of c₁ may have changed since it was propagated, in which case η(c₁) does not cover them
+          bitset chunks = lit_chunks(n_c1) | lit_cross_chunks(n_c1);
           return  !(lit_false(n_c1) && lit_propagated(n_c1))
-                || (lit_true(n_c2) && lit_chunks(n_c2) <= lit_cross_chunks(n_c1))
-                || (lit_true(n_blocker) && lit_chunks(n_blocker) <= lit_cross_chunks(n_c1));
+                || (lit_true(n_c2) && lit_chunks(n_c2) <= chunks)
+                || (lit_true(n_blocker) && lit_chunks(n_blocker) <= chunks);
         },
-        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ γ(c₂) ⊆ η(c₁)) ∨ (b ∈ π ∧ γ(b) ⊆ η(c₁))]")}
+        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ γ(c₂) ⊆ γ(c₁) ∪ η(c₁)) ∨ (b ∈ π ∧ γ(b) ⊆ γ(c₁) ∪ η(c₁))]")}
 #endif
       });
 
-- 
2.43.0


From fec54901830d0cd794bc0a90f7ef4bda8eb39f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 62/79] fix: the watch invariants of chronological backtracking
 were never checked

The configurations of chronological and lazy strong chronological backtracking
name blocked_weak_watched_literals and blocked_strong_watched_literals, which
were unknown, so that no watch invariant was given to the observer in
chronological backtracking.
---
 src/solver/NapSAT-checker.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/solver/NapSAT-checker.cpp b/src/solver/NapSAT-checker.cpp
index 772125c..5ccb868 100755
--- a/src/solver/NapSAT-checker.cpp
+++ b/src/solver/NapSAT-checker.cpp
@@ -286,6 +286,34 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
 
   unordered_map<string, sentinel::WatchInvariant*> custom_invariants({
 #if NOTIFY_WATCH_CHANGES
+    {"blocked_weak_watched_literals",
+      new sentinel::WatchInvariant("Weak watched literals (with blocker)",
+                                   [this](sentinel::Tlit c1,
+                                          sentinel::Tlit c2,
+                                          sentinel::Tlit blocker,
+                                          std::string&) {
+          Tlit n_c1 = Tlit(c1.value);
+          Tlit n_c2 = Tlit(c2.value);
+          Tlit n_blocker = Tlit(blocker.value);
+          return  !(lit_false(n_c1) && lit_propagated(n_c1))
+                || !(lit_false(n_c2) && lit_propagated(n_c2))
+                || lit_true(n_blocker);
+        },
+        "¬c₁ ∈ τ ⇒ [(¬c₂ ∉ τ) ∨ (b ∈ π)]")},
+    {"blocked_strong_watched_literals",
+      new sentinel::WatchInvariant("Strong watched literals (with blocker)",
+                                   [this](sentinel::Tlit c1,
+                                          sentinel::Tlit c2,
+                                          sentinel::Tlit blocker,
+                                          std::string&) {
+          Tlit n_c1 = Tlit(c1.value);
+          Tlit n_c2 = Tlit(c2.value);
+          Tlit n_blocker = Tlit(blocker.value);
+          return  !(lit_false(n_c1) && lit_propagated(n_c1))
+                || lit_true(n_c2)
+                || lit_true(n_blocker);
+        },
+        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π) ∨ (b ∈ π)]")},
     {"blocked_backtrack_compatible_weak_watched_literals",
       new sentinel::WatchInvariant("Weak watched literal (with blocker)",
                                    [this](sentinel::Tlit c1,
-- 
2.43.0


From ec159466062608d86dbee667dfa8ead7852bdd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 63/79] fix: purging announced blockers in builds that announce
 no watches

Shrinking a clause to a binary one told the observer of its blockers even in
the builds where the watches themselves are not notified.
---
 src/solver/NapSAT-purge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index a065413..a191894 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -229,9 +229,9 @@ void napsat::NapSAT::purge_clauses()
 
     if (clause.size == 2) {
       _binary_watches[lits[0]].push_back(TSwatch(cl, lits[1]));
-      NOTIFY(block, cl, lits[1], lits[0]);
+      NOTIFY_WATCH(block, cl, lits[1], lits[0]);
       _binary_watches[lits[1]].push_back(TSwatch(cl, lits[0]));
-      NOTIFY(block, cl, lits[0], lits[1]);
+      NOTIFY_WATCH(block, cl, lits[0], lits[1]);
       NOTIFY_STAT(_n_binary_clause_simplified);
     }
     if (clause.size == 1) {
-- 
2.43.0


From 2d545af00b90288841a32289487ab25c5da54dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 64/79] fix: an eager chunk merge hid literals from
 synchronization

Moving literals in the trail could put unsynchronized ones before the part
already synchronized, so that their cost was ignored by the next repairs.
---
 src/solver/NapSAT-imply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 7012b15..4220217 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -422,6 +422,8 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   ASSERT(decision_position < _trail.size());
   size_t last_position = find_literal_in_trail(last_literal);
   ASSERT(last_position < _trail.size());
+  // the literals from this position on are going to move
+  _sync_validity_index = min(_sync_validity_index, decision_position);
 
   // we mark the literals in the to_move buffer. This makes it easier to check if a literal needs to be moved as well, as we only need to check if one of its reasons is in the to_move buffer.
   // in principle, in GB, we could use chunks to determine whether a literal needs to be moved.
-- 
2.43.0


From 351f02daffc4b84aa074a965dee2699d3d8c5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 65/79] fix: restarts undid the assumptions

---
 src/solver/NapSAT.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index f811d52..1fa7671 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -92,7 +92,16 @@ void NapSAT::restart()
   NOTIFY_STAT(_n_restart);
   if (_options.graph_backtracking) {
     unsigned tmp = _n_propagated_lits;
-    backtrack(LEVEL_ROOT);
+    if (_n_assumptions > 0) {
+      // the assumptions cannot be backtracked
+      bitset restarted(_n_allocated_chunks);
+      for (Tlevel level = 1; level <= solver_level(); level++)
+        restarted |= lit_chunks(decision_lit(level));
+      restarted -= _locked_chunks;
+      if (!restarted.empty())
+        backtrack(restarted);
+    } else
+      backtrack(LEVEL_ROOT);
     _n_propagated_lits = min(tmp, _n_propagated_lits);
     size_t i = _trail.size();
     while (i > 0) {
-- 
2.43.0


From 1c5d2dd25b7d8bf2ce658da05d695d3edd5c3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 66/79] fix: an eager chunk merge made assumptions ordinary
 implications

---
 src/solver/NapSAT-imply.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 4220217..42d8d85 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -353,6 +353,9 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
 
   if (_options.eager_chunk_merging) {
     ASSERT(lit_lazy_reason(c2) == CLAUSE_UNDEF);
+    // an assumption stays a decision until it is forgotten
+    if (lit_locked(c2))
+      return;
     eager_decision_reimplication(c2, reason);
     return;
   }
-- 
2.43.0


From 937fa8edc4f11325ff79c89641c8f539aa60ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 67/79] fix: a list of assumptions was always refused

---
 src/solver/NapSAT-assumptions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..6ab25d6 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -42,7 +42,10 @@ bool NapSAT::assume(Tlit assumption)
 
 bool NapSAT::add_assumption(const std::vector<Tlit>& assumptions)
 {
-  return false;
+  bool success = true;
+  for (Tlit assumption : assumptions)
+    success = assume(assumption) && success;
+  return success;
 }
 
 bool NapSAT::forget_assumption(Tlit assumption)
-- 
2.43.0


From 169c822aab8d76b8cd96634b293197ac9e3fc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 68/79] fix: assuming an implied literal left outdated chunks
 and levels

---
 src/solver/NapSAT-assumptions.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 6ab25d6..7a69e6c 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -240,19 +240,26 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
-  lit_lazy_reason(lit) = lit_reason(lit);
+  // once forgotten, the literal is a decision with a missed implication
+  if (_options.lazy_chunk_merging)
+    lit_lazy_reason(lit) = lit_reason(lit);
   lit_reason(lit) = CLAUSE_UNDEF;
   NOTIFY(update_reason, lit, CLAUSE_UNDEF);
   lit_level(lit) = level+1;
   NOTIFY(update_level, lit, level+1);
 
   lit_chunks(lit).clear();
+  if (_free_chunks.empty())
+    allocate_chunks(2 * _n_allocated_chunks);
   unsigned ck = _free_chunks.back();
   _free_chunks.pop_back();
 
   lit_chunks(lit).set(ck, true);
   _chunks[ck].decision = lit.var();
-  _chunks[ck].missed_implication = lit_chunk;
+  if (_options.lazy_chunk_merging) {
+    _chunks[ck].missed_implication = lit_chunk;
+    _chunks[ck].is_reimplied = true;
+  }
   _locked_chunks.set(ck, true);
 
   lit_lock(lit);
@@ -266,13 +273,14 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
       _decision_index[lit_level(l)] = i;
     }
     // update level
-    if (lit_level(l) >= level) {
+    if (lit_level(l) > level) {
       lit_level(l)++;
       NOTIFY(update_level, l, lit_level(l));
     }
     // update chunks if necessary
-    if (lit_chunk >= lit_chunks(l)) {
+    if (lit_chunks(l) >= lit_chunk) {
       Tlevel recomputed_level = LEVEL_ROOT;
+      lit_cross_chunks(l) |= lit_chunks(l);
       lit_chunks(l).clear();
       const Tclause reason = lit_reason(l);
       ASSERT(reason != CLAUSE_UNDEF);
@@ -290,6 +298,12 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
       NOTIFY(update_level, l, recomputed_level);
     }
   }
+
+  // a clause satisfied by a literal with the old chunks may now be satisfied by a literal with the new chunk
+  lit_cross_chunks(lit) |= lit_chunk;
+  for (Tlit l : _trail)
+    if (l != lit && (lit_chunks(l) | lit_cross_chunks(l)) >= lit_chunk)
+      lit_cross_chunks(l).set(ck, true);
 }
 
 bool NapSAT::add_assumption_GB_false(Tlit lit)
-- 
2.43.0


From ae500b75a8e946d63c73adff130ca20364515468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 69/79] fix: conflicts pending when an assumption is added or
 forgotten

---
 src/solver/NapSAT-assumptions.cpp | 37 +++++++++++++++++++++----------
 src/solver/NapSAT.hpp             |  5 +++++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 7a69e6c..f1e13bd 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -29,6 +29,11 @@ bool NapSAT::assume(Tlit assumption)
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
   bool success = true;
   if (_options.graph_backtracking) {
+    // the conflicts may no longer be falsified after the backtracking
+    if (!_conflicts.empty() && _status != status::UNSAT)
+      repair_conflicts();
+    if (_status == status::UNSAT && lit_false(assumption))
+      return false;
     if (lit_true(assumption)) {
       add_assumption_GB_true(assumption);
     } else if (lit_false(assumption)) {
@@ -56,13 +61,15 @@ bool NapSAT::forget_assumption(Tlit assumption)
       // the assumption was not added
       return false;
     }
-    ASSERT(lit_decision(assumption));
-    // unlock the chunk of the literal
-    ASSERT(lit_chunks(assumption).count() == 1);
+    // unlock the chunk of the literal. A clause may have implied it at level 0 since it was assumed, in which case it no
+    // longer has a chunk
+    ASSERT(lit_decision(assumption) || lit_level(assumption) == LEVEL_ROOT);
+    ASSERT(lit_chunks(assumption).count() <= 1);
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
-  if (_status == status::UNSAT) {
+  // the empty clause does not depend on assumptions
+  if (_status == status::UNSAT && !_conflicts.empty() && empty_clause() == CLAUSE_UNDEF) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -73,21 +80,27 @@ void NapSAT::forget_assumption()
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    // unlock all locked chunks
-    for (auto it = _locked_chunks.cbegin(); it != _locked_chunks.cend(); ++it) {
-      Tvar var = _chunks[*it].decision;
-      Tlit lit(var, var_value(var));
-      ASSERT(lit_decision(lit));
-      lit_unlock(lit);
-    }
+    // unlock all assumptions, those implied at level 0 since they were assumed no longer have a chunk
+    for (Tlit lit : _trail)
+      if (lit_locked(lit))
+        lit_unlock(lit);
     _locked_chunks.clear();
   }
-  if (_status == status::UNSAT) {
+  // the empty clause does not depend on assumptions
+  if (_status == status::UNSAT && !_conflicts.empty() && empty_clause() == CLAUSE_UNDEF) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
 }
 
+Tclause napsat::NapSAT::empty_clause() const
+{
+  for (Tclause cl = 0; cl < _clauses.size(); cl++)
+    if (!_clauses[cl].deleted && _clauses[cl].size == 0)
+      return cl;
+  return CLAUSE_UNDEF;
+}
+
 std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 95cecbb..c6336be 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2303,6 +2303,11 @@ public:
     /*************************************************************************/
     /*                              Assumptions                              */
     /*************************************************************************/
+    /**
+     * @brief Returns an empty clause of the clause set, or CLAUSE_UNDEF if there is none.
+     */
+    Tclause empty_clause() const;
+
     bool add_assumption_N_CB(Tlit lit);
 
     /**
-- 
2.43.0


From c14a6d69ef19998ebc088c2f858b099070ae76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 70/79] fix: failed assumptions that imply the conflict were
 not reported

---
 src/solver/NapSAT-assumptions.cpp | 51 +++++++++++++++++++------------
 src/solver/NapSAT.hpp             |  5 +++
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index f1e13bd..e19f639 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -101,33 +101,44 @@ Tclause napsat::NapSAT::empty_clause() const
   return CLAUSE_UNDEF;
 }
 
+Tclause napsat::NapSAT::failed_conflict() const
+{
+  // look at each conflict clause, and find one that is falsified by locked chunks only
+  for (const Tclause conflict : _conflicts)
+    if (clause_chunks(conflict) <= _locked_chunks)
+      return conflict;
+  return CLAUSE_UNDEF;
+}
+
 std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding literals.
+  // find the assumptions that imply the falsified literals of the conflict. Return the corresponding literals.
   std::vector<Tlit> failed;
-  bitset conflict_chunks(_n_allocated_chunks);
-  for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      for (unsigned i = 0; i < size; i++) {
-        Tlit lit = lits[i];
-        if (lit_decision(lit) && lit_locked(lit)) {
-          failed.push_back(lit);
-        }
-      }
-      return failed;
+  const Tclause conflict = empty_clause() == CLAUSE_UNDEF ? failed_conflict() : CLAUSE_UNDEF;
+  // without such a conflict, the clauses are unsatisfiable on their own: no assumption failed
+  if (conflict == CLAUSE_UNDEF)
+    return failed;
+
+  std::vector<bool> seen(_vars.size().value, false);
+  for (unsigned i = 0; i < clause_size(conflict); i++)
+    seen[clause_lits(conflict)[i].var().value] = true;
+
+  // perform a reverse traversal of the trail
+  for (size_t i = _trail.size(); i-- > 0;) {
+    const Tlit lit = _trail[i];
+    if (!seen[lit.var().value] || lit_level(lit) == LEVEL_ROOT)
+      continue;
+    if (lit_decision(lit)) {
+      ASSERT(lit_locked(lit));
+      failed.push_back(~lit);
+      continue;
     }
+    const Tclause reason = lit_reason(lit);
+    for (unsigned j = 1; j < clause_size(reason); j++)
+      seen[clause_lits(reason)[j].var().value] = true;
   }
-  ASSERT(false);
   return failed;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index c6336be..166dfb8 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2308,6 +2308,11 @@ public:
      */
     Tclause empty_clause() const;
 
+    /**
+     * @brief Returns a conflict falsified by the assumptions and the literals they imply, or CLAUSE_UNDEF if there is none.
+     */
+    Tclause failed_conflict() const;
+
     bool add_assumption_N_CB(Tlit lit);
 
     /**
-- 
2.43.0


From 29bff1237c63a15a82196647dff63bb362aeabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 71/79] fix: clause cores missed the clauses that conflicts and
 literals at level 0 depend on

---
 src/solver/NapSAT-assumptions.cpp | 45 +++++++++++++++++--------------
 src/solver/NapSAT-clauses.cpp     | 26 ++++++++++--------
 src/solver/NapSAT-conflict.cpp    |  7 +++--
 src/solver/NapSAT-purge.cpp       |  3 ++-
 src/solver/NapSAT.hpp             |  5 ++++
 5 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index e19f639..3fc6477 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -110,6 +110,24 @@ Tclause napsat::NapSAT::failed_conflict() const
   return CLAUSE_UNDEF;
 }
 
+std::vector<Tclause> napsat::NapSAT::root_reasons(Tlit lit) const
+{
+  ASSERT(lit_level(lit) == LEVEL_ROOT);
+  std::vector<Tclause> reasons;
+  std::set<Tclause> seen;
+  std::vector<Tlit> pending = {lit};
+  while (!pending.empty()) {
+    const Tclause reason = lit_reason(pending.back());
+    pending.pop_back();
+    if (!seen.insert(reason).second)
+      continue;
+    reasons.push_back(reason);
+    for (unsigned i = 1; i < clause_size(reason); i++)
+      pending.push_back(clause_lits(reason)[i]);
+  }
+  return reasons;
+}
+
 std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
@@ -147,26 +165,13 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   ASSERT(_dependency_tracker, "Clause unsat core requires a dependency tracker.");
-  // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding clauses.
   std::set<Tclause> failed;
 
   // search the conflict that is responsible for the UNSAT
-  bitset conflict_chunks(_n_allocated_chunks);
-  Tclause conflict_clause = CLAUSE_UNDEF;
-  for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      conflict_clause = conflict;
-      break;
-    }
-  }
+  Tclause conflict_clause = failed_conflict();
+  if (conflict_clause == CLAUSE_UNDEF)
+    conflict_clause = empty_clause();
+  ASSERT(conflict_clause != CLAUSE_UNDEF);
 
   // now perform some sort of conflict analysis to find all clauses in the unsat core
   const set<Tclause>& dependecies = _dependency_tracker->get_dependencies(conflict_clause);
@@ -189,7 +194,7 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
     Tclause reason = lit_reason(lit);
     ASSERT(reason != CLAUSE_UNDEF || lit_locked(lit));
 
-    if (lit_locked(lit)) {
+    if (reason == CLAUSE_UNDEF) {
       // the literal is an assumption, nothing to do
       continue;
     }
@@ -197,10 +202,10 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
     // add the reason clause to the unsat core
     const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
     failed.insert(deps.begin(), deps.end());
-    // mark all literals in the reason clause
+    // mark all other literals in the reason clause
     const Tlit* rlits = clause_lits(reason);
     const unsigned rsize = clause_size(reason);
-    for (unsigned j = 0; j < rsize; j++)
+    for (unsigned j = 1; j < rsize; j++)
       lit_mark(rlits[j]);
   }
 
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 381baf2..55a2b9f 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -187,6 +187,19 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = input_size - n_removed;
   }
 
+  // the clause depends on itself and on the reasons of the literals removed because they are falsified at level 0
+  auto track_dependencies = [&]() {
+    if (!_dependency_tracker)
+      return;
+    if (external)
+      _dependency_tracker->add_input(id);
+    if (n_removed > 0)
+      for (unsigned i = 0; i < input_size; i++)
+        if (lit_level(lits_input[i]) == LEVEL_ROOT)
+          for (Tclause reason : root_reasons(lits_input[i]))
+            _dependency_tracker->link_dependencies(id, reason);
+  };
+
   if (clause_size == 0) {
     _status = status::UNSAT;
     NOTIFY(add_clause, id, lits, 0, external);
@@ -195,6 +208,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       prove_input_clause(id, lits_input, input_size, lits, 0);
     else if (_proof && n_removed > 0)
       prove_reduced_clause(id, lits_input, input_size, lits, 0);
+    track_dependencies();
     return id;
   }
 
@@ -232,17 +246,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     prove_input_clause(id, lits_input, input_size, lits, clause.size);
   else if (_proof && n_removed > 0)
     prove_reduced_clause(id, lits_input, input_size, lits, clause.size);
-  if (_dependency_tracker && external) {
-    _dependency_tracker->add_input(id);
-    // Remove the literals falsified at level 0 in the dependencies
-    if (n_removed > 0) {
-      for (unsigned i = 0; i < input_size; i++) {
-        if (lit_level(lits_input[i]) == LEVEL_ROOT) {
-          _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
-        }
-      }
-    }
-  }
+  track_dependencies();
   // sort the literals
   sort(lits, lits + clause.size);
   // print the clause
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 418164a..0dea1f4 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -827,7 +827,8 @@ bool NapSAT::analyze_conflict_impl(T level) {
     for (unsigned i = 0; i < _lit_buffer_size; i++) {
       Tlit lit = _lit_buffer[i];
       if (lit_level(lit) == LEVEL_ROOT) {
-        _dependency_tracker->track_dependency(lit_reason(lit));
+        for (Tclause reason : root_reasons(lit))
+          _dependency_tracker->track_dependency(reason);
       }
     }
   }
@@ -1173,8 +1174,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     bool has_uip = true;
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index a191894..d8b9462 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -223,7 +223,8 @@ void napsat::NapSAT::purge_clauses()
     }
     if (_dependency_tracker && previous_size != clause.size) {
       for (unsigned j = clause.size; j < previous_size; j++) {
-        _dependency_tracker->link_dependencies(cl, lit_reason(clause.lits[j]));
+        for (Tclause reason : root_reasons(clause.lits[j]))
+          _dependency_tracker->link_dependencies(cl, reason);
       }
     }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 166dfb8..455d34c 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2313,6 +2313,11 @@ public:
      */
     Tclause failed_conflict() const;
 
+    /**
+     * @brief Returns the reasons of a literal at level 0, and of all the literals they depend on.
+     */
+    std::vector<Tclause> root_reasons(Tlit lit) const;
+
     bool add_assumption_N_CB(Tlit lit);
 
     /**
-- 
2.43.0


From 70f8043ea2a74798dbfc0f9320600c27e9a6bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 72/79] fix: the limit on backtrack possibilities made
 assumptions fail

---
 src/solver/NapSAT-conflict.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 0dea1f4..cdf3eda 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1308,6 +1308,14 @@ void NapSAT::graph_repair()
 
   compute_backtrack_possibilities(possibilities);
 
+  if (possibilities.empty() && _n_assumptions > 0) {
+    // the possibilities found within the limit may all merge with an assumption, which cannot be backtracked
+    const auto limit = _options.backtrack_possibilities_limit;
+    _options.backtrack_possibilities_limit = numeric_limits<double>::infinity();
+    compute_backtrack_possibilities(possibilities);
+    _options.backtrack_possibilities_limit = limit;
+  }
+
   if (possibilities.empty()) {
     // we cannot repair the conflicts
     // TODO: We still need to generate the empty clause for the proof
-- 
2.43.0


From bb1753df079201c0ed356fad52944ffdedbdd403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 73/79] fix: forgetting an assumption with a missed implication
 corrupted the conflict analysis

---
 src/solver/NapSAT-assumptions.cpp | 7 -------
 src/solver/NapSAT-imply.cpp       | 4 ++--
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 3fc6477..16ff15c 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -269,9 +269,6 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
-  // once forgotten, the literal is a decision with a missed implication
-  if (_options.lazy_chunk_merging)
-    lit_lazy_reason(lit) = lit_reason(lit);
   lit_reason(lit) = CLAUSE_UNDEF;
   NOTIFY(update_reason, lit, CLAUSE_UNDEF);
   lit_level(lit) = level+1;
@@ -285,10 +282,6 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
 
   lit_chunks(lit).set(ck, true);
   _chunks[ck].decision = lit.var();
-  if (_options.lazy_chunk_merging) {
-    _chunks[ck].missed_implication = lit_chunk;
-    _chunks[ck].is_reimplied = true;
-  }
   _locked_chunks.set(ck, true);
 
   lit_lock(lit);
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 42d8d85..3afc70f 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -360,8 +360,8 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // Lazy chunk merging
-  if (_options.lazy_chunk_merging && lit_lazy_reason(c2) == CLAUSE_UNDEF) {
+  // Lazy chunk merging. An assumption stays a decision until it is forgotten
+  if (_options.lazy_chunk_merging && lit_lazy_reason(c2) == CLAUSE_UNDEF && !lit_locked(c2)) {
     // compute the chunk set of the clause, excluding the lits[1]
     bitset chunks(_n_allocated_chunks);
     for (size_t j = 1; j < clause.size; j++) {
-- 
2.43.0


From eafc2df0b411c25a13b638c58a0202a23a22a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 74/79] fix: assuming an implied literal left outdated missed
 implications

---
 src/solver/NapSAT-assumptions.cpp |  2 ++
 src/solver/NapSAT-imply.cpp       | 38 +++++++++++++++++--------------
 src/solver/NapSAT.hpp             |  5 ++++
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 16ff15c..9c5c389 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -326,6 +326,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   for (Tlit l : _trail)
     if (l != lit && (lit_chunks(l) | lit_cross_chunks(l)) >= lit_chunk)
       lit_cross_chunks(l).set(ck, true);
+
+  forget_outdated_lazy_reimplications();
 }
 
 bool NapSAT::add_assumption_GB_false(Tlit lit)
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3afc70f..7b8a86b 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -278,28 +278,32 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
       }
     }
 
-    if (_options.lazy_chunk_merging) {
-      // the chunks of the literals changed. Forget the lazy reimplications that depended on them
-      for (TSchunk& chunk : _chunks) {
-        if (!chunk.is_reimplied)
-          continue;
-        Tclause& lazy_reason = lit_lazy_reason(Tlit(chunk.decision, 1));
-        ASSERT(lazy_reason != CLAUSE_UNDEF);
-        bitset chunks(_n_allocated_chunks);
-        for (unsigned j = 1; j < clause_size(lazy_reason); j++)
-          chunks |= lit_chunks(clause_lits(lazy_reason)[j]);
-        if (chunks != chunk.missed_implication) {
-          lazy_reason = CLAUSE_UNDEF;
-          chunk.missed_implication.clear();
-          chunk.is_reimplied = false;
-        }
-      }
-    }
+    forget_outdated_lazy_reimplications();
   }
 
   ASSERT(check_decision_index_consistency());
 }
 
+void NapSAT::forget_outdated_lazy_reimplications()
+{
+  if (!_options.lazy_chunk_merging)
+    return;
+  for (TSchunk& chunk : _chunks) {
+    if (!chunk.is_reimplied)
+      continue;
+    Tclause& lazy_reason = lit_lazy_reason(Tlit(chunk.decision, 1));
+    ASSERT(lazy_reason != CLAUSE_UNDEF);
+    bitset chunks(_n_allocated_chunks);
+    for (unsigned j = 1; j < clause_size(lazy_reason); j++)
+      chunks |= lit_chunks(clause_lits(lazy_reason)[j]);
+    if (chunks != chunk.missed_implication) {
+      lazy_reason = CLAUSE_UNDEF;
+      chunk.missed_implication.clear();
+      chunk.is_reimplied = false;
+    }
+  }
+}
+
 void NapSAT::reimply_literal(Tlit c2, Tclause reason)
 {
   ASSERT(reason != CLAUSE_UNDEF && reason != CLAUSE_LAZY);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 455d34c..1d1ea1b 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1778,6 +1778,11 @@ public:
      */
     void reimply_literal_root(Tlit lit, Tclause reason);
 
+    /**
+     * @brief Forgets the lazy reimplications of decisions by clauses whose chunks changed since they were found.
+     */
+    void forget_outdated_lazy_reimplications();
+
     /**
      * @brief Eagerly reimplies a decision literal to an implied literals with new justification.
      * @details Restores the topological order of the trail by reimplying the decision
-- 
2.43.0


From 14e6b3a971e71f033e59f07765a088c045c53371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 75/79] fix: without a falsified clause over the assumptions,
 the cores were empty or not found

---
 src/solver/NapSAT-assumptions.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 9c5c389..99fa6ef 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -134,10 +134,17 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   // find the assumptions that imply the falsified literals of the conflict. Return the corresponding literals.
   std::vector<Tlit> failed;
-  const Tclause conflict = empty_clause() == CLAUSE_UNDEF ? failed_conflict() : CLAUSE_UNDEF;
-  // without such a conflict, the clauses are unsatisfiable on their own: no assumption failed
-  if (conflict == CLAUSE_UNDEF)
+  // if there is an empty clause, the clauses are unsatisfiable on their own: no assumption failed
+  if (empty_clause() != CLAUSE_UNDEF)
     return failed;
+  const Tclause conflict = failed_conflict();
+  if (conflict == CLAUSE_UNDEF) {
+    // merging chunks showed that the conflicts cannot be repaired, any of the assumptions may take part in it
+    for (const Tlit lit : _trail)
+      if (lit_locked(lit) && lit_level(lit) != LEVEL_ROOT)
+        failed.push_back(~lit);
+    return failed;
+  }
 
   std::vector<bool> seen(_vars.size().value, false);
   for (unsigned i = 0; i < clause_size(conflict); i++)
@@ -171,7 +178,16 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   Tclause conflict_clause = failed_conflict();
   if (conflict_clause == CLAUSE_UNDEF)
     conflict_clause = empty_clause();
-  ASSERT(conflict_clause != CLAUSE_UNDEF);
+  if (conflict_clause == CLAUSE_UNDEF) {
+    // merging chunks showed that the conflicts cannot be repaired, any of the clauses may take part in it
+    for (Tclause cl = 0; cl < _clauses.size(); cl++) {
+      if (_clauses[cl].deleted)
+        continue;
+      const set<Tclause>& deps = _dependency_tracker->get_dependencies(cl);
+      failed.insert(deps.begin(), deps.end());
+    }
+    return std::vector<Tclause>(failed.begin(), failed.end());
+  }
 
   // now perform some sort of conflict analysis to find all clauses in the unsat core
   const set<Tclause>& dependecies = _dependency_tracker->get_dependencies(conflict_clause);
-- 
2.43.0


From a04d191ab5611567165890fd917837c00fa7a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 76/79] fix: observer was not told that literals moved by eager
 merging are propagated

---
 src/solver/NapSAT-imply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 7b8a86b..73c6f2a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -566,7 +566,7 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
     for (size_t i = decision_position; i < _trail.size(); i++) {
       Tlit lit = _trail[i];
       NOTIFY(assign, lit, lit_reason(lit));
-      if (i < _n_propagated_lits) {
+      if (lit_propagated(lit)) {
         NOTIFY(propagate, lit);
       }
     }
-- 
2.43.0


From b73f342abe3b997f96a5b6612e30640ffb77b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 77/79] fix: links of a graph exported to a folder given with a
 trailing slash named no vault

---
 src/exporter/implication_graph_exporter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exporter/implication_graph_exporter.cpp b/src/exporter/implication_graph_exporter.cpp
index 2cc4075..998ffcb 100644
--- a/src/exporter/implication_graph_exporter.cpp
+++ b/src/exporter/implication_graph_exporter.cpp
@@ -115,7 +115,9 @@ void implication_graph_exporter::create_file_for_literal(const std::string& fold
 
   // replace the placeholder VAULT_PLACEHOLDER in the content with the actual folder name
   std::string content_with_links = content;
-  std::string vault_name = folder_name.substr(folder_name.find_last_of("/\\") + 1);
+  // a trailing separator is not part of the name of the folder
+  std::string vault_name = folder_name.substr(0, folder_name.find_last_not_of("/\\") + 1);
+  vault_name = vault_name.substr(vault_name.find_last_of("/\\") + 1);
 
   size_t pos = content_with_links.find(VAULT_PLACEHOLDER);
   while (pos != std::string::npos) {
-- 
2.43.0


From e4a19c3d6886b140050061f39177de9cbccd3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 78/79] fix: graph backtracking used chunks that do not exist
 with more than 4032 decisions

---
 src/solver/NapSAT-utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4ee7341..4eac622 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -375,8 +375,9 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  const Tchunk first_new_chunk = _n_allocated_chunks;
+  for (Tchunk i = n_chunks; i > first_new_chunk; i--) {
+    _free_chunks.push_back(i - 1);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -386,9 +387,10 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _chunks.size().value; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
+  _locked_chunks.resize(_n_allocated_chunks);
 }
 
 unsigned NapSAT::utility_heuristic(Tlit lit)
-- 
2.43.0


From 77db0c3972d08f1c12d59e09737f21d24a9b5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 79/79] fix: assuming an implied literal compared sets of
 different sizes when the chunks grew

---
 src/solver/NapSAT-assumptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 99fa6ef..f02a9fc 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -281,6 +281,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
    * 3. update the chunks of all literals whose chunks are superset of the chunk of the assumed literal (before the change)
    * 4. update the levels of all literals above `level` in the trail (because we added a decision)
    */
+  if (_free_chunks.empty())
+    allocate_chunks(2 * _n_allocated_chunks);
   bitset lit_chunk = lit_chunks(lit);
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
@@ -291,8 +293,6 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   NOTIFY(update_level, lit, level+1);
 
   lit_chunks(lit).clear();
-  if (_free_chunks.empty())
-    allocate_chunks(2 * _n_allocated_chunks);
   unsigned ck = _free_chunks.back();
   _free_chunks.pop_back();
 
-- 
2.43.0

