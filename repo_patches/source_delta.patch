From 0560a64ef9a0e8ee12526ee3d912035523812129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 01/20] fix: keep PsddParameter hash in step with compound
 assignments

---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..260c7b8 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From 720d258414d3151b1421248b489e39e2375cb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 02/20] fix: tell unconstrained-variable nodes apart by both
 parameters

---
 src/psdd_node.cpp         | 4 +++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..5228792 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
@@ -998,6 +999,7 @@ uint32_t PsddTopNode::variable_index() const { return variable_index_; }
 void PsddTopNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uint32_t>{}(variable_index_);
   hash_value ^= true_parameter_.hash_value() << 1;
+  hash_value ^= false_parameter_.hash_value() << 3;
   hash_value ^= std::hash<uintmax_t>{}(flag_index()) << 2;
   set_hash_value(hash_value);
 }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From ead1c5299b1195896cff7266f641fa3060b6292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 03/20] fix: end CNF clauses at their 0 and ignore blank lines

---
 src/cnf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..17d18b6 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -43,6 +43,7 @@ SddNode *ConstructSddFromCnf(
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
   std::string line;
+  std::vector<SddLiteral> clause;
   while (getline(cnf_file, line)) {
     if (line[0] == 'p') {
       continue;
@@ -50,15 +51,19 @@ CNF::CNF(const char *filename) {
     if (line[0] == 'c'){
       continue;
     }
-    std::vector<SddLiteral> clause;
+    // A clause ends at its 0, not at the end of the line.
     std::stringstream ss(line);
     SddLiteral token;
     while (ss >> token) {
       if (token == 0) {
-        break;
+        clauses_.push_back(clause);
+        clause.clear();
+      } else {
+        clause.push_back(token);
       }
-      clause.push_back(token);
     }
+  }
+  if (!clause.empty()) {
     clauses_.push_back(clause);
   }
   cnf_file.close();
-- 
2.43.0


From 8646be64b44600923d4299defcfbd50b5325a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 04/20] fix: multiply a null PSDD to the null PSDD with
 constant 0

---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..5d40619 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -572,6 +572,10 @@ PsddNode *PsddManager::NormalizePsddNode(Vtree *target_vtree_node,
 
 std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     PsddNode *arg1, PsddNode *arg2, uintmax_t flag_index) {
+  if (arg1 == nullptr || arg2 == nullptr) {
+    // nullptr for PsddNode means false
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
-- 
2.43.0


From 773dd56834e29819c29d0c68e4b52a17e3e27ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 05/20] fix: list every node before its children when a root
 contains another

---
 src/psdd_node.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 5228792..d2ce239 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -288,6 +288,22 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  // A root may also be reached from another root. A parent's vtree node is
+  // always above the ones of its children.
+  std::unordered_map<uintmax_t, uintmax_t> vtree_depth;
+  for (const auto cur_node : result) {
+    uintmax_t depth = 0;
+    for (Vtree *v = cur_node->vtree_node(); v != nullptr;
+         v = sdd_vtree_parent(v)) {
+      ++depth;
+    }
+    vtree_depth[cur_node->node_index()] = depth;
+  }
+  std::stable_sort(result.begin(), result.end(),
+                   [&vtree_depth](PsddNode *a, PsddNode *b) {
+                     return vtree_depth[a->node_index()] <
+                            vtree_depth[b->node_index()];
+                   });
   return result;
 }
 
-- 
2.43.0


From 7eacf693cb7a3d8d3592806a549e2480cb2b2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 06/20] fix: draw only assignments of positive probability at
 the end of the random interval

---
 src/psdd_node.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index d2ce239..381e45d 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -958,17 +958,24 @@ void PsddDecisionNode::DirectSample(
       (generator->max() - generator->min()));
   PsddParameter acc = PsddParameter::CreateFromDecimal(0);
   auto element_size = primes_.size();
+  // Rounding can leave the accumulated parameters at or below uniform_rand. The
+  // last partition with a positive parameter is used then.
+  size_t selected = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
+    if (cur_parameter == PsddParameter::CreateFromDecimal(0)) {
+      continue;
+    }
+    selected = i;
     acc = acc + cur_parameter;
     if (uniform_rand < acc) {
       // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+      break;
     }
   }
-  assert(false);
+  assert(selected != element_size);
+  primes_[selected]->DirectSample(instantiation, generator);
+  subs_[selected]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1040,7 +1047,8 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand < true_parameter_ ||
+      false_parameter_ == PsddParameter::CreateFromDecimal(0)) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From 3d153d7eee91e2e8b885aa46383b0bc3ab97dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 07/20] fix: read the -inf written for zero parameters in PSDD
 files

---
 src/psdd_manager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 5d40619..0352329 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,6 +6,7 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
@@ -223,6 +224,13 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
     }
   }
 }
+
+// Stream extraction does not read the "-inf" written for a zero parameter.
+double ReadLogParameter(std::istream *input) {
+  std::string token;
+  *input >> token;
+  return std::strtod(token.c_str(), nullptr);
+}
 }  // namespace
 
 PsddManager *PsddManager::GetPsddManagerFromSddVtree(
@@ -616,10 +624,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      iss >> node_index >> vtree_index >> variable_index;
+      double neg_log_pr = ReadLogParameter(&iss);
+      double pos_log_pr = ReadLogParameter(&iss);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -638,8 +645,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        iss >> prime_index >> sub_index;
+        double weight_in_log = ReadLogParameter(&iss);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From 71ea505d11010feb87bb24d457f7055b6b53eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 08/20] fix: compile a network without weight to the null PSDD
 with constant 0

A factor whose entries are all zero, or a product that becomes null, was
passed on as a node: it crashed, failed an assertion, or was replaced by the
next factor.
---
 src/pgm_compiler.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..3c97efc 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -176,6 +176,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
+  if (result == nullptr) {
+    // Every entry of the factor is zero.
+    return {nullptr, zero_param};
+  }
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
@@ -198,6 +202,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -239,6 +246,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
                     << psdd_node_util::SerializePsddNodes(cur_node).size()
                     << std::endl;
           auto mult_result = m_pm->Multiply(total, cur_node, /*flag_index*/ 0);
+          if (mult_result.first == nullptr) {
+            return {nullptr, PsddParameter::CreateFromDecimal(0)};
+          }
           proc_nodes++;
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
@@ -263,6 +273,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -293,6 +306,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -327,6 +343,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
                 << std::endl;
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
+      if (mult_result.first == nullptr) {
+        return {nullptr, PsddParameter::CreateFromDecimal(0)};
+      }
       final_result = mult_result.first;
       z *= mult_result.second;
     }
@@ -354,6 +373,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -403,6 +425,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
-- 
2.43.0


From 112ad9f9f1854cbd8d902c4a5ac66c6377d35c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 09/20] fix: reset the network and skip blank lines when
 reading a UAI file

A second read_file appended to the scopes and tables of the first, and a line
of spaces between tables was taken for a table header.
---
 src/uai_network.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..21e5749 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -41,6 +41,8 @@ void UaiNetwork::read_file(const char* uai_file) {
   getline(uaifs, string_buf);
   int factor_num = stoi(string_buf);
   m_factor_size = (size_t)factor_num;
+  m_clusters.clear();
+  m_params.clear();
   for (int i = 0; i < m_factor_size; i++) {
     std::vector<size_t> order_list;
     getline(uaifs, string_buf);
@@ -55,7 +57,7 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
-    while (string_buf == "") {
+    while (string_buf.find_first_not_of(" \t\r") == std::string::npos) {
       getline(uaifs, string_buf);
     }
     size_t entry_cnt;
-- 
2.43.0


From 6bcaeb28313e6357ffdc556e1e25a41b44eec633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 10/20] fix: start datasets empty and forget old records when
 reading a file

The counters of a new dataset were not initialised, and ReadFile kept the
records read or added before while starting its counters at zero.
---
 include/psdd/binary_data.h | 4 ++--
 src/binary_data.cpp        | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From e09d62f96918926be9e5721f50d79d3bc3c6b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 11/20] fix: skip sparse JSON examples with indices that are
 not positive integers

Index 0 set a bit of no variable, a negative one threw, and a fractional one
was rounded.
---
 src/binary_data.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9218d15..219bc96 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -130,7 +130,8 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
       if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+        if (cur_variable >= 1 && cur_variable <= variable_size &&
+            cur_variable == (uint32_t)cur_variable) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From b933db8358f4a22b56b5ead79999ed1dcd5c8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:41 +0000
Subject: [PATCH 12/20] fix: keep the CSV parser inside its buffers and let it
 end on read errors

---
 src/csvparser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..1965fef 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -126,7 +126,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       if (csvParser->fileHandler_ == NULL) {
         int errorNum = errno;
         const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
         strcpy(errMsg, "");
         sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
         _CsvParser_setErrorMessage(csvParser, errMsg);
@@ -148,12 +148,14 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
   while (1) {
     char currChar =
         (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
     int endOfFileIndicator;
     if (csvParser->fromString_) {
       endOfFileIndicator = (currChar == '\0');
     } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
+      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
+    }
+    if (!endOfFileIndicator) {
+      csvParser->csvStringIter_++;
     }
     if (endOfFileIndicator) {
       if (currFieldCharIter == 0 && fieldIter == 0) {
@@ -184,7 +186,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       seriesOfQuotesLength = 0;
     }
     if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
       csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
       strcpy(csvRow->fields_[fieldIter], currField);
       free(currField);
-- 
2.43.0


From 18da2c34267b2a338d92f146b865cea11916021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 13/20] fix: allow file and working directory paths of any
 length when compiling networks

---
 src/hypergraph_decomposition_vtree.cpp |  8 +++-----
 uai_compiler.cpp                       | 11 +++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..7b6353a 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -6,6 +6,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -73,15 +74,12 @@ r-hfc-mbc=true
 
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
-  char fname[500];
-  fname[0] = '\0';
-  strcpy(fname, working_dir);
-  strcat(fname, "/config.ini");
+  std::string fname = std::string(working_dir) + "/config.ini";
   config_file.open(fname);
   config_file << kahypar_config;
   config_file.close();
   kahypar_context_t* context = kahypar_context_new();
-  kahypar_configure_context_from_file(context, fname);
+  kahypar_configure_context_from_file(context, fname.c_str());
   return context;
 }
 
diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d8f55fa..19847aa 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstring>
 #include <iostream>
+#include <string>
 
 #include "psdd/pgm_compiler.h"
 
@@ -64,13 +65,11 @@ int main(int argc, const char* argv[]) {
   auto result = pc.compile_network_dc(100);
 
   // output filename
-  char psdd_fname[1000];
-  char vtree_fname[1000];
-  sprintf(psdd_fname, "%s.psdd", uai_fname);
-  sprintf(vtree_fname, "%s.vtree", uai_fname);
+  std::string psdd_fname = std::string(uai_fname) + ".psdd";
+  std::string vtree_fname = std::string(uai_fname) + ".vtree";
 
-  psdd_node_util::WritePsddToFile(result.first, psdd_fname);
-  sdd_vtree_save(vtree_fname, pc.psdd_manager()->vtree());
+  psdd_node_util::WritePsddToFile(result.first, psdd_fname.c_str());
+  sdd_vtree_save(vtree_fname.c_str(), pc.psdd_manager()->vtree());
   std::cout << "Final size "
             << psdd_node_util::SerializePsddNodes(result.first).size()
             << std::endl;
-- 
2.43.0


From 1ed5cf41f32109d2daeb94a1268895e55bece30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:26 +0000
Subject: [PATCH 14/20] fix: refuse a CNF file that cannot be opened instead of
 taking it for an empty CNF

---
 src/cnf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 17d18b6..5c53a1e 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -4,7 +4,9 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <psdd/cnf.h>
 #include <psdd/psdd_unique_table.h>
 #include <queue>
@@ -42,6 +44,10 @@ SddNode *ConstructSddFromCnf(
 } // namespace
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
+  if (!cnf_file) {
+    std::cerr << "File " << filename << " cannot be open." << std::endl;
+    exit(1);
+  }
   std::string line;
   std::vector<SddLiteral> clause;
   while (getline(cnf_file, line)) {
-- 
2.43.0


From 568355d86c52bbab2df9938f0e9abd8f5428596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:26 +0000
Subject: [PATCH 15/20] fix: refuse a CSV file that cannot be opened instead of
 taking it for an empty dataset

---
 src/binary_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 219bc96..56551d6 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -13,7 +13,7 @@ using nlohmann::json;
 
 void BinaryData::ReadFile(const char *data_file) {
   CsvParser *csvparser = CsvParser_new(data_file, ",", 0);
-  if (csvparser == nullptr) {
+  if (csvparser == nullptr || !std::ifstream(data_file)) {
     std::cerr << "Failed to load csv" << std::endl;
     exit(1);
   }
-- 
2.43.0


From c167171718262fe71624b6dc1c15fd65c071cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:26 +0000
Subject: [PATCH 16/20] fix: reading a UAI file that is cut off no longer runs
 forever

---
 src/uai_network.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index 21e5749..64a1751 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -5,11 +5,21 @@
 #include "psdd/uai_network.h"
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
 #include <string>
 
+namespace {
+void GetTableLine(std::istream* input, std::string* line) {
+  if (!getline(*input, *line)) {
+    std::cerr << "factor file ends before its last table." << std::endl;
+    exit(1);
+  }
+}
+}  // namespace
+
 UaiNetwork::UaiNetwork() {}
 
 UaiNetwork::UaiNetwork(size_t var_size, size_t factor_size, int network_type,
@@ -58,7 +68,7 @@ void UaiNetwork::read_file(const char* uai_file) {
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
     while (string_buf.find_first_not_of(" \t\r") == std::string::npos) {
-      getline(uaifs, string_buf);
+      GetTableLine(&uaifs, &string_buf);
     }
     size_t entry_cnt;
     std::istringstream iss(string_buf);
@@ -70,7 +80,7 @@ void UaiNetwork::read_file(const char* uai_file) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
     while (param_list.size() < entry_cnt) {
-      getline(uaifs, string_buf);
+      GetTableLine(&uaifs, &string_buf);
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
-- 
2.43.0


From fb94085d22efceeb182ce940e7a2686bd7204bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 17/20] fix: refuse a PSDD file that is cut off instead of
 reading what is left of it

---
 src/psdd_manager.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 0352329..d82c9df 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -231,6 +231,13 @@ double ReadLogParameter(std::istream *input) {
   *input >> token;
   return std::strtod(token.c_str(), nullptr);
 }
+
+void RequireComplete(bool complete, const char *psdd_filename) {
+  if (!complete) {
+    std::cerr << "File " << psdd_filename << " is incomplete." << std::endl;
+    exit(1);
+  }
+}
 }  // namespace
 
 PsddManager *PsddManager::GetPsddManagerFromSddVtree(
@@ -599,7 +606,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
   }
   std::string line;
   PsddNode *root_node = nullptr;
-  uint32_t psdd_size;
+  uint32_t psdd_size = 0;
   uint32_t num_constructed = 0;
   while (std::getline(psdd_file, line)) {
     if (line[0] == 'c') {
@@ -616,6 +623,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uint32_t vtree_index;
       int32_t literal;
       iss >> node_index >> vtree_index >> literal;
+      RequireComplete(!iss.fail(), psdd_filename);
       PsddNode *cur_node = GetPsddLiteralNode(literal, flag_index);
       construct_cache[node_index] = cur_node;
       root_node = cur_node;
@@ -627,6 +635,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       iss >> node_index >> vtree_index >> variable_index;
       double neg_log_pr = ReadLogParameter(&iss);
       double pos_log_pr = ReadLogParameter(&iss);
+      RequireComplete(!iss.fail(), psdd_filename);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -639,6 +648,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       int vtree_index;
       uintmax_t element_size;
       iss >> node_index >> vtree_index >> element_size;
+      RequireComplete(!iss.fail(), psdd_filename);
       std::vector<PsddNode *> primes;
       std::vector<PsddNode *> subs;
       std::vector<PsddParameter> params;
@@ -647,6 +657,7 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
         uintmax_t sub_index;
         iss >> prime_index >> sub_index;
         double weight_in_log = ReadLogParameter(&iss);
+        RequireComplete(!iss.fail(), psdd_filename);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
@@ -670,6 +681,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
   }
   psdd_file.close();
   std::cout << std::endl;
+  RequireComplete(root_node != nullptr && num_constructed >= psdd_size,
+                  psdd_filename);
   return root_node;
 }
 std::vector<PsddNode *> PsddManager::SampleParametersForMultiplePsdds(
-- 
2.43.0


From 57714839112cfe9b0b8a6fcaa7d3a893ba5e8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:45 +0000
Subject: [PATCH 18/20] fix: report a PSDD or dataset file that cannot be
 written

---
 src/binary_data.cpp | 4 ++++
 src/psdd_node.cpp   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 56551d6..f3dbfc9 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -61,6 +61,10 @@ void BinaryData::WriteFile(const char *data_file) {
     }
   }
   data_fd.close();
+  if (!data_fd) {
+    std::cerr << "File " << data_file << " cannot be written." << std::endl;
+    exit(1);
+  }
 }
 
 uintmax_t BinaryData::data_size() const { return data_size_; }
diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 381e45d..de93d1f 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <gmp.h>
@@ -647,6 +648,11 @@ void WritePsddToFile(PsddNode *root_node, const char *output_filename) {
   output_file.open(output_filename);
   output_file << psdd_content;
   output_file.close();
+  if (!output_file) {
+    std::cerr << "File " << output_filename << " cannot be written."
+              << std::endl;
+    exit(1);
+  }
   for (PsddNode *cur_node : serialized_psdds) {
     cur_node->SetUserData(0);
   }
-- 
2.43.0


From 6530d0f8e7753b45759730e7514b317b3c11d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 19/20] fix: a UAI file cut off at the end of a table does not
 repeat that table

---
 src/uai_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index 64a1751..a5afc2a 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -66,7 +66,7 @@ void UaiNetwork::read_file(const char* uai_file) {
     m_clusters.push_back(order_list);
   }
   for (int i = 0; i < m_factor_size; i++) {
-    getline(uaifs, string_buf);
+    GetTableLine(&uaifs, &string_buf);
     while (string_buf.find_first_not_of(" \t\r") == std::string::npos) {
       GetTableLine(&uaifs, &string_buf);
     }
-- 
2.43.0


From 8628920ced2fa36b9919a3deeabcf715f20011aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:06 +0000
Subject: [PATCH 20/20] fix: consistency of a decision node examines shared
 nodes once

---
 src/psdd_node.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index de93d1f..89201bb 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -910,18 +910,35 @@ bool PsddDecisionNode::operator==(const PsddDecisionNode &other) const {
 
 int PsddDecisionNode::node_type() const { return 2; }
 
+namespace {
+// Nodes reached along several paths are examined once.
+bool IsConsistentOnce(const PsddNode *node,
+                      const std::unordered_map<uint32_t, bool> &instantiation,
+                      std::unordered_map<const PsddNode *, bool> *examined) {
+  if (node->node_type() != DECISION_NODE_TYPE) {
+    return node->IsConsistent(instantiation);
+  }
+  auto examined_it = examined->find(node);
+  if (examined_it != examined->end()) {
+    return examined_it->second;
+  }
+  auto decision_node = static_cast<const PsddDecisionNode *>(node);
+  const auto &primes = decision_node->primes();
+  const auto &subs = decision_node->subs();
+  bool consistent = false;
+  for (size_t i = 0; i < primes.size() && !consistent; i++) {
+    consistent = IsConsistentOnce(primes[i], instantiation, examined) &&
+                 IsConsistentOnce(subs[i], instantiation, examined);
+  }
+  (*examined)[node] = consistent;
+  return consistent;
+}
+} // namespace
+
 bool PsddDecisionNode::IsConsistent(
     const std::unordered_map<uint32_t, bool> &partial_instantiation) const {
-  auto element_size = primes_.size();
-  for (size_t i = 0; i < element_size; i++) {
-    PsddNode *cur_prime = primes_[i];
-    PsddNode *cur_sub = subs_[i];
-    if (cur_prime->IsConsistent(partial_instantiation) &&
-        cur_sub->IsConsistent(partial_instantiation)) {
-      return true;
-    }
-  }
-  return false;
+  std::unordered_map<const PsddNode *, bool> examined;
+  return IsConsistentOnce(this, partial_instantiation, &examined);
 }
 
 const std::vector<PsddNode *> &PsddDecisionNode::primes() const {
-- 
2.43.0

