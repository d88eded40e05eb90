From a54e0d538c7e48f862ef5cc7955cef0c1d1a0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 01/29] fix: depth-first and A* search lose the last plan

---
 include/symbolic/planning/a_star.h             | 7 +++++--
 include/symbolic/planning/depth_first_search.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..97a93cb 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,14 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +96,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +106,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..7297b88 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,14 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +81,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +92,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From b0d1bc93d85776bf2fc3c3011e875cac4c932d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 02/29] fix: combination iterators show stale elements when
 re-entering the range

---
 include/symbolic/utils/combination_generator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..9f3aa82 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,13 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // The combination doesn't match the current index if it is out of bounds
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From d2921594e4e3f9b9989310ae74d44818c2c2365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 03/29] fix: reverse combination iterator minus offset does not
 compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 9f3aa82..9206124 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -444,7 +444,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From 142afe10ea46fb4377c17f4763ed79dc68b6261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 04/29] fix: actions and predicates without parameters have no
 combinations

---
 .../symbolic/utils/combination_generator.h    |  3 +-
 src/normal_form.cc                            |  4 +++
 src/utils/parameter_generator.cc              | 33 ++++++++++++++-----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 9206124..7833e74 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -194,7 +194,8 @@ class CombinationGenerator {
    */
   static size_t ComputeSize(const std::vector<ContainerT*>& options,
                             const std::vector<size_t>& size_groups) {
-    if (options.empty()) return 0;
+    // There is exactly one way to choose nothing
+    if (options.empty()) return 1;
     return options.front()->size() * size_groups.front();
   }
 
diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..1831b59 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -212,6 +212,10 @@ std::optional<DisjunctiveFormula> Conjoin(
     if (dnf.empty()) continue;
     conjunctions.push_back(&dnf.conjunctions);
   }
+
+  // All the terms are true, so the conjunction is too
+  if (conjunctions.empty()) return conj;
+
   CombinationGenerator<const std::vector<DisjunctiveFormula::Conjunction>> gen(
       conjunctions);
 
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..72e49f0 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -25,9 +25,10 @@ std::vector<std::vector<Object>> ParamTypes(
   std::vector<std::vector<Object>> types;
   types.reserve(params.size());
   for (const Object& param : params) {
-    try {
-      types.push_back(object_map.at(param.type().name()));
-    } catch (...) {
+    const auto it = object_map.find(param.type().name());
+    if (it != object_map.end() && !it->second.empty()) {
+      types.push_back(it->second);
+    } else {
       // std::cerr << "ParameterGenerator(): parameter type '"
       //           << param.type().name() << " not found in object map."
       //           << std::endl;
@@ -51,6 +52,18 @@ std::vector<const std::vector<Object>*> Options(
   return options;
 }
 
+/**
+ * Create the combination generator over the given parameter types.
+ *
+ * There are no combinations if one of the parameter types has no objects, and
+ * exactly one (empty) combination if there are no parameters.
+ */
+ParameterGenerator::Base CreateBase(
+    const std::vector<std::vector<Object>>& param_types, bool is_empty) {
+  return is_empty ? ParameterGenerator::Base()
+                  : ParameterGenerator::Base(Options(param_types));
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -58,18 +71,19 @@ namespace symbolic {
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
     : param_types_(ParamTypes(pddl.object_map(), params)) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, param_types_.size() != params.size()));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
     : param_types_(other.param_types_) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
     : param_types_(std::move(other.param_types_)) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, other.empty()));
+  other.Base::operator=(Base());
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
@@ -78,15 +92,18 @@ ParameterGenerator& ParameterGenerator::operator=(
 
   pddl_ = rhs.pddl_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, rhs.empty()));
   return *this;
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
+  if (this == &rhs) return *this;
+
   pddl_ = rhs.pddl_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, rhs.empty()));
+  rhs.Base::operator=(Base());
   return *this;
 }
 
-- 
2.43.0


From 18ffd7d5abe24d3db891dabc6a9bcd95edc6ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 05/29] fix: parameter generators and predicates lose their
 Pddl

---
 src/utils/parameter_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 72e49f0..e8c6fff 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -70,18 +70,18 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   Base::operator=(CreateBase(param_types_, param_types_.size() != params.size()));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(CreateBase(param_types_, other.empty()));
   other.Base::operator=(Base());
 }
-- 
2.43.0


From ae80e06f1b767d10b4167c21742c4600a4493e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 06/29] fix: axioms triggered with arguments that don't match
 or aren't bound

---
 include/symbolic/axiom.h | 15 ++++----
 src/action.cc            | 75 ++++++++++++--------------------------
 src/axiom.cc             | 77 ++++++----------------------------------
 3 files changed, 38 insertions(+), 129 deletions(-)

diff --git a/include/symbolic/axiom.h b/include/symbolic/axiom.h
index 9ff901d..8332b23 100644
--- a/include/symbolic/axiom.h
+++ b/include/symbolic/axiom.h
@@ -71,16 +71,13 @@ class Axiom : public Action {
   friend std::ostream& operator<<(std::ostream& os, const Axiom& axiom);
 
   /**
-   * Creates a function that takes action_args and returns axiom_args based on
-   * positional indices of the axiom context proposition. If the action_args are
-   * not consistent with the axiom context, returns an empty vector.
+   * Finds all the well-typed axiom arguments for which the axiom context is the
+   * proposition with the given arguments.
+   *
+   * Axiom parameters that don't appear in the context are enumerated.
    */
-  static std::optional<
-      std::function<const std::vector<Object>*(const std::vector<Object>&)>>
-  CreateApplicationFunction(const std::vector<Object>& action_params,
-                            const std::vector<Object>& action_prop_params,
-                            const std::vector<Object>& axiom_params,
-                            const std::vector<Object>& axiom_prop_params);
+  std::vector<std::vector<Object>> MatchContext(
+      const std::vector<Object>& prop_args) const;
 
  private:
   bool IsConsistent(PartialState* state, bool* is_changed) const;
diff --git a/src/action.cc b/src/action.cc
index 68d42b5..19e6a82 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -37,9 +37,6 @@ using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
 using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
 
-using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
-
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
                                          const VAL::effect_lists* effects,
@@ -121,19 +118,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   // Prepare axioms.
   const std::string axiom_context =
       SignedProposition::Sign(true) + name_predicate;
-  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
+  std::vector<std::weak_ptr<Axiom>> axioms;
   if (pddl.axiom_map().count(axiom_context) > 0) {
-    for (const std::weak_ptr<Axiom>& ptr_axiom :
-         pddl.axiom_map().at(axiom_context)) {
-      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
-    }
+    axioms = pddl.axiom_map().at(axiom_context);
   }
 
   // Add normal predicate
@@ -141,24 +128,20 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
+    // Copy the arguments, since axioms might use this function recursively.
+    const std::vector<Object> prop_args = Apply(arguments);
     int status = state->insert(
-        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
+        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
     // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
+    for (const std::weak_ptr<Axiom>& ptr_axiom : axioms) {
+      const Axiom& axiom = *ptr_axiom.lock();
+      for (const std::vector<Object>& axiom_args :
+           axiom.MatchContext(prop_args)) {
+        axiom.Action::Apply(axiom_args, state);
+      }
     }
     return status;
   };
@@ -210,19 +193,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   // Prepare axioms.
   const std::string axiom_context =
       SignedProposition::Sign(false) + name_predicate;
-  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
+  std::vector<std::weak_ptr<Axiom>> axioms;
   if (pddl.axiom_map().count(axiom_context) > 0) {
-    for (const std::weak_ptr<Axiom>& ptr_axiom :
-         pddl.axiom_map().at(axiom_context)) {
-      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
-    }
+    axioms = pddl.axiom_map().at(axiom_context);
   }
 
   // Remove normal predicate
@@ -230,24 +203,20 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
+    // Copy the arguments, since axioms might use this function recursively.
+    const std::vector<Object> prop_args = Apply(arguments);
     int status = state->erase(
-        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
+        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
     // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
+    for (const std::weak_ptr<Axiom>& ptr_axiom : axioms) {
+      const Axiom& axiom = *ptr_axiom.lock();
+      for (const std::vector<Object>& axiom_args :
+           axiom.MatchContext(prop_args)) {
+        axiom.Action::Apply(axiom_args, state);
+      }
     }
     return status;
   };
diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..f6c15f0 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -25,9 +25,6 @@ using ::symbolic::ParameterGenerator;
 using ::symbolic::Pddl;
 using ::symbolic::SignedProposition;
 
-using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
-
 /**
  * Prepares list of possible arguments given axiom parameters.
  */
@@ -233,72 +230,18 @@ std::ostream& operator<<(std::ostream& os, const Axiom& axiom) {
   return os;
 }
 
-std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
-    const std::vector<Object>& action_params,
-    const std::vector<Object>& action_prop_params,
-    const std::vector<Object>& axiom_params,
-    const std::vector<Object>& axiom_prop_params) {
-  const size_t num_prop_params = action_prop_params.size();
-  assert(num_prop_params == axiom_prop_params.size());
-
-  // Check unmatched axiom prop param equal action param.
-  std::vector<std::pair<size_t, size_t>> idx_params;
-  auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
-  std::vector<std::pair<size_t, Object>> future_action_args;
-  for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
-    // Check if axiom prop param has corresponding axiom param.
-    const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
-    const bool is_axiom_prop_arg = i == axiom_params.size();
+std::vector<std::vector<Object>> Axiom::MatchContext(
+    const std::vector<Object>& prop_args) const {
+  const std::vector<Object>& context_params = context_.arguments();
+  std::vector<std::vector<Object>> matches;
+  if (context_params.size() != prop_args.size()) return matches;
 
-    // Check if action prop param has corresponding action param.
-    const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
-    const bool is_action_prop_arg = j == action_params.size();
-
-    if (is_axiom_prop_arg && is_action_prop_arg) {
-      // Make sure axiom prop arg and action prop arg are equal.
-      if (axiom_prop_param != action_prop_param) return {};
-    } else if (is_axiom_prop_arg) {
-      // Make sure axiom prop arg and future action prop arg are equal.
-      future_action_args.emplace_back(j, axiom_prop_param);
-    } else if (is_action_prop_arg) {
-      // Instantiate axiom prop param with action prop arg.
-      (*axiom_args)[i] = action_prop_param;
-    } else {
-      // Match axiom prop param and action prop param.
-      idx_params.emplace_back(i, j);
-    }
+  const auto Apply =
+      Formula::CreateApplicationFunction(parameters(), context_params);
+  for (const std::vector<Object>& args : arguments_) {
+    if (Apply(args) == prop_args) matches.push_back(args);
   }
-
-  // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
-          idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
-             const std::vector<Object>& action_args)
-             -> const std::vector<Object>* {
-    // Check that action args match up with axiom context proposition.
-    for (const std::pair<size_t, Object>& idx_argument : future_action_args) {
-      const size_t idx_arg = idx_argument.first;
-      const Object& expected_arg = idx_argument.second;
-      if (action_args[idx_arg] != expected_arg) return nullptr;
-    }
-
-    // Assign axiom args to action args.
-    std::vector<Object>& axiom_args = *ptr_axiom_args;
-    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
-      const size_t idx_axiom = idx_axiom_action.first;
-      const size_t idx_action = idx_axiom_action.second;
-      axiom_args[idx_axiom] = action_args[idx_action];
-    }
-    return &axiom_args;
-  };
+  return matches;
 }
 
 }  // namespace symbolic
-- 
2.43.0


From f9a57bbeaaeeb99031a9bd0cc98836a754aec51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 07/29] fix: changes made by triggered axioms aren't reported

---
 src/action.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 19e6a82..7ec46dc 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -140,7 +140,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
       const Axiom& axiom = *ptr_axiom.lock();
       for (const std::vector<Object>& axiom_args :
            axiom.MatchContext(prop_args)) {
-        axiom.Action::Apply(axiom_args, state);
+        const int axiom_status = axiom.Action::Apply(axiom_args, state);
+        status = std::max(status, axiom_status);
       }
     }
     return status;
@@ -215,7 +216,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
       const Axiom& axiom = *ptr_axiom.lock();
       for (const std::vector<Object>& axiom_args :
            axiom.MatchContext(prop_args)) {
-        axiom.Action::Apply(axiom_args, state);
+        const int axiom_status = axiom.Action::Apply(axiom_args, state);
+        status = std::max(status, axiom_status);
       }
     }
     return status;
-- 
2.43.0


From 258748106ddbe0b229257a77d861a3427f50090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 08/29] fix: constants named like a parameter get substituted

---
 src/formula.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formula.cc b/src/formula.cc
index 6299073..617ef4a 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -384,6 +384,10 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // Constants might share their name with a parameter
+    const VAL::pddl_typed_symbol* symbol = prop_params[i].symbol();
+    if (dynamic_cast<const VAL::var_symbol*>(symbol) == nullptr) continue;
+
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From 08c445e4c07292d023b305457870ec275740c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 09/29] fix: predicates and derived predicates don't refer to
 their Pddl

---
 src/derived_predicate.cc | 1 +
 src/predicate.cc         | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
-- 
2.43.0


From d125b350bf27b9586b9c76ad3e5f887084d2a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 10/29] fix: planning with no actions, no predicates or
 uninhabited action types crashes

---
 .../symbolic/utils/combination_generator.h    |  5 ++-
 src/planning/planner.cc                       | 43 ++++++-------------
 src/state.cc                                  |  2 +-
 3 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 7833e74..5bbacb2 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -220,7 +220,8 @@ class CombinationGenerator<ContainerT>::Iterator {
   using pointer = const value_type*;
   using reference = const value_type&;
 
-  // Constructor
+  // Constructors
+  Iterator() = default;
   Iterator(const CombinationGenerator* gen, int idx) : gen_(gen), idx_(idx) {
     UpdateCombination();
   }
@@ -366,7 +367,7 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   const CombinationGenerator* gen_ = nullptr;
   std::vector<ValueT> combination_;
-  int idx_;
+  int idx_ = 0;
 
   friend class CombinationGenerator;
 };
diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..cbcd262 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -142,8 +142,10 @@ std::ostream& operator<<(std::ostream& os, const Planner::Node& node) {
 Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
-      it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_action_(pddl_.actions().begin()) {
+  if (it_action_ == pddl_.actions().end()) return;
+  it_param_ = it_action_->parameter_generator().begin();
+}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
@@ -183,42 +185,21 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 }
 
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
-  if (it_action_ == pddl_.actions().end()) {
-    --it_action_;
-    const Action& action = *it_action_;
-    it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
-
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
-  }
-
-  while (it_action_ != pddl_.actions().begin() ||
-         it_param_ != it_action_->parameter_generator().begin()) {
-    if (it_param_ == it_action_->parameter_generator().begin()) {
+  while (true) {
+    if (it_action_ == pddl_.actions().end() ||
+        it_param_ == it_action_->parameter_generator().begin()) {
       // Move onto next action
+      if (it_action_ == pddl_.actions().begin()) break;
       --it_action_;
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
-      --it_param_;
-    } else {
-      // Move onto next parameters
-      --it_param_;
+      continue;
     }
 
+    // Move onto next parameters
+    --it_param_;
+
     // Check action preconditions
     const Action& action = *it_action_;
     const std::vector<Object>& arguments = *it_param_;
diff --git a/src/state.cc b/src/state.cc
index 8330f34..a7139ee 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -140,7 +140,7 @@ std::ostream& operator<<(std::ostream& os, const PartialState& state) {
 }
 
 StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
-    : pddl_(&predicates.front().pddl()),
+    : pddl_(predicates.empty() ? nullptr : &predicates.front().pddl()),
       predicates_(predicates),
       idx_predicate_group_(PredicateCumSum(predicates_)),
       idx_predicates_(PredicateIndices(predicates_)),
-- 
2.43.0


From d0013204facaaa2f1a254473b95f0f89f3047662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 11/29] fix: looking up a combination of the wrong size gives a
 bogus index

---
 include/symbolic/utils/combination_generator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 5bbacb2..4a835cf 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -136,7 +136,11 @@ class CombinationGenerator {
    * Get index of given combination.
    */
   int find(const typename iterator::value_type& combination) const {
-    assert(combination.size() == options_.size());
+    if (empty() || combination.size() != options_.size()) {
+      throw std::out_of_range(
+          "CombinationGenerator::find(): No combination of size " +
+          std::to_string(combination.size()) + ".");
+    }
     size_t idx = 0;
 
     // Iterate over digit slots
-- 
2.43.0


From cdc022e17dba8fa039f32464560fbb5b66a92b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 12/29] fix: loading an axiom that can't be satisfied
 dereferences a null formula

---
 src/axiom.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index f6c15f0..1943f7a 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -49,15 +49,17 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
-- 
2.43.0


From e8c59b36ec5223271b11bbe7fd4131a399b0b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 13/29] fix: normal forms confuse always true and always false

---
 src/normal_form.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 1831b59..16814c5 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -189,8 +189,14 @@ std::optional<DisjunctiveFormula> Simplify(const Pddl& pddl,
 std::optional<DisjunctiveFormula> Disjoin(
     const Pddl& pddl, std::vector<DisjunctiveFormula>&& dnfs,
     bool apply_axioms) {
+  // An empty disjunction is false
+  if (dnfs.empty()) return {};
+
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // One of the terms is true, so the disjunction is too
+    if (dnf.empty()) return DisjunctiveFormula();
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
@@ -265,6 +271,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // Negation of true is false
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
@@ -448,7 +457,10 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    std::optional<DisjunctiveFormula> neg_condition =
+        Negate(pddl, DisjunctiveFormula(*condition));
+
+    if (!neg_condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -460,16 +472,13 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
-      dnfs.push_back(std::move(*condition));
+      dnfs.push_back(std::move(*neg_condition));
       continue;
     }
 
-    condition = Disjoin(pddl, {std::move(*condition), std::move(*result)},
+    condition = Disjoin(pddl, {std::move(*neg_condition), std::move(*result)},
                         apply_axioms);
     if (!condition.has_value()) {
       throw std::runtime_error(
-- 
2.43.0


From c98d45eed8f33602e17aa85a8f5bd651fef9f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 14/29] fix: derived predicates keep stale support or never
 converge

---
 src/derived_predicate.cc | 135 +++++++++++++++++++++++++++++++++------
 1 file changed, 114 insertions(+), 21 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 73939f9..6614d2f 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -11,8 +11,94 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>      // std::max, std::max_element
+#include <unordered_map>  // std::unordered_map
+#include <utility>        // std::pair
+
 #include "symbolic/pddl.h"
 
+namespace {
+
+using ::symbolic::DerivedPredicate;
+
+/**
+ * Collects the predicates in the formula and whether they are negated.
+ */
+void CollectPredicates(const VAL::goal* goal, bool is_neg,
+                       std::vector<std::pair<std::string, bool>>* predicates) {
+  const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(goal);
+  if (simple_goal != nullptr) {
+    predicates->emplace_back(simple_goal->getProp()->head->getName(), is_neg);
+    return;
+  }
+
+  const auto* conj_goal = dynamic_cast<const VAL::conj_goal*>(goal);
+  if (conj_goal != nullptr) {
+    for (const VAL::goal* term : *conj_goal->getGoals()) {
+      CollectPredicates(term, is_neg, predicates);
+    }
+    return;
+  }
+
+  const auto* disj_goal = dynamic_cast<const VAL::disj_goal*>(goal);
+  if (disj_goal != nullptr) {
+    for (const VAL::goal* term : *disj_goal->getGoals()) {
+      CollectPredicates(term, is_neg, predicates);
+    }
+    return;
+  }
+
+  const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);
+  if (neg_goal != nullptr) {
+    CollectPredicates(neg_goal->getGoal(), !is_neg, predicates);
+    return;
+  }
+
+  const auto* qfied_goal = dynamic_cast<const VAL::qfied_goal*>(goal);
+  if (qfied_goal != nullptr) {
+    CollectPredicates(qfied_goal->getGoal(), is_neg, predicates);
+  }
+}
+
+/**
+ * Computes the stratum of each derivation rule, such that rules come after the
+ * derived predicates that they negate.
+ */
+std::vector<size_t> Stratify(const std::vector<DerivedPredicate>& predicates) {
+  std::unordered_map<std::string, size_t> strata;
+  for (const DerivedPredicate& pred : predicates) strata[pred.name()] = 0;
+
+  // Each stratum contains at least one predicate
+  const size_t num_predicates = strata.size();
+  bool is_changed = true;
+  for (size_t i = 0; is_changed && i < num_predicates; i++) {
+    is_changed = false;
+    for (const DerivedPredicate& pred : predicates) {
+      std::vector<std::pair<std::string, bool>> dependencies;
+      CollectPredicates(pred.symbol()->get_body(), false, &dependencies);
+
+      size_t& stratum = strata[pred.name()];
+      for (const std::pair<std::string, bool>& dependency : dependencies) {
+        const auto it = strata.find(dependency.first);
+        if (it == strata.end()) continue;
+        const size_t min_stratum = it->second + (dependency.second ? 1 : 0);
+        if (stratum >= min_stratum) continue;
+        stratum = min_stratum;
+        is_changed = true;
+      }
+    }
+  }
+
+  std::vector<size_t> rule_strata;
+  rule_strata.reserve(predicates.size());
+  for (const DerivedPredicate& pred : predicates) {
+    rule_strata.push_back(strata[pred.name()]);
+  }
+  return rule_strata;
+}
+
+}  // namespace
+
 namespace symbolic {
 
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
@@ -26,34 +112,41 @@ DerivedPredicate::DerivedPredicate(const Pddl& pddl,
 }
 
 bool DerivedPredicate::Apply(State* state) const {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicate converges
-    is_iter_changed = false;
-    for (const std::vector<Object>& arguments : parameter_generator()) {
-      is_iter_changed |= IsValid(*state, arguments)
-                             ? state->emplace(name(), arguments)
-                             : state->erase(Proposition(name(), arguments));
-    }
-    is_changed |= is_iter_changed;
-  }
-  return is_changed;
+  return Apply(std::vector<DerivedPredicate>{*this}, state);
 }
 
 bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
                              State* state) {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
+  if (predicates.empty()) return false;
+  const State prev_state = *state;
+
+  // Forget what was previously derived so that it doesn't support itself
+  for (const DerivedPredicate& pred : predicates) {
+    for (const std::vector<Object>& arguments : pred.parameter_generator()) {
+      state->erase(Proposition(pred.name(), arguments));
+    }
+  }
+
+  // Derive each stratum after the ones it negates
+  const std::vector<size_t> strata = Stratify(predicates);
+  const size_t num_strata = *std::max_element(strata.begin(), strata.end()) + 1;
+  for (size_t stratum = 0; stratum < num_strata; stratum++) {
     // Keep iterating until predicates converge
-    is_iter_changed = false;
-    for (const DerivedPredicate& pred : predicates) {
-      is_iter_changed |= pred.Apply(state);
+    bool is_iter_changed = true;
+    while (is_iter_changed) {
+      is_iter_changed = false;
+      for (size_t i = 0; i < predicates.size(); i++) {
+        if (strata[i] != stratum) continue;
+        const DerivedPredicate& pred = predicates[i];
+        for (const std::vector<Object>& arguments :
+             pred.parameter_generator()) {
+          if (!pred.IsValid(*state, arguments)) continue;
+          is_iter_changed |= state->emplace(pred.name(), arguments);
+        }
+      }
     }
-    is_changed |= is_iter_changed;
   }
-  return is_changed;
+  return *state != prev_state;
 }
 
 State DerivedPredicate::Apply(const State& state,
-- 
2.43.0


From 0f1af911ec4af6aa026bbf8ff67dedf7edf16e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 15/29] fix: printed formulas lose their quantifiers and
 question marks

---
 src/formula.cc | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 617ef4a..0e3980f 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -43,6 +43,29 @@ template <typename T>
 NamedFormulaFunction<T> CreateFormula(const Pddl& pddl, const VAL::goal* symbol,
                                       const std::vector<Object>& parameters);
 
+std::string PropositionToPddl(const std::string& name_predicate,
+                              const std::vector<Object>& prop_params) {
+  std::stringstream ss;
+  ss << "(" << name_predicate;
+  for (const Object& param : prop_params) {
+    const bool is_variable =
+        dynamic_cast<const VAL::var_symbol*>(param.symbol()) != nullptr;
+    ss << " " << (is_variable ? "?" : "") << param;
+  }
+  ss << ")";
+  return ss.str();
+}
+
+std::string ParametersToPddl(const std::vector<Object>& parameters) {
+  std::stringstream ss;
+  std::string delim;
+  for (const Object& param : parameters) {
+    ss << delim << "?" << param << " - " << param.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  return ss.str();
+}
+
 template <typename T>
 NamedFormulaFunction<T> CreateProposition(
     const Pddl& pddl, const VAL::simple_goal* symbol,
@@ -63,7 +86,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0] == prop_args[1];
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), PropositionToPddl(name_predicate, prop_params)};
   }
   if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
     // Predicate is a type. If it isn't in the object map, then no objects of
@@ -78,7 +101,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0].type().IsSubtype(name_predicate);
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), PropositionToPddl(name_predicate, prop_params)};
   }
 
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
@@ -91,7 +114,7 @@ NamedFormulaFunction<T> CreateProposition(
     return state.contains(P);
   };
 
-  return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+  return {std::move(F), PropositionToPddl(name_predicate, prop_params)};
 }
 
 template <typename T>
@@ -202,7 +225,7 @@ NamedFormulaFunction<PartialState> CreateNegation(
       };
 
       return {std::move(F),
-              "(not " + Proposition(name_predicate, prop_params).to_pddl() + ")"};
+              "(not " + PropositionToPddl(name_predicate, prop_params) + ")"};
     }
     // Otherwise proposition is an = or type, so evaluate as normal.
   }
@@ -233,6 +256,9 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, forall_params);
 
+  const std::string str_formula =
+      "(forall (" + ParametersToPddl(types) + ") " + P_str.second + ")";
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -249,15 +275,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), str_formula};
 }
 
 template <typename T>
@@ -272,6 +290,9 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);
 
+  const std::string str_formula =
+      "(exists (" + ParametersToPddl(types) + ") " + P_str.second + ")";
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -288,15 +309,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), str_formula};
 }
 
 template <typename T>
-- 
2.43.0


From cd0e18a450901e3be4a8a42203d195ea8e77980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 16/29] fix: quantified variables in problem formulas aren't in
 parentheses

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..5b24968 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From c5d06d13c2bf447a7ca23110a9e3e5b3a3c73544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 17/29] fix: calls without arguments are parsed as having one
 empty argument

---
 symbolic/problem.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 5b24968..658e025 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -22,7 +22,7 @@ def create_group(name: str, tokens: Sequence) -> List[Formula]:
 
 
 def _P(predicate: str, *arguments: str):
-    return create_inline_group(predicate, " ".join(arguments))
+    return "(" + " ".join((predicate,) + arguments) + ")"
 
 
 def _and(*formulas: Formula):
@@ -53,6 +53,12 @@ def _when(condition: Formula, implies: Formula):
     return create_group("when", (condition, implies))
 
 
+def split_arguments(str_args: str) -> List[str]:
+    """Splits comma-separated arguments."""
+    str_args = str_args.replace(" ", "")
+    return str_args.split(",") if str_args else []
+
+
 def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     """Parses the head and arguments of a proposition string.
 
@@ -64,8 +70,7 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
-    return name_pred, str_args
+    return name_pred, split_arguments(matches.group(2))
 
 
 def parse_head(str_prop: str) -> str:
@@ -86,8 +91,7 @@ def parse_args(str_prop: str) -> List[str]:
     matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    return split_arguments(matches.group(1))
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From e20b1ba0aea1d61e8e3db5531cf937f6c57bcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 18/29] fix: untyped problem objects take the type of the next
 object

---
 symbolic/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 658e025..03c06d4 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -135,7 +135,11 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # Untyped objects would otherwise take the type of the next typed object
+        is_typed = any(obj.type for obj in self._objects)
+        default_type = "object" if is_typed else ""
+        objects = [Object(obj.name, obj.type or default_type) for obj in self._objects]
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From dbc1f6c128b7dcd89574651b06c550582a038546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 19/29] fix: loading only a domain loses its constants

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..806e149 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -282,6 +282,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From 79da8f27d22692ba17f5e98fdead7ffaa78bce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 20/29] fix: adding or removing an object leaves stale or
 dangling queries

---
 include/symbolic/pddl.h |  5 +++
 src/pddl.cc             | 71 ++++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 4713874..b6c856f 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -250,6 +250,11 @@ class Pddl {
   const Formula& goal() const { return goal_; }
 
  private:
+  /**
+   * Update everything that depends on the objects.
+   */
+  void UpdateObjects();
+
   std::shared_ptr<VAL::analysis> analysis_;
   std::string domain_pddl_;
   std::string problem_pddl_;
diff --git a/src/pddl.cc b/src/pddl.cc
index 806e149..500256e 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,10 +13,11 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
-#include <fstream>  // std::ifstream
-#include <sstream>  // std::stringstream
-#include <string>   // std::string
-#include <utility>  // std::move
+#include <algorithm>  // std::remove_if
+#include <fstream>    // std::ifstream
+#include <sstream>    // std::stringstream
+#include <string>     // std::string
+#include <utility>    // std::move
 
 #include "symbolic/utils/parameter_generator.h"
 #include "utils/doctest.h"
@@ -515,34 +516,74 @@ std::vector<std::string> Pddl::ListValidActions(
 }
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
+  if (analysis_->the_problem == nullptr) {
+    throw std::runtime_error("Pddl::AddObject(): No problem to add object " +
+                             name + " to.");
+  }
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  if (analysis_->the_domain->types != nullptr) {
+    for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
+      if (type_symbol->getName() != type) continue;
+      symbol->type = type_symbol;
+      break;
+    }
+  }
+  if (analysis_->the_problem->objects == nullptr) {
+    analysis_->the_problem->objects = new VAL::const_symbol_list();
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
+  UpdateObjects();
 }
 
 void Pddl::RemoveObject(const std::string& name) {
   for (auto it = objects_.begin(); it != objects_.end(); ++it) {
     if (it->name() != name) continue;
-    const VAL::pddl_typed_symbol* symbol = it->symbol();
+    // Don't delete the symbol, since states and formulas might still refer to it
     objects_.erase(it);
 
-    VAL::const_symbol_list* objects = analysis_->the_problem->objects;
-    for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-      if ((*itt)->getNameRef() != name) continue;
-      objects->erase(itt);
-      break;
+    const auto HasName = [&name](const auto& object) {
+      return object.name() == name;
+    };
+    constants_.erase(
+        std::remove_if(constants_.begin(), constants_.end(), HasName),
+        constants_.end());
+
+    for (VAL::const_symbol_list* objects :
+         {analysis_->the_domain->constants,
+          analysis_->the_problem == nullptr
+              ? nullptr
+              : analysis_->the_problem->objects}) {
+      if (objects == nullptr) continue;
+      for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
+        if ((*itt)->getNameRef() != name) continue;
+        objects->erase(itt);
+        break;
+      }
     }
 
-    delete symbol;
+    UpdateObjects();
     break;
   }
 }
 
+void Pddl::UpdateObjects() {
+  object_map_ = CreateObjectTypeMap(objects_);
+
+  // Recreate everything that enumerates objects, in the order of construction
+  axiom_map_.clear();
+  axioms_ = GetAxioms(*this, *analysis_->the_domain);
+  predicates_ = GetPredicates(*this, *analysis_->the_domain);
+  derived_predicates_ = GetDerivedPredicates(*this, *analysis_->the_domain);
+  state_index_ = StateIndex(predicates_);
+  if (analysis_->the_problem != nullptr) {
+    goal_ = Formula(*this, analysis_->the_problem->the_goal);
+  }
+  axiom_map_ = CreateAxiomContextMap(axioms());
+  UpdateAxioms(*this, &axioms_);
+  actions_ = GetActions(*this, *analysis_->the_domain);
+}
+
 const std::string& Pddl::name() const { return symbol()->the_domain->name; }
 
 std::set<std::string> Stringify(const State& state) {
-- 
2.43.0


From a35e4a5f3101c63aca3f3ebd7a4f82faaea9b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 21/29] fix: printing a Pddl repeats the domain or dereferences
 null

---
 src/pddl.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 500256e..8c142c7 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -633,7 +633,9 @@ std::vector<std::string> Stringify(const std::vector<Object>& objects) {
 
 std::ostream& operator<<(std::ostream& os, const Pddl& pddl) {
   os << *pddl.symbol()->the_domain << std::endl;
-  os << *pddl.symbol()->the_domain << std::endl;
+  if (pddl.symbol()->the_problem != nullptr) {
+    os << *pddl.symbol()->the_problem << std::endl;
+  }
   return os;
 }
 
@@ -736,13 +738,17 @@ void PrintEffects(std::ostream& os, const VAL::effect_lists* effects,
   }
 }
 
+std::string TypeName(const VAL::pddl_type* type) {
+  return type == nullptr ? "object" : type->getName();
+}
+
 template <typename T>
 void PrintArgs(std::ostream& os, const VAL::typed_symbol_list<T>& args) {
   std::string separator;
   os << "(";
   for (const VAL::parameter_symbol* param : args) {
     os << separator << param->getName() << " [" << param
-       << "]: " << param->type->getName();
+       << "]: " << TypeName(param->type);
     if (separator.empty()) separator = ", ";
   }
   os << ")";
@@ -762,7 +768,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   os << "Types: " << std::endl;
   if (domain.types != nullptr) {
     for (const pddl_type* type : *domain.types) {
-      os << "\t" << type->getName() << ": " << type->type->getName() << " ["
+      os << "\t" << type->getName() << ": " << TypeName(type->type) << " ["
          << type << "]" << std::endl;
     }
   }
@@ -771,7 +777,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   if (domain.constants != nullptr) {
     for (const const_symbol* c : *domain.constants) {
       os << "\t" << c->getName() << " [" << c << "]"
-         << ": " << c->type->getName() << std::endl;
+         << ": " << TypeName(c->type) << std::endl;
     }
   }
 
@@ -809,9 +815,11 @@ std::ostream& operator<<(std::ostream& os, const problem& problem) {
   os << "Requirements: " << pddl_req_flags_string(problem.req) << std::endl;
 
   os << "Objects:" << std::endl;
-  for (const const_symbol* object : *problem.objects) {
-    os << "\t" << object->getName() << " [" << object << "]"
-       << ": " << object->type->getName() << std::endl;
+  if (problem.objects != nullptr) {
+    for (const const_symbol* object : *problem.objects) {
+      os << "\t" << object->getName() << " [" << object << "]"
+         << ": " << TypeName(object->type) << std::endl;
+    }
   }
 
   os << "Initial State:" << std::endl;
-- 
2.43.0


From acdc563b773ff224799c29ad475b60cecbde9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 22/29] fix: loading an empty problem dereferences null

---
 src/pddl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 8c142c7..4613f21 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -260,9 +260,13 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       predicates_(GetPredicates(*this, *analysis_->the_domain)),
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
       state_index_(predicates_),
-      initial_state_(
-          GetInitialState(*analysis_->the_domain, *analysis_->the_problem)),
-      goal_(*this, analysis_->the_problem->the_goal) {
+      initial_state_(analysis_->the_problem == nullptr
+                         ? State()
+                         : GetInitialState(*analysis_->the_domain,
+                                           *analysis_->the_problem)),
+      goal_(analysis_->the_problem == nullptr
+                ? Formula()
+                : Formula(*this, analysis_->the_problem->the_goal)) {
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
-- 
2.43.0


From 5f8d26bbb177d70bb233d5957f655a39764e0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 23/29] fix: conditional effects that can't be satisfied throw
 instead of being false

---
 src/normal_form.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 16814c5..8d58f92 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -462,12 +462,8 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
     if (!neg_condition.has_value()) {
       // Condition always true
-      if (!result.has_value()) {
-        // Result always false
-        throw std::runtime_error(
-            "symbolic::DisjunctiveFormula::Create(): Invalid condition "
-            "(context always true and result always false).");
-      }
+      // Result always false, so the effect is too
+      if (!result.has_value()) return {};
       dnfs.push_back(std::move(*result));
       continue;
     }
@@ -480,10 +476,7 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
     condition = Disjoin(pddl, {std::move(*neg_condition), std::move(*result)},
                         apply_axioms);
-    if (!condition.has_value()) {
-      throw std::runtime_error(
-          "DisjunctiveFormula::Create(): Invalid condition.");
-    }
+    if (!condition.has_value()) return {};
     dnfs.push_back(std::move(*condition));
   }
 
-- 
2.43.0


From d676707bb943277c074a7d538ad8a0fb0711acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 24/29] fix: indices outside the state index aren't rejected

---
 src/state.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/state.cc b/src/state.cc
index a7139ee..a6791ab 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -11,6 +11,8 @@
 
 #include <algorithm>  // std::lower_bound, std::sort
 #include <cassert>    // assert
+#include <stdexcept>  // std::out_of_range
+#include <string>     // std::to_string
 
 #include "symbolic/pddl.h"
 #include "symbolic/utils/unique_vector.h"
@@ -147,6 +149,12 @@ StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
       use_cache_(use_cache) {}
 
 Proposition StateIndex::GetProposition(size_t idx_proposition) const {
+  if (idx_proposition >= size()) {
+    throw std::out_of_range("StateIndex::GetProposition(): Index " +
+                            std::to_string(idx_proposition) +
+                            " is out of range.");
+  }
+
   // Check cache
   if (use_cache_ &&
       cache_propositions_.find(idx_proposition) != cache_propositions_.end()) {
-- 
2.43.0


From 305683c64f18c0a40ac35e34ee25731c2820aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 25/29] fix: printing a derived predicate in Python takes an
 axiom

---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..2b749bd 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -459,9 +459,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From ab9800f54cb0b49441723a5a5689b131d8644d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 26/29] fix: Python owns the axioms it shares with their Pddl

---
 src/python/symbolic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 2b749bd..f8be79d 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -15,6 +15,7 @@
 #include <pybind11/stl.h>
 
 #include <exception>  // std::out_of_range
+#include <memory>     // std::make_unique, std::shared_ptr
 #include <sstream>    // std::stringstream
 
 #include "symbolic/normal_form.h"
@@ -405,7 +406,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            static_cast<bool (Axiom::*)(const State&) const>(
                &Axiom::IsConsistent),
-- 
2.43.0


From bbe540cc053a14d7f6b86232a08e821c745275c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 27/29] fix: Python moves a loaded Pddl away from its parts

---
 src/python/symbolic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index f8be79d..90c1caf 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -329,7 +329,9 @@ PYBIND11_MODULE(pysymbolic, m) {
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+            // Parts of the Pddl refer to it, so it can't be moved afterwards.
+            return problem.empty() ? std::make_unique<Pddl>(domain)
+                                   : std::make_unique<Pddl>(domain, problem);
           }));
 
   // Object::Type
-- 
2.43.0


From 262958e2ee91fbdbf97d2e0d624eafe8bdc3dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 28/29] fix: look up unknown objects when the problem declares
 none

Object's constructor dereferenced the problem's object list, which is null
when the problem has no :objects section, so naming an unknown object crashed
instead of throwing.
---
 src/object.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object.cc b/src/object.cc
index 69091a1..dafaf88 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -12,7 +12,6 @@
 #include <VAL/ptree.h>
 
 #include <algorithm>  // std::min, std::replace
-#include <cassert>    // assert
 #include <sstream>    // std::stringstream
 
 #include "symbolic/pddl.h"
@@ -43,8 +42,8 @@ const VAL::const_symbol* GetSymbol(const Pddl& pddl,
       if (obj->getName() == name_object) return obj;
     }
   }
-  if (pddl.symbol()->the_problem != nullptr) {
-    assert(pddl.symbol()->the_problem->objects != nullptr);
+  if (pddl.symbol()->the_problem != nullptr &&
+      pddl.symbol()->the_problem->objects != nullptr) {
     for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
       if (obj == nullptr) continue;
       if (obj->getName() == name_object) return obj;
-- 
2.43.0


From c695d182f8655755878196fd995e8d0792d94c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:36 +0000
Subject: [PATCH 29/29] fix: closing a partial state under axioms no longer
 gives up after 51 passes

---
 src/pddl.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 4613f21..bd23af8 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -375,10 +375,9 @@ State Pddl::ConsistentState(const State& state) const {
 }
 
 PartialState Pddl::ConsistentState(const PartialState& state) const {
-  constexpr int kMaxIterations = 50;
   PartialState next_state = state;
 
-  size_t i = 0;
+  // Iterations only add knowledge, so they come to an end
   bool is_changed = true;
   while (is_changed) {
     is_changed = false;
@@ -395,11 +394,6 @@ PartialState Pddl::ConsistentState(const PartialState& state) const {
         throw std::runtime_error(ss.str());
       }
     }
-
-    if (i++ > kMaxIterations) {
-      throw std::runtime_error(
-          "Pddl::ConsistentState(): Exceeded max num iterations.");
-    }
   }
   return next_state;
 }
-- 
2.43.0

