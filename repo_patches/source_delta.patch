From 687c029d2900167a7551bce7604ac0ef2da8362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 01/45] fix: keep hash sets and unique vectors unchanged when
 an update runs out of memory

HashSet::insert and erase changed the set before rehashing, and Rehash moved
the elements out before it had allocated their new buckets, so an allocation
failure lost elements or left the wrong size. Copy assignment could leave a
mixture of both sets.
---
 include/symbolic/utils/hash_set.h      | 79 +++++++++++++++++++-------
 include/symbolic/utils/unique_vector.h | 10 ++++
 2 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/include/symbolic/utils/hash_set.h b/include/symbolic/utils/hash_set.h
index 5c48bb6..c9e9294 100644
--- a/include/symbolic/utils/hash_set.h
+++ b/include/symbolic/utils/hash_set.h
@@ -38,6 +38,16 @@ class HashSet {
     }
   }
 
+  HashSet(const HashSet& other) = default;
+  HashSet(HashSet&& other) = default;
+
+  // If copying throws, the set is left unchanged.
+  HashSet& operator=(const HashSet& other) {
+    if (this != &other) *this = HashSet(other);
+    return *this;
+  }
+  HashSet& operator=(HashSet&& other) = default;
+
   iterator begin() {
     iterator it(buckets_, 0, 0);
     it.FindNextElement();
@@ -65,33 +75,38 @@ class HashSet {
     return GetBucket(element).contains(element);
   }
 
+  // If inserting or erasing throws, the set is left unchanged.
   template <typename T_query>
   bool insert(const T_query& element) {
-    const bool inserted = GetBucket(element).insert(element);
-    if (inserted) {
-      size_++;
-      if (size() > buckets_.size()) Rehash(UpperBound());
-    }
-    return inserted;
+    if (contains(element)) return false;
+    return insert(T(element));
   }
 
   bool insert(T&& element) {
-    const bool inserted = GetBucket(element).insert(std::move(element));
-    if (inserted) {
-      size_++;
-      if (size() > buckets_.size()) Rehash(UpperBound());
+    if (contains(element)) return false;
+    if (size() < buckets_.size()) {
+      GetBucket(element).insert(std::move(element));
+    } else {
+      std::vector<UniqueVector<T>> buckets = CreateBuckets(UpperBound(), &element);
+      Rehash(std::move(buckets));
+      GetBucket(element).insert(std::move(element));
     }
-    return inserted;
+    size_++;
+    return true;
   }
 
   template <typename T_query>
   bool erase(const T_query& element) {
-    const bool erased = GetBucket(element).erase(element);
-    if (erased) {
-      size_--;
-      if (size() <= LowerBound()) Rehash(LowerBound());
+    if (!contains(element)) return false;
+    if (size() - 1 <= LowerBound() && LowerBound() != buckets_.size()) {
+      std::vector<UniqueVector<T>> buckets = CreateBuckets(LowerBound());
+      GetBucket(element).erase(element);
+      Rehash(std::move(buckets));
+    } else {
+      GetBucket(element).erase(element);
     }
-    return erased;
+    size_--;
+    return true;
   }
 
   friend bool operator==(const HashSet<T>& lhs, const HashSet<T>& rhs) {
@@ -122,15 +137,35 @@ class HashSet {
     return buckets_[idx_bucket];
   }
 
-  void Rehash(size_t num_buckets) {
-    if (num_buckets == buckets_.size()) return;
+  /**
+   * Creates empty buckets with room for the current elements and optionally a
+   * new one, so that moving the elements doesn't need to allocate memory.
+   */
+  std::vector<UniqueVector<T>> CreateBuckets(
+      size_t num_buckets, const T* new_element = nullptr) const {
+    std::vector<size_t> sizes(num_buckets, 0);
+    for (const T& element : *this) {
+      sizes[std::hash<T>{}(element) % num_buckets]++;
+    }
+    if (new_element != nullptr) {
+      sizes[std::hash<T>{}(*new_element) % num_buckets]++;
+    }
+
+    std::vector<UniqueVector<T>> buckets(num_buckets);
+    for (size_t i = 0; i < num_buckets; i++) {
+      buckets[i].reserve(sizes[i]);
+    }
+    return buckets;
+  }
 
-    // Create new buckets.
-    std::vector<UniqueVector<T>> old_buckets(num_buckets);
-    std::swap(buckets_, old_buckets);
+  /**
+   * Moves the elements into the given buckets.
+   */
+  void Rehash(std::vector<UniqueVector<T>>&& buckets) {
+    std::swap(buckets_, buckets);
 
     // Iterate over old buckets.
-    for (UniqueVector<T>& bucket : old_buckets) {
+    for (UniqueVector<T>& bucket : buckets) {
       // Move elements from old bucket.
       for (T& element : bucket) {
         GetBucket(element).insert(std::move(element));
diff --git a/include/symbolic/utils/unique_vector.h b/include/symbolic/utils/unique_vector.h
index a7157f4..b03621c 100644
--- a/include/symbolic/utils/unique_vector.h
+++ b/include/symbolic/utils/unique_vector.h
@@ -26,6 +26,16 @@ class UniqueVector : public std::vector<T> {
 
   UniqueVector(std::initializer_list<T> l);
 
+  UniqueVector(const UniqueVector& other) = default;
+  UniqueVector(UniqueVector&& other) = default;
+
+  // If copying throws, the vector is left unchanged.
+  UniqueVector& operator=(const UniqueVector& other) {
+    if (this != &other) *this = UniqueVector(other);
+    return *this;
+  }
+  UniqueVector& operator=(UniqueVector&& other) = default;
+
   /**
    * Returns whether the vector contains the given value.
    */
-- 
2.43.0


From 309cc3c3c5dacf94572c920dc0d42636ff2a5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 02/45] fix: never leave a partial state with halves of two
 states

Copy assignment replaced the positive facts before copying the negative ones;
when the second copy ran out of memory, a fact could be both true and false.
---
 include/symbolic/state.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/symbolic/state.h b/include/symbolic/state.h
index 02705fa..c90b492 100644
--- a/include/symbolic/state.h
+++ b/include/symbolic/state.h
@@ -150,6 +150,16 @@ class PartialState {
                const std::unordered_set<std::string>& str_neg)
       : pos_(pddl, str_pos), neg_(pddl, str_neg) {}
 
+  PartialState(const PartialState& other) = default;
+  PartialState(PartialState&& other) = default;
+
+  // If copying throws, the partial state is left unchanged.
+  PartialState& operator=(const PartialState& other) {
+    if (this != &other) *this = PartialState(other);
+    return *this;
+  }
+  PartialState& operator=(PartialState&& other) = default;
+
   const State& pos() const { return pos_; }
   State& pos() { return pos_; }
 
-- 
2.43.0


From 820bb7aae48a24256e17b559e028826cea9c11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 03/45] fix: combination iterators show the right elements
 after leaving either end

---
 include/symbolic/utils/combination_generator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..b31cf26 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -337,6 +337,14 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
+    // Recompute all elements if the current index is outside the bounds, where
+    // the combination does not correspond to the index
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     int remaining = idx_;
     int remaining_new = idx_new;
     for (size_t i = 0; i < num_options; i++) {
@@ -437,7 +445,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From 9dd0727e3ae10607d70f1f1fd7f428650c19322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 04/45] fix: enumerate the empty combination for actions and
 predicates without parameters

---
 include/symbolic/utils/combination_generator.h | 3 ++-
 src/normal_form.cc                             | 1 +
 src/utils/parameter_generator.cc               | 8 ++++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index b31cf26..f659336 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -194,7 +194,8 @@ class CombinationGenerator {
    */
   static size_t ComputeSize(const std::vector<ContainerT*>& options,
                             const std::vector<size_t>& size_groups) {
-    if (options.empty()) return 0;
+    // There is exactly one way of choosing nothing: the empty combination
+    if (options.empty()) return 1;
     return options.front()->size() * size_groups.front();
   }
 
diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..5b58484 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -212,6 +212,7 @@ std::optional<DisjunctiveFormula> Conjoin(
     if (dnf.empty()) continue;
     conjunctions.push_back(&dnf.conjunctions);
   }
+  if (conjunctions.empty()) return std::move(conj);
   CombinationGenerator<const std::vector<DisjunctiveFormula::Conjunction>> gen(
       conjunctions);
 
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..43c733a 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -58,17 +58,21 @@ namespace symbolic {
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
     : param_types_(ParamTypes(pddl.object_map(), params)) {
+  // Leave the generator empty if there are no objects for one of the parameters
+  if (param_types_.size() != params.size()) return;
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
     : param_types_(other.param_types_) {
+  if (other.empty()) return;
   Base::operator=(Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
     : param_types_(std::move(other.param_types_)) {
+  if (other.empty()) return;
   Base::operator=(Base(Options(param_types_)));
 }
 
@@ -78,7 +82,7 @@ ParameterGenerator& ParameterGenerator::operator=(
 
   pddl_ = rhs.pddl_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
   return *this;
 }
 
@@ -86,7 +90,7 @@ ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
   pddl_ = rhs.pddl_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
   return *this;
 }
 
-- 
2.43.0


From 0e99db7c0e15cf4058b85a113b8f01fb2490f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 05/45] fix: copying and moving parameter generators survives
 running out of memory

---
 .../symbolic/utils/combination_generator.h    | 15 +++++++++
 src/utils/parameter_generator.cc              | 33 ++++++++-----------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index f659336..56e6654 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -18,6 +18,7 @@
 #include <sstream>      // std::stringstream
 #include <string>       // std::to_string
 #include <type_traits>  // std::conditional_t, std::is_const
+#include <utility>      // std::exchange, std::move
 #include <vector>       // std::vector
 
 namespace symbolic {
@@ -62,6 +63,20 @@ class CombinationGenerator {
   CombinationGenerator() = default;
   virtual ~CombinationGenerator() = default;
 
+  CombinationGenerator(const CombinationGenerator&) = default;
+  CombinationGenerator(CombinationGenerator&& other) noexcept
+      : options_(std::move(other.options_)),
+        size_groups_(std::move(other.size_groups_)),
+        size_(std::exchange(other.size_, 0)) {}
+  CombinationGenerator& operator=(const CombinationGenerator&) = default;
+  CombinationGenerator& operator=(CombinationGenerator&& rhs) noexcept {
+    if (this == &rhs) return *this;
+    options_ = std::move(rhs.options_);
+    size_groups_ = std::move(rhs.size_groups_);
+    size_ = std::exchange(rhs.size_, 0);
+    return *this;
+  }
+
   explicit CombinationGenerator(const std::vector<ContainerT*>& options)
       : options_(options),
         size_groups_(ComputeGroupSizes(options)),
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 43c733a..ecded89 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -9,8 +9,7 @@
 
 #include "symbolic/utils/parameter_generator.h"
 
-#include <exception>  // std::runtime_error
-#include <iostream>   // std::cerr
+#include <utility>  // std::move
 
 #include "symbolic/pddl.h"
 
@@ -25,18 +24,13 @@ std::vector<std::vector<Object>> ParamTypes(
   std::vector<std::vector<Object>> types;
   types.reserve(params.size());
   for (const Object& param : params) {
-    try {
-      types.push_back(object_map.at(param.type().name()));
-    } catch (...) {
-      // std::cerr << "ParameterGenerator(): parameter type '"
-      //           << param.type().name() << " not found in object map."
-      //           << std::endl;
+    const auto it = object_map.find(param.type().name());
+    if (it == object_map.end()) {
+      // There are no objects of this type
       types.clear();
       break;
-      // throw std::runtime_error("ParameterGenerator(): parameter type '" +
-      //                          param.type().name() +
-      //                          "' not found in object map.");
     }
+    types.push_back(it->second);
   }
   return types;
 }
@@ -70,27 +64,28 @@ ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
   Base::operator=(Base(Options(param_types_)));
 }
 
+// The options point to the elements of param_types_, which stay where they are
+// when the vector is moved.
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
-  if (other.empty()) return;
-  Base::operator=(Base(Options(param_types_)));
-}
+    : Base(std::move(other)), param_types_(std::move(other.param_types_)) {}
 
 ParameterGenerator& ParameterGenerator::operator=(
     const ParameterGenerator& rhs) {
   if (this == &rhs) return *this;
 
-  pddl_ = rhs.pddl_;
-  param_types_ = rhs.param_types_;
-  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
+  ParameterGenerator copy(rhs);
+  copy.pddl_ = rhs.pddl_;
+  *this = std::move(copy);
   return *this;
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
+  if (this == &rhs) return *this;
+
   pddl_ = rhs.pddl_;
+  Base::operator=(std::move(rhs));
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(rhs.empty() ? Base() : Base(Options(param_types_)));
   return *this;
 }
 
-- 
2.43.0


From 3ade92a5c5532c8b6312bec0082dd8224ace8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 06/45] fix: generators and predicates know their problem, also
 when copied

---
 src/derived_predicate.cc         |  1 +
 src/predicate.cc                 |  4 +++-
 src/utils/parameter_generator.cc | 12 ++++++------
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index ecded89..4110829 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -51,7 +51,7 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   // Leave the generator empty if there are no objects for one of the parameters
   if (param_types_.size() != params.size()) return;
   Base::operator=(Base(Options(param_types_)));
@@ -59,7 +59,7 @@ ParameterGenerator::ParameterGenerator(const Pddl& pddl,
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   if (other.empty()) return;
   Base::operator=(Base(Options(param_types_)));
 }
@@ -67,15 +67,15 @@ ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
 // The options point to the elements of param_types_, which stay where they are
 // when the vector is moved.
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : Base(std::move(other)), param_types_(std::move(other.param_types_)) {}
+    : Base(std::move(other)),
+      pddl_(other.pddl_),
+      param_types_(std::move(other.param_types_)) {}
 
 ParameterGenerator& ParameterGenerator::operator=(
     const ParameterGenerator& rhs) {
   if (this == &rhs) return *this;
 
-  ParameterGenerator copy(rhs);
-  copy.pddl_ = rhs.pddl_;
-  *this = std::move(copy);
+  *this = ParameterGenerator(rhs);
   return *this;
 }
 
-- 
2.43.0


From f1d7ad84f34b2f82c0eb391e974d949b30475cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 07/45] fix: instantiate formulas, effects and axioms without
 shared argument buffers

The functions made by CreateApplicationFunction() returned a reference to a
buffer shared by all calls and all copies of the closure. Two threads querying
one problem, or an axiom that triggers itself with other arguments, overwrote
each other's arguments. They now return the arguments by value.
---
 include/symbolic/axiom.h   |  6 +++---
 include/symbolic/formula.h |  2 +-
 src/action.cc              | 29 +++++++++++++++++------------
 src/axiom.cc               | 20 +++++++++++---------
 src/formula.cc             | 27 ++++++++++++---------------
 5 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/include/symbolic/axiom.h b/include/symbolic/axiom.h
index 9ff901d..9cb9883 100644
--- a/include/symbolic/axiom.h
+++ b/include/symbolic/axiom.h
@@ -73,10 +73,10 @@ class Axiom : public Action {
   /**
    * Creates a function that takes action_args and returns axiom_args based on
    * positional indices of the axiom context proposition. If the action_args are
-   * not consistent with the axiom context, returns an empty vector.
+   * not consistent with the axiom context, returns nothing.
    */
-  static std::optional<
-      std::function<const std::vector<Object>*(const std::vector<Object>&)>>
+  static std::optional<std::function<
+      std::optional<std::vector<Object>>(const std::vector<Object>&)>>
   CreateApplicationFunction(const std::vector<Object>& action_params,
                             const std::vector<Object>& action_prop_params,
                             const std::vector<Object>& axiom_params,
diff --git a/include/symbolic/formula.h b/include/symbolic/formula.h
index 9049644..e093936 100644
--- a/include/symbolic/formula.h
+++ b/include/symbolic/formula.h
@@ -65,7 +65,7 @@ class Formula {
    * Creates a function that takes action_args and returns prop_args based on the
    * mapping (action_params -> prop_params).
    */
-  static std::function<const std::vector<Object>&(const std::vector<Object>&)>
+  static std::function<std::vector<Object>(const std::vector<Object>&)>
   CreateApplicationFunction(const std::vector<Object>& action_params,
                             const std::vector<Object>& prop_params);
 
diff --git a/src/action.cc b/src/action.cc
index 68d42b5..9cc2a6e 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -35,10 +35,11 @@ template <typename T>
 using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
 
 using ApplicationFunction =
-    std::function<const std::vector<Object>&(const std::vector<Object>&)>;
+    std::function<std::vector<Object>(const std::vector<Object>&)>;
 
 using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
+    std::function<std::optional<std::vector<Object>>(
+        const std::vector<Object>&)>;
 
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
@@ -90,7 +91,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
                                       T* state) -> int {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] != prop_args[1]) {
         std::stringstream ss;
@@ -106,7 +107,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
                const std::vector<Object>& arguments, T* state) -> int {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (!prop_args[0].type().IsSubtype(name_predicate)) {
         std::stringstream ss;
@@ -141,8 +142,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
+    const std::vector<Object> prop_args = Apply(arguments);
     int status = state->insert(
-        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
+        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
@@ -150,10 +152,11 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
+      const std::optional<std::vector<Object>> axiom_args =
+          AxiomApply(arguments);
 
       // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
+      if (!axiom_args.has_value()) continue;
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
@@ -179,7 +182,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
                                       T* state) -> int {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] == prop_args[1]) {
         std::stringstream ss;
@@ -195,7 +198,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
                const std::vector<Object>& arguments, T* state) -> int {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (prop_args[0].type().IsSubtype(name_predicate)) {
         std::stringstream ss;
@@ -230,8 +233,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
+    const std::vector<Object> prop_args = Apply(arguments);
     int status = state->erase(
-        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
+        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
@@ -239,10 +243,11 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
+      const std::optional<std::vector<Object>> axiom_args =
+          AxiomApply(arguments);
 
       // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
+      if (!axiom_args.has_value()) continue;
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..1120eec 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -26,7 +26,8 @@ using ::symbolic::Pddl;
 using ::symbolic::SignedProposition;
 
 using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
+    std::function<std::optional<std::vector<Object>>(
+        const std::vector<Object>&)>;
 
 /**
  * Prepares list of possible arguments given axiom parameters.
@@ -243,7 +244,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
 
   // Check unmatched axiom prop param equal action param.
   std::vector<std::pair<size_t, size_t>> idx_params;
-  auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
+  std::vector<Object> prepared_args = axiom_params;
   std::vector<std::pair<size_t, Object>> future_action_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
@@ -270,34 +271,35 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       future_action_args.emplace_back(j, axiom_prop_param);
     } else if (is_action_prop_arg) {
       // Instantiate axiom prop param with action prop arg.
-      (*axiom_args)[i] = action_prop_param;
+      prepared_args[i] = action_prop_param;
     } else {
       // Match axiom prop param and action prop param.
       idx_params.emplace_back(i, j);
     }
   }
 
-  // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
+  // Every call gets its own arguments: the function may be called by several
+  // threads at once, and again while the axiom it instantiates is applied.
+  return [prepared_args = std::move(prepared_args),
           idx_params = std::move(idx_params),
           future_action_args = std::move(future_action_args)](
              const std::vector<Object>& action_args)
-             -> const std::vector<Object>* {
+             -> std::optional<std::vector<Object>> {
     // Check that action args match up with axiom context proposition.
     for (const std::pair<size_t, Object>& idx_argument : future_action_args) {
       const size_t idx_arg = idx_argument.first;
       const Object& expected_arg = idx_argument.second;
-      if (action_args[idx_arg] != expected_arg) return nullptr;
+      if (action_args[idx_arg] != expected_arg) return {};
     }
 
     // Assign axiom args to action args.
-    std::vector<Object>& axiom_args = *ptr_axiom_args;
+    std::vector<Object> axiom_args = prepared_args;
     for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
       const size_t idx_axiom = idx_axiom_action.first;
       const size_t idx_action = idx_axiom_action.second;
       axiom_args[idx_axiom] = action_args[idx_action];
     }
-    return &axiom_args;
+    return axiom_args;
   };
 }
 
diff --git a/src/formula.cc b/src/formula.cc
index 6299073..d9b38f7 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -34,7 +34,7 @@ using FormulaFunction =
     std::function<bool(const T& state, const std::vector<Object>& arguments)>;
 
 using ApplicationFunction =
-    std::function<const std::vector<Object>&(const std::vector<Object>&)>;
+    std::function<std::vector<Object>(const std::vector<Object>&)>;
 
 template <typename T>
 using NamedFormulaFunction = std::pair<FormulaFunction<T>, std::string>;
@@ -58,7 +58,7 @@ NamedFormulaFunction<T> CreateProposition(
                                // NOLINTNEXTLINE(misc-unused-parameters)
                                const T& state,
                                const std::vector<Object>& arguments) -> bool {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       return prop_args[0] == prop_args[1];
     };
@@ -73,7 +73,7 @@ NamedFormulaFunction<T> CreateProposition(
                                // NOLINTNEXTLINE(misc-unused-parameters)
                                const T& state,
                                const std::vector<Object>& arguments) -> bool {
-      const std::vector<Object>& prop_args = Apply(arguments);
+      const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       return prop_args[0].type().IsSubtype(name_predicate);
     };
@@ -86,8 +86,8 @@ NamedFormulaFunction<T> CreateProposition(
                           Apply = std::move(Apply)](
                              const T& state,
                              const std::vector<Object>& arguments) -> bool {
-    const PropositionRef P(ptr_name_predicate, &Apply(arguments),
-                           predicate_hash);
+    const std::vector<Object> prop_args = Apply(arguments);
+    const PropositionRef P(ptr_name_predicate, &prop_args, predicate_hash);
     return state.contains(P);
   };
 
@@ -196,8 +196,8 @@ NamedFormulaFunction<PartialState> CreateNegation(
            Apply = std::move(Apply)](
               const PartialState& state,
               const std::vector<Object>& arguments) -> bool {
-        const PropositionRef P(ptr_name_predicate, &Apply(arguments),
-                               predicate_hash);
+        const std::vector<Object> prop_args = Apply(arguments);
+        const PropositionRef P(ptr_name_predicate, &prop_args, predicate_hash);
         return state.does_not_contain(P);
       };
 
@@ -379,8 +379,6 @@ ostream& operator<<(ostream& os, const Formula& F) {
 ApplicationFunction Formula::CreateApplicationFunction(
     const std::vector<Object>& action_params,
     const std::vector<Object>& prop_params) {
-  auto prop_args = std::make_shared<std::vector<Object>>(prop_params);
-
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
@@ -391,12 +389,11 @@ ApplicationFunction Formula::CreateApplicationFunction(
     }
   }
 
-  // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_prop_args = std::move(prop_args),
-          idx_params =
-              std::move(idx_params)](const std::vector<Object>& action_args)
-             -> const std::vector<Object>& {
-    std::vector<Object>& prop_args = *ptr_prop_args;
+  // Every call gets its own arguments: the function may be called by several
+  // threads at once, and again before its last result has been used.
+  return [prop_params, idx_params = std::move(idx_params)](
+             const std::vector<Object>& action_args) -> std::vector<Object> {
+    std::vector<Object> prop_args = prop_params;
     for (const std::pair<size_t, size_t>& idx_prop_action : idx_params) {
       const size_t idx_prop = idx_prop_action.first;
       const size_t idx_action = idx_prop_action.second;
-- 
2.43.0


From 579c18cdfb92f9b63c04fb58400c54b904e0c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 08/45] fix: trigger an axiom only when all of its context
 matches the changed fact

An axiom whose context repeats a variable fired for facts with different
arguments in those places, and one whose variables have a narrower type than
the predicate's parameters fired for any arguments.
---
 src/axiom.cc | 78 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 19 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 1120eec..6178633 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -11,6 +11,7 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>  // std::all_of, std::find_if, std::max
 #include <exception>  // std::domain_error
 #include <sstream>    // std::stringstream
 
@@ -103,6 +104,16 @@ SignedProposition ExtractContextPredicate(const Pddl& pddl,
   return SignedProposition(name_predicate, std::move(args), is_pos);
 }
 
+/**
+ * Finds the parameter that a proposition's argument refers to. Returns the
+ * number of parameters if there is none.
+ */
+size_t FindParameter(const std::vector<Object>& params, const Object& arg) {
+  size_t idx = 0;
+  while (idx < params.size() && params[idx] != arg) idx++;
+  return idx;
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -242,39 +253,61 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   const size_t num_prop_params = action_prop_params.size();
   assert(num_prop_params == axiom_prop_params.size());
 
-  // Check unmatched axiom prop param equal action param.
+  // Axiom params bound to action params, as (axiom param, action param) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   std::vector<Object> prepared_args = axiom_params;
+  std::vector<bool> is_prepared(axiom_params.size(), false);
   std::vector<std::pair<size_t, Object>> future_action_args;
+  std::vector<std::pair<size_t, size_t>> equal_action_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
+    const size_t i = FindParameter(axiom_params, axiom_prop_param);
     const bool is_axiom_prop_arg = i == axiom_params.size();
 
     // Check if action prop param has corresponding action param.
     const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
+    const size_t j = FindParameter(action_params, action_prop_param);
     const bool is_action_prop_arg = j == action_params.size();
 
     if (is_axiom_prop_arg && is_action_prop_arg) {
       // Make sure axiom prop arg and action prop arg are equal.
       if (axiom_prop_param != action_prop_param) return {};
-    } else if (is_axiom_prop_arg) {
+      continue;
+    }
+    if (is_axiom_prop_arg) {
       // Make sure axiom prop arg and future action prop arg are equal.
       future_action_args.emplace_back(j, axiom_prop_param);
-    } else if (is_action_prop_arg) {
-      // Instantiate axiom prop param with action prop arg.
-      prepared_args[i] = action_prop_param;
+      continue;
+    }
+
+    // Check if a repeated axiom param is already bound to an action param.
+    const auto it = std::find_if(
+        idx_params.begin(), idx_params.end(),
+        [i](const std::pair<size_t, size_t>& idx) { return idx.first == i; });
+
+    if (is_action_prop_arg) {
+      if (it != idx_params.end()) {
+        future_action_args.emplace_back(it->second, action_prop_param);
+      } else if (is_prepared[i]) {
+        if (prepared_args[i] != action_prop_param) return {};
+      } else {
+        // Instantiate axiom prop param with action prop arg.
+        if (!action_prop_param.type().IsSubtype(axiom_params[i].type())) {
+          return {};
+        }
+        prepared_args[i] = action_prop_param;
+        is_prepared[i] = true;
+      }
     } else {
-      // Match axiom prop param and action prop param.
-      idx_params.emplace_back(i, j);
+      if (it != idx_params.end()) {
+        equal_action_args.emplace_back(it->second, j);
+      } else if (is_prepared[i]) {
+        future_action_args.emplace_back(j, prepared_args[i]);
+      } else {
+        // Match axiom prop param and action prop param.
+        idx_params.emplace_back(i, j);
+      }
     }
   }
 
@@ -282,7 +315,8 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   // threads at once, and again while the axiom it instantiates is applied.
   return [prepared_args = std::move(prepared_args),
           idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
+          future_action_args = std::move(future_action_args),
+          equal_action_args = std::move(equal_action_args)](
              const std::vector<Object>& action_args)
              -> std::optional<std::vector<Object>> {
     // Check that action args match up with axiom context proposition.
@@ -291,13 +325,19 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       const Object& expected_arg = idx_argument.second;
       if (action_args[idx_arg] != expected_arg) return {};
     }
+    for (const std::pair<size_t, size_t>& idx_args : equal_action_args) {
+      if (action_args[idx_args.first] != action_args[idx_args.second]) {
+        return {};
+      }
+    }
 
     // Assign axiom args to action args.
     std::vector<Object> axiom_args = prepared_args;
     for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
-      const size_t idx_axiom = idx_axiom_action.first;
-      const size_t idx_action = idx_axiom_action.second;
-      axiom_args[idx_axiom] = action_args[idx_action];
+      Object& axiom_arg = axiom_args[idx_axiom_action.first];
+      const Object& action_arg = action_args[idx_axiom_action.second];
+      if (!action_arg.type().IsSubtype(axiom_arg.type())) return {};
+      axiom_arg = action_arg;
     }
     return axiom_args;
   };
-- 
2.43.0


From efaf8d5948f6e81f81da1e8706fbbb6240cad5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 09/45] fix: tell constants from parameters of the same name,
 and inner parameters from outer ones

A constant in a formula or effect was replaced by the argument of a parameter
with the same name, and an effect inside forall triggered axioms with the
argument of an outer parameter that the quantified one hides.
---
 src/axiom.cc   | 15 ++++++++++-----
 src/formula.cc |  5 +++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 6178633..d3840f8 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -105,13 +105,18 @@ SignedProposition ExtractContextPredicate(const Pddl& pddl,
 }
 
 /**
- * Finds the parameter that a proposition's argument refers to. Returns the
- * number of parameters if there is none.
+ * Finds the parameter that a proposition's argument refers to. Inner parameters
+ * come last and hide outer ones, and constants refer to none, even if they are
+ * named like one. Returns the number of parameters if there is none.
  */
 size_t FindParameter(const std::vector<Object>& params, const Object& arg) {
-  size_t idx = 0;
-  while (idx < params.size() && params[idx] != arg) idx++;
-  return idx;
+  if (dynamic_cast<const VAL::var_symbol*>(arg.symbol()) == nullptr) {
+    return params.size();
+  }
+  for (size_t idx = params.size(); idx-- > 0;) {
+    if (params[idx] == arg) return idx;
+  }
+  return params.size();
 }
 
 }  // namespace
diff --git a/src/formula.cc b/src/formula.cc
index d9b38f7..2d399d0 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -382,6 +382,11 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // A constant is not a parameter, even if it is named like one.
+    if (dynamic_cast<const VAL::var_symbol*>(prop_params[i].symbol()) ==
+        nullptr) {
+      continue;
+    }
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From 01f7d38408fb6345fe847f876a62353b738f6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 10/45] fix: report changes made by the axioms that an effect
 triggers

Applying an action or axiom to a partial state returns 2 if a fact was flipped,
but flips made by triggered axioms were not reported, so that contradictions
went unnoticed by IsValidState() and ConsistentState().
---
 src/action.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 9cc2a6e..3d6ce2d 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -160,7 +160,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      const int axiom_status = axiom.Action::Apply(*axiom_args, state);
+      status = std::max(status, axiom_status);
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -251,7 +252,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      const int axiom_status = axiom.Action::Apply(*axiom_args, state);
+      status = std::max(status, axiom_status);
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From 605ee513c8a8e4bb12753f36e54415cfcb7a3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 11/45] fix: do not take running out of memory for an axiom
 violation

Axiom::IsConsistent() returned false when memory ran out, and printing an axiom
dereferenced an empty optional when a side of it can never hold.
---
 src/axiom.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index d3840f8..fdc7612 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -12,8 +12,8 @@
 #include <VAL/ptree.h>
 
 #include <algorithm>  // std::all_of, std::find_if, std::max
-#include <exception>  // std::domain_error
 #include <sstream>    // std::stringstream
+#include <stdexcept>  // std::domain_error, std::runtime_error
 
 #include "symbolic/normal_form.h"
 
@@ -53,17 +53,24 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const VAL::effect_lists* postconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
+  const auto Print = [&ss](const std::optional<DisjunctiveFormula>& dnf) {
+    if (dnf.has_value()) {
+      ss << *dnf;
+    } else {
+      ss << "false";
+    }
+  };
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
-  } catch (...) {
+    Print(DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters));
+  } catch (const std::runtime_error& e) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
-  } catch (...) {
+    Print(DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters));
+  } catch (const std::runtime_error& e) {
     ss << "false";
   }
   return ss.str();
@@ -143,7 +150,7 @@ bool Axiom::IsConsistent(const State& state) const {
     // Test if implies is valid (state shouldn't change)
     try {
       if (Action::Apply(args, &test_state)) return false;
-    } catch (const std::exception& e) {
+    } catch (const std::runtime_error& e) {
       // std::cerr << e.what() << std::endl;
       return false;
     }
@@ -167,7 +174,7 @@ bool Axiom::IsConsistent(PartialState* state, bool* is_changed) const {
           if (changed > 1) return false;
 
           *is_changed |= changed > 0;
-        } catch (const std::exception& e) {
+        } catch (const std::runtime_error& e) {
           // std::cerr << e.what() << std::endl;
           return false;
         }
-- 
2.43.0


From 8eff4dcd094e1c4ad0f1ce9c3e645eed55393828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 12/45] fix: derive exactly the facts of the least stratified
 model

Derived facts left over from the state before could support each other, rules
of the same predicate erased each other's facts, and rules with negation were
evaluated before the predicates they negate had settled.
---
 include/symbolic/derived_predicate.h |  14 ++++
 src/derived_predicate.cc             | 113 ++++++++++++++++++++++++---
 2 files changed, 116 insertions(+), 11 deletions(-)

diff --git a/include/symbolic/derived_predicate.h b/include/symbolic/derived_predicate.h
index 111170c..273393d 100644
--- a/include/symbolic/derived_predicate.h
+++ b/include/symbolic/derived_predicate.h
@@ -28,6 +28,12 @@ class DerivedPredicate : public Action {
 
   const VAL::effect_lists* postconditions() const = delete;
 
+  /**
+   * Add all facts that this rule derives. Facts derived by other rules and ones
+   * that no longer hold are left alone.
+   *
+   * @returns Whether a fact was added.
+   */
   bool Apply(State* state) const;
 
   State Apply(const State& state, const std::vector<Object>& arguments) const = delete;
@@ -36,10 +42,18 @@ class DerivedPredicate : public Action {
 
   static State Apply(const State& state, const std::vector<DerivedPredicate>& predicates);
 
+  /**
+   * Replace all derived facts in the state with those derivable from the others.
+   *
+   * @returns Whether the state was changed.
+   */
   static bool Apply(const std::vector<DerivedPredicate>& predicates, State* state);
 
  private:
   const VAL::derivation_rule* symbol_;
+
+  // Rules negate predicates of lower strata only
+  size_t stratum_ = 0;
 };
 
 }  // namespace symbolic
diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 73939f9..3ff3d98 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -11,8 +11,80 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>      // std::any_of, std::max
+#include <string>         // std::string
+#include <unordered_map>  // std::unordered_map
+#include <utility>        // std::move
+
 #include "symbolic/pddl.h"
 
+namespace {
+
+using StratumMap = std::unordered_map<std::string, size_t>;
+
+/**
+ * Finds the lowest stratum in which the formula can be evaluated: not below any
+ * derived predicate it contains, and above those it negates.
+ */
+size_t LowestStratum(const VAL::goal* goal, bool is_pos,
+                     const StratumMap& strata) {
+  const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(goal);
+  if (simple_goal != nullptr) {
+    const auto it = strata.find(simple_goal->getProp()->head->getNameRef());
+    if (it == strata.end()) return 0;
+    return is_pos ? it->second : it->second + 1;
+  }
+
+  const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);
+  if (neg_goal != nullptr) {
+    return LowestStratum(neg_goal->getGoal(), !is_pos, strata);
+  }
+
+  const auto* qfied_goal = dynamic_cast<const VAL::qfied_goal*>(goal);
+  if (qfied_goal != nullptr) {
+    return LowestStratum(qfied_goal->getGoal(), is_pos, strata);
+  }
+
+  const VAL::goal_list* goals = nullptr;
+  const auto* conj_goal = dynamic_cast<const VAL::conj_goal*>(goal);
+  if (conj_goal != nullptr) goals = conj_goal->getGoals();
+  const auto* disj_goal = dynamic_cast<const VAL::disj_goal*>(goal);
+  if (disj_goal != nullptr) goals = disj_goal->getGoals();
+
+  size_t stratum = 0;
+  if (goals == nullptr) return stratum;
+  for (const VAL::goal* subgoal : *goals) {
+    stratum = std::max(stratum, LowestStratum(subgoal, is_pos, strata));
+  }
+  return stratum;
+}
+
+/**
+ * Computes the stratum of the predicate, so that all predicates negated by its
+ * rules belong to lower strata. The strata are bounded in case the rules are
+ * not stratified.
+ */
+size_t ComputeStratum(const VAL::domain& domain, const std::string& name) {
+  StratumMap strata;
+  for (const VAL::derivation_rule* rule : *domain.drvs) {
+    strata[rule->get_head()->head->getName()] = 0;
+  }
+  bool is_changed = true;
+  while (is_changed) {
+    is_changed = false;
+    for (const VAL::derivation_rule* rule : *domain.drvs) {
+      size_t& stratum = strata[rule->get_head()->head->getName()];
+      const size_t lowest = LowestStratum(rule->get_body(), true, strata);
+      if (lowest <= stratum || lowest >= strata.size()) continue;
+      stratum = lowest;
+      is_changed = true;
+    }
+  }
+  return strata[name];
+}
+
+}  // namespace
+
 namespace symbolic {
 
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
@@ -23,6 +95,7 @@ DerivedPredicate::DerivedPredicate(const Pddl& pddl,
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
   Preconditions_ = Formula(pddl, symbol_->get_body(), parameters_);
+  stratum_ = ComputeStratum(*pddl.symbol()->the_domain, name_);
 }
 
 bool DerivedPredicate::Apply(State* state) const {
@@ -32,9 +105,8 @@ bool DerivedPredicate::Apply(State* state) const {
     // Keep iterating until predicate converges
     is_iter_changed = false;
     for (const std::vector<Object>& arguments : parameter_generator()) {
-      is_iter_changed |= IsValid(*state, arguments)
-                             ? state->emplace(name(), arguments)
-                             : state->erase(Proposition(name(), arguments));
+      if (!IsValid(*state, arguments)) continue;
+      is_iter_changed |= state->emplace(name(), arguments);
     }
     is_changed |= is_iter_changed;
   }
@@ -43,16 +115,35 @@ bool DerivedPredicate::Apply(State* state) const {
 
 bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
                              State* state) {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicates converge
-    is_iter_changed = false;
-    for (const DerivedPredicate& pred : predicates) {
-      is_iter_changed |= pred.Apply(state);
+  if (predicates.empty()) return false;
+
+  // Start without any derived facts, since old ones might support each other
+  State next_state = *state;
+  size_t max_stratum = 0;
+  for (const Proposition& prop : *state) {
+    const bool is_derived = std::any_of(
+        predicates.begin(), predicates.end(),
+        [&prop](const DerivedPredicate& p) { return p.name() == prop.name(); });
+    if (is_derived) next_state.erase(prop);
+  }
+  for (const DerivedPredicate& pred : predicates) {
+    max_stratum = std::max(max_stratum, pred.stratum_);
+  }
+
+  // Derive facts from the lowest stratum up
+  for (size_t stratum = 0; stratum <= max_stratum; stratum++) {
+    bool is_iter_changed = true;
+    while (is_iter_changed) {
+      // Keep iterating until predicates converge
+      is_iter_changed = false;
+      for (const DerivedPredicate& pred : predicates) {
+        if (pred.stratum_ == stratum) is_iter_changed |= pred.Apply(&next_state);
+      }
     }
-    is_changed |= is_iter_changed;
   }
+
+  const bool is_changed = !(next_state == *state);
+  *state = std::move(next_state);
   return is_changed;
 }
 
-- 
2.43.0


From 902aff40237b1095f19aa78a1d81c170ab8b7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 13/45] fix: initial states hold their derived facts

---
 include/symbolic/planning/planner.h | 2 +-
 src/pddl.cc                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/planning/planner.h b/include/symbolic/planning/planner.h
index 2336f41..0c12e8a 100644
--- a/include/symbolic/planning/planner.h
+++ b/include/symbolic/planning/planner.h
@@ -77,7 +77,7 @@ class Planner {
    * @seepython{symbolic.Planner,__init__}
    */
   Planner(const Pddl& pddl, const State& state)
-      : root_(pddl, pddl.ConsistentState(state)) {}
+      : root_(pddl, pddl.DerivedState(pddl.ConsistentState(state))) {}
 
   const Node& root() const { return root_; }
 
diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..ef4a80d 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -275,7 +275,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   actions_ = GetActions(*this, *analysis_->the_domain);
 
   if (apply_axioms) {
-    initial_state_ = ConsistentState(initial_state_);
+    initial_state_ = DerivedState(ConsistentState(initial_state_));
   }
 }
 
-- 
2.43.0


From 70fc54969f2bddaf7464420801f6d27302d14035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 14/45] fix: search domains that have no actions

---
 include/symbolic/utils/combination_generator.h | 3 ++-
 src/planning/planner.cc                        | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 56e6654..07cb23d 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -236,6 +236,7 @@ class CombinationGenerator<ContainerT>::Iterator {
   using reference = const value_type&;
 
   // Constructor
+  Iterator() = default;
   Iterator(const CombinationGenerator* gen, int idx) : gen_(gen), idx_(idx) {
     UpdateCombination();
   }
@@ -382,7 +383,7 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   const CombinationGenerator* gen_ = nullptr;
   std::vector<ValueT> combination_;
-  int idx_;
+  int idx_ = 0;
 
   friend class CombinationGenerator;
 };
diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..d4cd5b0 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -142,8 +142,11 @@ std::ostream& operator<<(std::ostream& os, const Planner::Node& node) {
 Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
-      it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_action_(pddl_.actions().begin()) {
+  // There are no parameters without actions
+  if (it_action_ == pddl_.actions().end()) return;
+  it_param_ = it_action_->parameter_generator().begin();
+}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
-- 
2.43.0


From 0a0232e2e2ad75d62e7065b12781f1310a115f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 15/45] fix: depth-first and A* search yield the last plan

---
 include/symbolic/planning/a_star.h             | 8 ++++++--
 include/symbolic/planning/depth_first_search.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..d901876 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,15 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  // The last plan may be found when there are no nodes left to visit.
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +97,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +107,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..da84cb3 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,15 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  // The last plan may be found when there are no nodes left to visit.
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +82,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +93,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 79740f9d3380d5bc66d125919048402471792069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 16/45] fix: measure search time limits with a clock that does
 not jump

---
 include/symbolic/planning/breadth_first_search.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/planning/breadth_first_search.h b/include/symbolic/planning/breadth_first_search.h
index 505e82f..7b8b024 100644
--- a/include/symbolic/planning/breadth_first_search.h
+++ b/include/symbolic/planning/breadth_first_search.h
@@ -83,12 +83,12 @@ class BreadthFirstSearch<NodeT>::iterator {
 template <typename NodeT>
 typename BreadthFirstSearch<NodeT>::iterator&
 BreadthFirstSearch<NodeT>::iterator::operator++() {
-  const auto t_start = std::chrono::high_resolution_clock::now();
+  const auto t_start = std::chrono::steady_clock::now();
   size_t depth = 0;
   while (!queue_.empty()) {
     // Abort on timeout.
     if (bfs_->timeout_.count() > 0 &&
-        std::chrono::high_resolution_clock::now() - t_start > bfs_->timeout_) {
+        std::chrono::steady_clock::now() - t_start > bfs_->timeout_) {
       std::queue<std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>> empty;
       std::swap(queue_, empty);
       break;
-- 
2.43.0


From ce0a4a1c54c86963dc16db6d7550052a32a57132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 17/45] fix: reject numbers beyond the state index

---
 src/state.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/state.cc b/src/state.cc
index 8330f34..58b6504 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -11,6 +11,7 @@
 
 #include <algorithm>  // std::lower_bound, std::sort
 #include <cassert>    // assert
+#include <stdexcept>  // std::out_of_range
 
 #include "symbolic/pddl.h"
 #include "symbolic/utils/unique_vector.h"
@@ -147,6 +148,14 @@ StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
       use_cache_(use_cache) {}
 
 Proposition StateIndex::GetProposition(size_t idx_proposition) const {
+  // Check for bounds
+  if (idx_proposition >= size()) {
+    throw std::out_of_range("StateIndex::GetProposition(" +
+                            std::to_string(idx_proposition) +
+                            "): index beyond bounds " + std::to_string(size()) +
+                            ".");
+  }
+
   // Check cache
   if (use_cache_ &&
       cache_propositions_.find(idx_proposition) != cache_propositions_.end()) {
-- 
2.43.0


From 58c8e646380afe31feb0082340cd50ea94c9e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 18/45] fix: let threads share the caches of the state index

---
 include/symbolic/state.h | 14 +++++++++-----
 src/state.cc             | 27 ++++++++++++++++-----------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/symbolic/state.h b/include/symbolic/state.h
index c90b492..fcedcfc 100644
--- a/include/symbolic/state.h
+++ b/include/symbolic/state.h
@@ -15,6 +15,8 @@
 #include <Eigen/Eigen>
 #include <exception>      // std::exception
 #include <functional>     // std::hash
+#include <memory>         // std::shared_ptr
+#include <mutex>          // std::mutex
 #include <optional>       // std::optional
 #include <ostream>        // std::ostream
 #include <unordered_map>  // std::unordered_map
@@ -297,11 +299,13 @@ class StateIndex {
   // Map from predicate to index in predicates vector
   std::unordered_map<std::string, size_t> idx_predicates_;
 
-  // Cache
-  mutable std::unordered_map<size_t, Proposition> cache_propositions_;
-  mutable std::unordered_map<std::string, size_t> cache_idx_propositions_;
-
-  bool use_cache_;
+  // Cache, shared with copies of the index. Null if lookups aren't cached.
+  struct Cache {
+    std::mutex mutex;
+    std::unordered_map<size_t, Proposition> propositions;
+    std::unordered_map<std::string, size_t> idx_propositions;
+  };
+  std::shared_ptr<Cache> cache_;
 
  public:
   class iterator {
diff --git a/src/state.cc b/src/state.cc
index 58b6504..f4849b4 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -145,7 +145,7 @@ StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
       predicates_(predicates),
       idx_predicate_group_(PredicateCumSum(predicates_)),
       idx_predicates_(PredicateIndices(predicates_)),
-      use_cache_(use_cache) {}
+      cache_(use_cache ? std::make_shared<Cache>() : nullptr) {}
 
 Proposition StateIndex::GetProposition(size_t idx_proposition) const {
   // Check for bounds
@@ -157,9 +157,10 @@ Proposition StateIndex::GetProposition(size_t idx_proposition) const {
   }
 
   // Check cache
-  if (use_cache_ &&
-      cache_propositions_.find(idx_proposition) != cache_propositions_.end()) {
-    return cache_propositions_.at(idx_proposition);
+  if (cache_ != nullptr) {
+    std::lock_guard<std::mutex> lock(cache_->mutex);
+    const auto it = cache_->propositions.find(idx_proposition);
+    if (it != cache_->propositions.end()) return it->second;
   }
 
   // Find index of predicate through bisection
@@ -180,8 +181,10 @@ Proposition StateIndex::GetProposition(size_t idx_proposition) const {
   std::vector<Object> args = pred.parameter_generator()[idx_args];
 
   // Cache results
-  if (use_cache_) {
-    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);
+  if (cache_ != nullptr) {
+    std::lock_guard<std::mutex> lock(cache_->mutex);
+    cache_->propositions.emplace(idx_proposition,
+                                 Proposition(pred.name(), args));
   }
 
   return Proposition(pred.name(), std::move(args));
@@ -189,9 +192,10 @@ Proposition StateIndex::GetProposition(size_t idx_proposition) const {
 
 size_t StateIndex::GetPropositionIndex(const Proposition& prop) const {
   // Check cache
-  if (use_cache_) {
-    const auto it = cache_idx_propositions_.find(prop.to_string());
-    if (it != cache_idx_propositions_.end()) {
+  if (cache_ != nullptr) {
+    std::lock_guard<std::mutex> lock(cache_->mutex);
+    const auto it = cache_->idx_propositions.find(prop.to_string());
+    if (it != cache_->idx_propositions.end()) {
       return it->second;
     }
   }
@@ -208,8 +212,9 @@ size_t StateIndex::GetPropositionIndex(const Proposition& prop) const {
   const size_t idx_proposition = idx_predicate_group_[idx_pred] + idx_args;
 
   // Cache results
-  if (use_cache_) {
-    cache_idx_propositions_[prop.to_string()] = idx_proposition;
+  if (cache_ != nullptr) {
+    std::lock_guard<std::mutex> lock(cache_->mutex);
+    cache_->idx_propositions[prop.to_string()] = idx_proposition;
   }
   return idx_proposition;
 }
-- 
2.43.0


From 87b4b06e1f6ca7362111bf815e0edf1533c5f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 19/45] fix: reject facts with the wrong number of arguments in
 lookups

---
 include/symbolic/utils/combination_generator.h | 7 ++++++-
 src/state.cc                                   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 07cb23d..81cc79a 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -151,7 +151,12 @@ class CombinationGenerator {
    * Get index of given combination.
    */
   int find(const typename iterator::value_type& combination) const {
-    assert(combination.size() == options_.size());
+    if (combination.size() != options_.size()) {
+      std::stringstream ss;
+      ss << "CombinationGenerator::find(): Expected " << options_.size()
+         << " elements, but got " << combination.size() << ".";
+      throw std::out_of_range(ss.str());
+    }
     size_t idx = 0;
 
     // Iterate over digit slots
diff --git a/src/state.cc b/src/state.cc
index f4849b4..1dee543 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -141,7 +141,7 @@ std::ostream& operator<<(std::ostream& os, const PartialState& state) {
 }
 
 StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
-    : pddl_(&predicates.front().pddl()),
+    : pddl_(predicates.empty() ? nullptr : &predicates.front().pddl()),
       predicates_(predicates),
       idx_predicate_group_(PredicateCumSum(predicates_)),
       idx_predicates_(PredicateIndices(predicates_)),
-- 
2.43.0


From 9b23c794375b1015d633526cecbc60c20e526826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 20/45] fix: raise an error when text cannot be written or read
 for lack of memory

Streams swallow the error otherwise, and facts or action calls are mistaken for
others whose text is shorter.
---
 src/action.cc      | 2 ++
 src/axiom.cc       | 1 +
 src/formula.cc     | 4 ++++
 src/object.cc      | 1 +
 src/predicate.cc   | 2 ++
 src/proposition.cc | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/src/action.cc b/src/action.cc
index 3d6ce2d..dc65dc3 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -369,12 +369,14 @@ const VAL::effect_lists* Action::postconditions() const {
 
 std::string Action::to_string() const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << *this;
   return ss.str();
 }
 
 std::string Action::to_string(const std::vector<Object>& arguments) const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << name_ << "(";
   std::string separator;
   for (const Object& arg : arguments) {
diff --git a/src/axiom.cc b/src/axiom.cc
index fdc7612..e2a7ba2 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -53,6 +53,7 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const VAL::effect_lists* postconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   const auto Print = [&ss](const std::optional<DisjunctiveFormula>& dnf) {
     if (dnf.has_value()) {
       ss << *dnf;
diff --git a/src/formula.cc b/src/formula.cc
index 2d399d0..967883c 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -99,6 +99,7 @@ NamedFormulaFunction<T> CreateConjunction(
     const Pddl& pddl, const VAL::conj_goal* symbol,
     const std::vector<Object>& parameters) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << "(and";
 
   std::vector<FormulaFunction<T>> subformulas;
@@ -129,6 +130,7 @@ NamedFormulaFunction<T> CreateDisjunction(
     const Pddl& pddl, const VAL::disj_goal* symbol,
     const std::vector<Object>& parameters) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << "(or";
 
   std::vector<FormulaFunction<T>> subformulas;
@@ -250,6 +252,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
   };
 
   std::stringstream ss("(forall (");
+  ss.exceptions(std::ios_base::badbit);
   std::string delim;
   for (const Object& param : parameters) {
     ss << delim << "?" << param << " - " << param.type().name();
@@ -289,6 +292,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
   };
 
   std::stringstream ss("(exists (");
+  ss.exceptions(std::ios_base::badbit);
   std::string delim;
   for (const Object& param : parameters) {
     ss << delim << "?" << param << " - " << param.type().name();
diff --git a/src/object.cc b/src/object.cc
index 69091a1..aa917d7 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -62,6 +62,7 @@ std::vector<std::string> TokenizeArguments(const std::string& proposition) {
   std::string str_args = proposition.substr(idx_start, idx_end);
   std::replace(str_args.begin(), str_args.end(), ',', ' ');
   std::stringstream ss(str_args);
+  ss.exceptions(std::ios_base::badbit);
 
   std::string arg;
   std::vector<std::string> args;
diff --git a/src/predicate.cc b/src/predicate.cc
index 6911c92..7080e70 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -27,12 +27,14 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << *this;
   return ss.str();
 }
 
 std::string Predicate::to_string(const std::vector<Object>& arguments) const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << name_ << "(";
   std::string separator;
   for (const Object& arg : arguments) {
diff --git a/src/proposition.cc b/src/proposition.cc
index ff9ff5a..bc2bbe7 100644
--- a/src/proposition.cc
+++ b/src/proposition.cc
@@ -37,12 +37,14 @@ size_t PropositionBase::Hash(const PropositionBase& prop,
 
 std::string PropositionBase::to_string() const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << *this;
   return ss.str();
 }
 
 std::string PropositionBase::to_pddl() const {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   ss << "(" << name();
   for (const Object& arg : arguments()) {
     ss << " " << arg;
-- 
2.43.0


From cf3b548e2a6617e449386315716ec0582a6b89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 21/45] fix: loading a domain with an empty problem string

---
 src/pddl.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index ef4a80d..a3e7855 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -212,9 +212,11 @@ std::vector<DerivedPredicate> GetDerivedPredicates(const Pddl& pddl,
   return predicates;
 }
 
-State GetInitialState(const VAL::domain& domain, const VAL::problem& problem) {
+State GetInitialState(const VAL::domain& domain, const VAL::problem* problem) {
   State initial_state;
-  for (const VAL::simple_effect* effect : problem.initial_state->add_effects) {
+  if (problem == nullptr) return initial_state;
+
+  for (const VAL::simple_effect* effect : problem->initial_state->add_effects) {
     std::vector<Object> arguments;
     arguments.reserve(effect->prop->args->size());
     for (const VAL::parameter_symbol* arg : *effect->prop->args) {
@@ -260,8 +262,10 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
       state_index_(predicates_),
       initial_state_(
-          GetInitialState(*analysis_->the_domain, *analysis_->the_problem)),
-      goal_(*this, analysis_->the_problem->the_goal) {
+          GetInitialState(*analysis_->the_domain, analysis_->the_problem)),
+      goal_(analysis_->the_problem == nullptr
+                ? Formula()
+                : Formula(*this, analysis_->the_problem->the_goal)) {
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
@@ -274,7 +278,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   // Create actions after all axioms have settled.
   actions_ = GetActions(*this, *analysis_->the_domain);
 
-  if (apply_axioms) {
+  if (apply_axioms && analysis_->the_problem != nullptr) {
     initial_state_ = DerivedState(ConsistentState(initial_state_));
   }
 }
-- 
2.43.0


From 372c467eebc4047d073d3a82121da21957188a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 22/45] fix: list the constants of a domain loaded without a
 problem

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index a3e7855..748a460 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -286,6 +286,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From d016c5d3b97235aff6f36fcd8fd6350f6ab60e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 23/45] fix: raise an error when a PDDL file cannot be read

---
 src/pddl.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 748a460..14126bc 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,10 +13,11 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
-#include <fstream>  // std::ifstream
-#include <sstream>  // std::stringstream
-#include <string>   // std::string
-#include <utility>  // std::move
+#include <fstream>   // std::ifstream
+#include <iterator>  // std::istreambuf_iterator
+#include <sstream>   // std::stringstream
+#include <string>    // std::string
+#include <utility>   // std::move
 
 #include "symbolic/utils/parameter_generator.h"
 #include "utils/doctest.h"
@@ -52,6 +53,14 @@ extern const char* current_filename;  // Expected in parse_error.h
 
 namespace {
 
+// Unlike the parser, which ends the process if a file cannot be read to its
+// end, raises an error.
+std::string ReadFile(const std::string& filename) {
+  std::ifstream file(filename);
+  return {std::istreambuf_iterator<char>(file),
+          std::istreambuf_iterator<char>()};
+}
+
 std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
                                          const std::string& problem) {
   std::unique_ptr<VAL::analysis> analysis = std::make_unique<VAL::analysis>();
@@ -63,7 +72,7 @@ std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
 
   // Parse domain
   current_filename = filename_domain.c_str();
-  std::ifstream pddl_domain(filename_domain);
+  std::stringstream pddl_domain(ReadFile(filename_domain));
   yfl.switch_streams(&pddl_domain, &std::cout);
   yyparse();
   if (analysis->the_domain == nullptr) {
@@ -77,20 +86,20 @@ std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
 
   // Check if problem is a PDDL string.
   const size_t idx_last_char = problem.find_last_not_of(" \t\n\r");
-  std::shared_ptr<std::istream> input_problem;
+  std::stringstream input_problem;
   if (idx_last_char != std::string::npos && problem[idx_last_char] == ')') {
     // Pddl string.
-    input_problem = std::make_shared<std::stringstream>(problem);
+    input_problem.str(problem);
     current_filename = "<pddl string>";
   } else {
     // Filename.
-    input_problem = std::make_shared<std::ifstream>(problem);
+    input_problem.str(ReadFile(problem));
     current_filename = problem.c_str();
   }
 
   // Parse problem
   line_no = 1;
-  yfl.switch_streams(input_problem.get(), &std::cout);
+  yfl.switch_streams(&input_problem, &std::cout);
   yyparse();
   if (analysis->the_problem == nullptr) {
     analysis->error_list.report();
-- 
2.43.0


From 9224dd3b00209c227a96b7f96dd61bee8a6e5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 24/45] fix: load domains and problems that leave out sections

---
 src/object.cc | 5 ++---
 src/pddl.cc   | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/object.cc b/src/object.cc
index aa917d7..23f13ee 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -12,7 +12,6 @@
 #include <VAL/ptree.h>
 
 #include <algorithm>  // std::min, std::replace
-#include <cassert>    // assert
 #include <sstream>    // std::stringstream
 
 #include "symbolic/pddl.h"
@@ -43,8 +42,8 @@ const VAL::const_symbol* GetSymbol(const Pddl& pddl,
       if (obj->getName() == name_object) return obj;
     }
   }
-  if (pddl.symbol()->the_problem != nullptr) {
-    assert(pddl.symbol()->the_problem->objects != nullptr);
+  if (pddl.symbol()->the_problem != nullptr &&
+      pddl.symbol()->the_problem->objects != nullptr) {
     for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
       if (obj == nullptr) continue;
       if (obj->getName() == name_object) return obj;
diff --git a/src/pddl.cc b/src/pddl.cc
index 14126bc..8bf5490 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -176,6 +176,7 @@ std::vector<Action> GetActions(const Pddl& pddl, const VAL::domain& domain) {
 std::vector<Predicate> GetPredicates(const Pddl& pddl,
                                      const VAL::domain& domain) {
   std::vector<Predicate> predicates;
+  if (domain.predicates == nullptr) return predicates;
   for (const VAL::pred_decl* pred : *domain.predicates) {
     predicates.emplace_back(pddl, pred);
   }
@@ -223,8 +224,9 @@ std::vector<DerivedPredicate> GetDerivedPredicates(const Pddl& pddl,
 
 State GetInitialState(const VAL::domain& domain, const VAL::problem* problem) {
   State initial_state;
-  if (problem == nullptr) return initial_state;
-
+  if (problem == nullptr || problem->initial_state == nullptr) {
+    return initial_state;
+  }
   for (const VAL::simple_effect* effect : problem->initial_state->add_effects) {
     std::vector<Object> arguments;
     arguments.reserve(effect->prop->args->size());
-- 
2.43.0


From bcc0c4b207b8cc205a40c89dfdceb031a82ebd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 25/45] fix: adding and removing objects takes effect
 everywhere or nowhere

---
 include/symbolic/pddl.h |  17 +++++
 src/pddl.cc             | 151 +++++++++++++++++++++++++++++++++-------
 2 files changed, 144 insertions(+), 24 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 4713874..bc54da7 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -199,7 +199,17 @@ class Pddl {
   std::vector<std::string> ListValidActions(
       const std::set<std::string>& state) const;
 
+  /**
+   * Add an object to the problem.
+   *
+   * @param name Name of the object. Must not be in use.
+   * @param type Type of the object.
+   */
   void AddObject(const std::string& name, const std::string& type);
+
+  /**
+   * Remove an object of the problem.
+   */
   void RemoveObject(const std::string& name);
 
   const VAL::analysis* symbol() const { return analysis_.get(); }
@@ -250,12 +260,19 @@ class Pddl {
   const Formula& goal() const { return goal_; }
 
  private:
+  /**
+   * Update everything that depends on the objects after the list of objects in
+   * the parsed problem has changed.
+   */
+  void UpdateObjects();
+
   std::shared_ptr<VAL::analysis> analysis_;
   std::string domain_pddl_;
   std::string problem_pddl_;
 
   std::vector<Object> constants_;
   std::vector<Object> objects_;
+  std::vector<std::shared_ptr<void>> removed_objects_;
   ObjectTypeMap object_map_;
 
   AxiomContextMap axiom_map_;
diff --git a/src/pddl.cc b/src/pddl.cc
index 8bf5490..67531eb 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,11 +13,15 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
-#include <fstream>   // std::ifstream
-#include <iterator>  // std::istreambuf_iterator
-#include <sstream>   // std::stringstream
-#include <string>    // std::string
-#include <utility>   // std::move
+#include <algorithm>  // std::find_if, std::move, std::none_of
+#include <fstream>    // std::ifstream
+#include <iterator>   // std::istreambuf_iterator, std::next
+#include <list>       // std::list
+#include <optional>   // std::optional
+#include <sstream>    // std::stringstream
+#include <stdexcept>  // std::invalid_argument
+#include <string>     // std::string
+#include <utility>    // std::move
 
 #include "symbolic/utils/parameter_generator.h"
 #include "utils/doctest.h"
@@ -163,6 +167,20 @@ std::unordered_map<std::string, std::vector<Object>> CreateObjectTypeMap(
   return object_map;
 }
 
+VAL::pddl_type* FindType(const VAL::pddl_type_list* types,
+                         const std::string& name) {
+  if (types != nullptr) {
+    for (VAL::pddl_type* type : *types) {
+      for (; type != nullptr; type = type->type) {
+        if (type->getNameRef() == name) return type;
+      }
+    }
+  }
+  if (name == "object") return nullptr;
+  throw std::invalid_argument("Pddl::AddObject(): Type " + name +
+                              " does not exist.");
+}
+
 std::vector<Action> GetActions(const Pddl& pddl, const VAL::domain& domain) {
   std::vector<Action> actions;
   for (const VAL::operator_* op : *domain.ops) {
@@ -530,32 +548,117 @@ std::vector<std::string> Pddl::ListValidActions(
 }
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
-  VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  VAL::problem* problem = analysis_->the_problem;
+  if (problem == nullptr) {
+    throw std::invalid_argument("Pddl::AddObject(): No problem is loaded.");
+  }
+  for (const Object& object : objects_) {
+    if (object.name() != name) continue;
+    throw std::invalid_argument("Pddl::AddObject(): Object " + name +
+                                " already exists.");
   }
-  analysis_->the_problem->objects->push_back(symbol);
-  objects_.emplace_back(*this, symbol);
+
+  std::unique_ptr<VAL::const_symbol> symbol =
+      std::make_unique<VAL::const_symbol>(name);
+  symbol->type = FindType(analysis_->the_domain->types, type);
+
+  if (problem->objects == nullptr) {
+    problem->objects = new VAL::const_symbol_list;
+  }
+  problem->objects->push_back(symbol.get());
+  try {
+    UpdateObjects();
+  } catch (...) {
+    problem->objects->pop_back();
+    throw;
+  }
+  symbol.release();
 }
 
 void Pddl::RemoveObject(const std::string& name) {
-  for (auto it = objects_.begin(); it != objects_.end(); ++it) {
-    if (it->name() != name) continue;
-    const VAL::pddl_typed_symbol* symbol = it->symbol();
-    objects_.erase(it);
-
-    VAL::const_symbol_list* objects = analysis_->the_problem->objects;
-    for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-      if ((*itt)->getNameRef() != name) continue;
-      objects->erase(itt);
-      break;
+  for (const Object& constant : constants_) {
+    if (constant.name() != name) continue;
+    throw std::invalid_argument("Pddl::RemoveObject(): Cannot remove constant " +
+                                name + " of the domain.");
+  }
+
+  const VAL::problem* problem = analysis_->the_problem;
+  if (problem == nullptr || problem->objects == nullptr) return;
+  const auto it = std::find_if(problem->objects->begin(),
+                               problem->objects->end(),
+                               [&name](const VAL::const_symbol* symbol) {
+                                 return symbol->getNameRef() == name;
+                               });
+  if (it == problem->objects->end()) return;
+
+  // States and formulas may still refer to the object, so keep its symbol.
+  const auto keep = std::make_shared<std::unique_ptr<VAL::const_symbol>>();
+  removed_objects_.push_back(keep);
+
+  State initial_state;
+  for (const Proposition& prop : initial_state_) {
+    if (std::none_of(
+            prop.arguments().begin(), prop.arguments().end(),
+            [&name](const Object& arg) { return arg.name() == name; })) {
+      initial_state.insert(prop);
     }
+  }
 
-    delete symbol;
-    break;
+  std::list<VAL::const_symbol*> removed;
+  const auto it_next = std::next(it);
+  removed.splice(removed.end(), *problem->objects, it);
+  try {
+    UpdateObjects();
+  } catch (...) {
+    problem->objects->splice(it_next, removed);
+    removed_objects_.pop_back();
+    throw;
   }
+  keep->reset(removed.front());
+  initial_state_ = std::move(initial_state);
+}
+
+void Pddl::UpdateObjects() {
+  const VAL::domain& domain = *analysis_->the_domain;
+  std::vector<Object> objects = GetObjects(domain, analysis_->the_problem);
+  ObjectTypeMap object_map = CreateObjectTypeMap(objects);
+
+  std::vector<Axiom> axioms;
+  std::vector<Action> actions;
+  std::vector<Predicate> predicates;
+  std::vector<DerivedPredicate> derived_predicates;
+  std::optional<StateIndex> state_index;
+  Formula goal;
+
+  // Recreate everything that depends on the object map.
+  object_map_.swap(object_map);
+  try {
+    axioms.reserve(axioms_.size());
+    for (const std::shared_ptr<Axiom>& axiom : axioms_) {
+      axioms.emplace_back(*this, axiom->symbol());
+    }
+    predicates = GetPredicates(*this, domain);
+    derived_predicates = GetDerivedPredicates(*this, domain);
+    state_index.emplace(predicates);
+    goal = Formula(*this, analysis_->the_problem->the_goal);
+    actions = GetActions(*this, domain);
+  } catch (...) {
+    object_map_.swap(object_map);
+    throw;
+  }
+
+  // Nothing can fail from here on. Axioms are updated in place, because actions
+  // refer to them.
+  objects_ = std::move(objects);
+  for (size_t i = 0; i < axioms.size(); i++) {
+    *axioms_[i] = std::move(axioms[i]);
+  }
+  std::move(actions.begin(), actions.end(), actions_.begin());
+  std::move(predicates.begin(), predicates.end(), predicates_.begin());
+  std::move(derived_predicates.begin(), derived_predicates.end(),
+            derived_predicates_.begin());
+  state_index_ = std::move(*state_index);
+  goal_ = std::move(goal);
 }
 
 const std::string& Pddl::name() const { return symbol()->the_domain->name; }
-- 
2.43.0


From 1d672c9769de2298809d3a307167bd514fff1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 26/45] fix: put the variables of quantified formulas in
 parentheses

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..5b24968 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From bea1d9e1517ef1cf307982cc741473d4da802aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 27/45] fix: leave the problem unchanged if a set of initial
 propositions is malformed

---
 symbolic/problem.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 5b24968..3639fe3 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -108,15 +108,21 @@ class Problem:
     def add_object(self, name: str, object_type: str = ""):
         self._objects.append(Object(name, object_type))
 
-    def add_initial_prop(self, prop: str):
+    @staticmethod
+    def _parse_initial_prop(prop: str) -> str:
         if prop and prop[0] != "(":
             head, args = parse_proposition(prop)
             prop = _P(head, *args)
-        self._initial_state.append(prop)
+        return prop
+
+    def add_initial_prop(self, prop: str):
+        self._initial_state.append(self._parse_initial_prop(prop))
 
     def set_initial_state(self, state: Set[str]):
-        for prop in state:
-            self.add_initial_prop(prop)
+        # Parse all propositions first, so that malformed ones leave the problem
+        # unchanged.
+        props = [self._parse_initial_prop(prop) for prop in state]
+        self._initial_state.extend(props)
 
     def set_goal(self, goal: Formula):
         self._goal = goal
-- 
2.43.0


From f86ecb4cd03005deb049e00e885d0c1054da59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 28/45] fix: keep definitions of a problem as they were when it
 is built further

---
 symbolic/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 3639fe3..d03239a 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -141,7 +141,7 @@ class Problem:
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":init", self._initial_state)
+        return create_group(":init", list(self._initial_state))
 
     @property
     def goal(self) -> List[Union[str, Formula]]:
-- 
2.43.0


From f7c3dae64909b0a552bc609d3f952746ece1b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 29/45] fix: list objects without a type after those with one

---
 symbolic/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index d03239a..8bdce8e 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -137,7 +137,9 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # A type applies to all the untyped objects before it, so list those last.
+        objects = sorted(self._objects, key=lambda obj: not obj.type)
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From 090ede55923141c5a4af4cf9079f8a91608b1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 30/45] fix: step back over actions without parameters to
 choose from

Stepping back from the end of a node's children assumed that there is an
action and that the last one has arguments, and ran before the first
arguments otherwise.
---
 src/planning/planner.cc | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index d4cd5b0..ecef71b 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -186,42 +186,21 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 }
 
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
-  if (it_action_ == pddl_.actions().end()) {
-    --it_action_;
-    const Action& action = *it_action_;
-    it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
-
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
-  }
-
-  while (it_action_ != pddl_.actions().begin() ||
-         it_param_ != it_action_->parameter_generator().begin()) {
-    if (it_param_ == it_action_->parameter_generator().begin()) {
+  while (true) {
+    if (it_action_ == pddl_.actions().end() ||
+        it_param_ == it_action_->parameter_generator().begin()) {
       // Move onto next action
+      if (it_action_ == pddl_.actions().begin()) break;
       --it_action_;
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
-      --it_param_;
-    } else {
-      // Move onto next parameters
-      --it_param_;
+      continue;
     }
 
+    // Move onto next parameters
+    --it_param_;
+
     // Check action preconditions
     const Action& action = *it_action_;
     const std::vector<Object>& arguments = *it_param_;
-- 
2.43.0


From 550f8822c9b5a5dae011b4a3a0ef8857f8d0597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 31/45] fix: negating a normal form that is always true gives
 one that never is

---
 src/normal_form.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 5b58484..76586b5 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -264,6 +264,9 @@ std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
   // !((a & b) | (c & d) | (e & f))
 
+  // The negation of a formula that is always true is never true
+  if (dnf.empty()) return {};
+
   // ((!a & !b) | (!c & !d) | (!e & !f))
   for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
     std::swap(conj.pos(), conj.neg());
-- 
2.43.0


From 593877e5261180c218c238ccb7fc7c8f19551b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 32/45] fix: normalise conditional effects whose condition is
 always true

---
 src/normal_form.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 76586b5..4ae744b 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -448,7 +448,8 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    condition = Negate(pddl, std::move(*condition));
+    if (!condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -460,9 +461,6 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
       dnfs.push_back(std::move(*condition));
-- 
2.43.0


From d3f600bd9dbab804fdd14d2f646954d36df5995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 33/45] fix: disjunctions in normal forms that are always or
 never true

---
 src/normal_form.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 4ae744b..5a77147 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -189,8 +189,14 @@ std::optional<DisjunctiveFormula> Simplify(const Pddl& pddl,
 std::optional<DisjunctiveFormula> Disjoin(
     const Pddl& pddl, std::vector<DisjunctiveFormula>&& dnfs,
     bool apply_axioms) {
+  // A disjunction of nothing is never true
+  if (dnfs.empty()) return {};
+
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // A disjunction is always true if one of its terms is
+    if (dnf.empty()) return std::move(dnf);
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
-- 
2.43.0


From 2b0befb42be5aab9df97159645409ed5615139c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 34/45] fix: write quantified formulas with their quantifier
 and its variables

---
 src/formula.cc | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 967883c..f219e9f 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -235,6 +235,16 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, forall_params);
 
+  std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
+  ss << "(forall (";
+  std::string delim;
+  for (const Object& param : types) {
+    ss << delim << "?" << param << " - " << param.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  ss << ")" << std::endl << P_str.second << std::endl << ")";
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -251,15 +261,6 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
-  ss.exceptions(std::ios_base::badbit);
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
   return {std::move(F), ss.str()};
 }
 
@@ -275,6 +276,16 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);
 
+  std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
+  ss << "(exists (";
+  std::string delim;
+  for (const Object& param : types) {
+    ss << delim << "?" << param << " - " << param.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  ss << ")" << std::endl << P_str.second << std::endl << ")";
+
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
                              const T& state,
@@ -291,15 +302,6 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
-  ss.exceptions(std::ios_base::badbit);
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
   return {std::move(F), ss.str()};
 }
 
-- 
2.43.0


From 420a4c5de4b82769c072813af72c6605f50cf429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 35/45] fix: count combinations beyond the range of int

---
 include/symbolic/state.h                      |  4 +--
 .../symbolic/utils/combination_generator.h    | 25 ++++++++++---------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/symbolic/state.h b/include/symbolic/state.h
index fcedcfc..a88485b 100644
--- a/include/symbolic/state.h
+++ b/include/symbolic/state.h
@@ -318,7 +318,7 @@ class StateIndex {
     using reference = const Proposition&;
 
     // Constructor
-    iterator(const StateIndex* state_index, int idx)
+    iterator(const StateIndex* state_index, difference_type idx)
         : state_index_(state_index), idx_(idx) {}
 
     // Forward iterator
@@ -397,7 +397,7 @@ class StateIndex {
 
    private:
     const StateIndex* state_index_ = nullptr;
-    int idx_ = 0;
+    difference_type idx_ = 0;
     mutable Proposition prop_;
   };
 };
diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 81cc79a..f5a9c0e 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -127,7 +127,7 @@ class CombinationGenerator {
   /**
    * Access specified element with wrapping and bounds checking.
    */
-  typename iterator::value_type at(int i) const {
+  typename iterator::value_type at(ptrdiff_t i) const {
     // Wrap around negative indices
     if (i < 0) i += size();
 
@@ -143,14 +143,14 @@ class CombinationGenerator {
   /**
    * Access specified element without bounds checking.
    */
-  typename iterator::value_type operator[](int i) const {
+  typename iterator::value_type operator[](ptrdiff_t i) const {
     return *(begin() + i);
   }
 
   /**
    * Get index of given combination.
    */
-  int find(const typename iterator::value_type& combination) const {
+  size_t find(const typename iterator::value_type& combination) const {
     if (combination.size() != options_.size()) {
       std::stringstream ss;
       ss << "CombinationGenerator::find(): Expected " << options_.size()
@@ -242,7 +242,8 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   // Constructor
   Iterator() = default;
-  Iterator(const CombinationGenerator* gen, int idx) : gen_(gen), idx_(idx) {
+  Iterator(const CombinationGenerator* gen, difference_type idx)
+      : gen_(gen), idx_(idx) {
     UpdateCombination();
   }
 
@@ -328,10 +329,10 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
-    int remaining = idx_;
+    difference_type remaining = idx_;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
+      const size_t idx_i = remaining / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
 
       // Set the value
@@ -345,7 +346,7 @@ class CombinationGenerator<ContainerT>::Iterator {
    *
    * Sets values only for elements where idx_ differs from idx_new.
    */
-  void UpdateCombination(int idx_new) {
+  void UpdateCombination(difference_type idx_new) {
     // Do nothing if the index is unchanged
     if (idx_ == idx_new) return;
 
@@ -367,12 +368,12 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
-    int remaining = idx_;
-    int remaining_new = idx_new;
+    difference_type remaining = idx_;
+    difference_type remaining_new = idx_new;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
-      int idx_i_new = remaining_new / gen_->size_groups_[i];
+      const size_t idx_i = remaining / gen_->size_groups_[i];
+      const size_t idx_i_new = remaining_new / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
       remaining_new -= idx_i_new * gen_->size_groups_[i];
 
@@ -388,7 +389,7 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   const CombinationGenerator* gen_ = nullptr;
   std::vector<ValueT> combination_;
-  int idx_ = 0;
+  difference_type idx_ = 0;
 
   friend class CombinationGenerator;
 };
-- 
2.43.0


From b343cc140a682f4577251aa91c68bc45a106da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 36/45] fix: let Python show derived predicates

---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..2b749bd 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -459,9 +459,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From 082467a7cd928b6b1b41625e8660e06410b73b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 37/45] fix: share axioms with Python instead of giving them
 away

---
 src/python/symbolic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 2b749bd..849e10d 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -15,6 +15,7 @@
 #include <pybind11/stl.h>
 
 #include <exception>  // std::out_of_range
+#include <memory>     // std::shared_ptr
 #include <sstream>    // std::stringstream
 
 #include "symbolic/normal_form.h"
@@ -405,7 +406,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            static_cast<bool (Axiom::*)(const State&) const>(
                &Axiom::IsConsistent),
-- 
2.43.0


From 4dca88498c53cae5a8ed5d39996340e071143e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 38/45] fix: truth value of parameter generators in Python

---
 src/python/symbolic.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 849e10d..05e2246 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -475,7 +475,10 @@ PYBIND11_MODULE(pysymbolic, m) {
   py::class_<ParameterGenerator>(m, "ParameterGenerator")
       .def("__getitem__", &ParameterGenerator::at)
       .def("__len__", &ParameterGenerator::size)
-      .def("__nonzero__", &ParameterGenerator::empty)
+      .def("__bool__",
+           [](const ParameterGenerator& param_gen) {
+             return !param_gen.empty();
+           })
       .def(
           "__iter__",
           [](ParameterGenerator& param_gen) {
-- 
2.43.0


From c64fda09af7956b43ec620125d578d909f7e2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 39/45] fix: unpickle a domain without a problem

---
 src/python/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 05e2246..8a774d9 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -329,7 +329,7 @@ PYBIND11_MODULE(pysymbolic, m) {
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+            return problem.empty() ? Pddl(domain) : Pddl(domain, problem);
           }));
 
   // Object::Type
-- 
2.43.0


From 67481edc06f224c5f605d0bc7c06fcfe8b3fb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 40/45] fix: keep alive what Python objects refer to

Objects returned by copy refer to the problem they came from, and the
values of iterators were overwritten when the iterator moved on.
---
 src/python/symbolic.cc | 122 ++++++++++++++++++++++++++++++++---------
 1 file changed, 95 insertions(+), 27 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 8a774d9..9eb0829 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -52,6 +52,56 @@ std::vector<Object> ParseObjects(const Pddl& pddl,
   return objects;
 }
 
+// Creates a Python copy of the value. It keeps the owner of what it refers to
+// alive.
+template <typename T>
+pybind11::object CopyValue(const T& value, const pybind11::object& owner) {
+  pybind11::object copy = pybind11::cast(T(value));
+  pybind11::detail::keep_alive_impl(copy, owner);
+  return copy;
+}
+
+template <typename T>
+pybind11::object CopyValue(const std::vector<T>& values,
+                           const pybind11::object& owner) {
+  pybind11::list copies;
+  for (const T& value : values) {
+    copies.append(CopyValue(value, owner));
+  }
+  return std::move(copies);
+}
+
+// Iterates over Python copies of the values, since the value of the underlying
+// iterator changes when it moves on.
+template <typename IteratorT>
+class CopyIterator {
+ public:
+  CopyIterator(IteratorT&& it, const pybind11::object& owner)
+      : it_(std::move(it)), owner_(owner) {}
+
+  CopyIterator& operator++() {
+    ++it_;
+    return *this;
+  }
+
+  bool operator==(const CopyIterator& other) const { return it_ == other.it_; }
+  bool operator!=(const CopyIterator& other) const { return it_ != other.it_; }
+
+  pybind11::object operator*() const { return CopyValue(*it_, owner_); }
+
+ private:
+  IteratorT it_;
+  pybind11::object owner_;
+};
+
+template <typename ContainerT>
+pybind11::iterator MakeIterator(const pybind11::object& owner) {
+  const ContainerT& container = owner.cast<const ContainerT&>();
+  using Iterator = CopyIterator<decltype(container.begin())>;
+  return pybind11::make_iterator(Iterator(container.begin(), owner),
+                                 Iterator(container.end(), owner));
+}
+
 struct BreadthFirstSearch {
   BreadthFirstSearch(const Planner::Node& root, size_t max_depth, bool verbose,
                      double timeout)
@@ -352,7 +402,15 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def_property_readonly("parameters", &Action::parameters)
       .def_property_readonly("parameter_generator",
                              &Action::parameter_generator)
-      .def_static("parse", &Action::Parse, "pddl"_a, "action_call"_a)
+      .def_static(
+          "parse",
+          [](const py::object& pddl, const std::string& action_call) {
+            const auto action_args =
+                Action::Parse(pddl.cast<const Pddl&>(), action_call);
+            return py::make_tuple(CopyValue(action_args.first, pddl),
+                                  CopyValue(action_args.second, pddl));
+          },
+          "pddl"_a, "action_call"_a)
       .def("to_string",
            [](const Action& action,
               const std::vector<std::string>& arguments) -> std::string {
@@ -473,18 +531,18 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // ParameterGenerator
   py::class_<ParameterGenerator>(m, "ParameterGenerator")
-      .def("__getitem__", &ParameterGenerator::at)
+      .def("__getitem__",
+           [](const py::object& param_gen, size_t idx) {
+             return CopyValue(
+                 param_gen.cast<const ParameterGenerator&>().at(idx),
+                 param_gen);
+           })
       .def("__len__", &ParameterGenerator::size)
       .def("__bool__",
            [](const ParameterGenerator& param_gen) {
              return !param_gen.empty();
            })
-      .def(
-          "__iter__",
-          [](ParameterGenerator& param_gen) {
-            return py::make_iterator(param_gen.begin(), param_gen.end());
-          },
-          py::keep_alive<0, 1>())  // Keep vector alive while iterator is used
+      .def("__iter__", &MakeIterator<ParameterGenerator>)
       .def("index",
            [](const ParameterGenerator& param_gen,
               const StringVector& str_args) -> size_t {
@@ -534,18 +592,13 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // Planner::Node
   py::class_<Planner::Node>(m, "PlannerNode")
-      .def(py::init<const Planner::Node&>())
+      .def(py::init<const Planner::Node&>(), py::keep_alive<1, 2>())
       .def_property_readonly("action", &Planner::Node::action)
       .def_property_readonly(
           "state",
           [](const Planner::Node& node) { return Stringify(node.state()); })
       .def_property_readonly("depth", &Planner::Node::depth)
-      .def(
-          "__iter__",
-          [](const Planner::Node& node) {
-            return py::make_iterator(node.begin(), node.end());
-          },
-          py::keep_alive<0, 1>())
+      .def("__iter__", &MakeIterator<Planner::Node>)
       .def("__repr__", [](const Planner::Node& node) {
         std::stringstream ss;
         ss << node;
@@ -554,7 +607,7 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // Planner
   py::class_<Planner>(m, "Planner")
-      .def(py::init<const Pddl&>(), "pddl"_a, R"pbdoc(
+      .def(py::init<const Pddl&>(), "pddl"_a, py::keep_alive<1, 2>(), R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the initial state.
 
         Args:
@@ -565,7 +618,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(py::init([](const Pddl& pddl, const StringSet& state) {
              return Planner(pddl, ParseState(pddl, state));
            }),
-           "pddl"_a, "state"_a, R"pbdoc(
+           "pddl"_a, "state"_a, py::keep_alive<1, 2>(), R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the given state.
 
         Args:
@@ -594,9 +647,14 @@ PYBIND11_MODULE(pysymbolic, m) {
   //     py::keep_alive<0, 1>());
   py::class_<::BreadthFirstSearch>(m, "BreadthFirstSearch")
       .def(py::init<const Planner::Node&, size_t, bool, double>(), "root"_a,
-           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0)
-      .def("__iter__", [](::BreadthFirstSearch& it) { return it; })
-      .def("__next__", [](::BreadthFirstSearch& it) {
+           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0,
+           py::keep_alive<1, 2>())
+      .def("__iter__",
+           [](::BreadthFirstSearch& it) -> ::BreadthFirstSearch& {
+             return it;
+           })
+      .def("__next__", [](const py::object& self) {
+        auto& it = self.cast<::BreadthFirstSearch&>();
         if (!it.initialized) {
           it.it = it.bfs.begin();
           it.initialized = true;
@@ -608,16 +666,24 @@ PYBIND11_MODULE(pysymbolic, m) {
           throw pybind11::stop_iteration();
         }
 
-        return *it.it;
+        return CopyValue(*it.it, self);
       });
 
   py::class_<DisjunctiveFormula>(m, "DisjunctiveFormula")
       .def_readonly("conjunctions", &DisjunctiveFormula::conjunctions)
       .def_static("normalize_goal", &DisjunctiveFormula::NormalizeGoal,
-                  "pddl"_a, "apply_axioms"_a = false)
-      .def_static("normalize_conditions",
-                  &DisjunctiveFormula::NormalizeConditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false, R"pbdoc(
+                  "pddl"_a, "apply_axioms"_a = false, py::keep_alive<0, 1>())
+      .def_static(
+          "normalize_conditions",
+          [](const py::object& pddl, const std::string& action_call,
+             bool apply_axioms) -> py::object {
+            const auto conditions = DisjunctiveFormula::NormalizeConditions(
+                pddl.cast<const Pddl&>(), action_call, apply_axioms);
+            if (!conditions) return py::none();
+            return py::make_tuple(CopyValue(conditions->first, pddl),
+                                  CopyValue(conditions->second, pddl));
+          },
+          "pddl"_a, "action_call"_a, "apply_axioms"_a = false, R"pbdoc(
           Normalize the pre/post conditions of the given action.
 
           If either of the conditions are invalid, this function will return an
@@ -656,10 +722,12 @@ PYBIND11_MODULE(pysymbolic, m) {
           )pbdoc")
       .def_static("normalize_preconditions",
                   &DisjunctiveFormula::NormalizePreconditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false)
+                  "action_call"_a, "apply_axioms"_a = false,
+                  py::keep_alive<0, 1>())
       .def_static("normalize_postconditions",
                   &DisjunctiveFormula::NormalizePostconditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false)
+                  "action_call"_a, "apply_axioms"_a = false,
+                  py::keep_alive<0, 1>())
       .def("__repr__", [](const DisjunctiveFormula& dnf) {
         std::stringstream ss;
         ss << dnf;
-- 
2.43.0


From 4ea084236ad0964d79dcaed552552c76fc14c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 41/45] fix: raise an error when text for Python does not fit
 into memory

---
 src/python/symbolic.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 9eb0829..a3f232b 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -508,6 +508,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       //     )pbdoc")
       .def("__repr__", [](const Axiom& axiom) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << axiom;
         return ss.str();
       });
@@ -520,6 +521,7 @@ PYBIND11_MODULE(pysymbolic, m) {
                   })
       .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << pred;
         return ss.str();
       });
@@ -601,6 +603,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def("__iter__", &MakeIterator<Planner::Node>)
       .def("__repr__", [](const Planner::Node& node) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << node;
         return ss.str();
       });
@@ -730,6 +733,7 @@ PYBIND11_MODULE(pysymbolic, m) {
                   py::keep_alive<0, 1>())
       .def("__repr__", [](const DisjunctiveFormula& dnf) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << dnf;
         return ss.str();
       });
@@ -750,6 +754,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       //     }))
       .def("__repr__", [](const PartialState& s) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << s;
         return ss.str();
       });
-- 
2.43.0


From fa049f6ed96cc5ba5b4f17185dc98d911a338703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 42/45] fix: keep the problem of axioms alive in Python

---
 src/python/symbolic.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index a3f232b..0be99d6 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -346,7 +346,11 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def_property_readonly("objects", &Pddl::objects)
       .def_property_readonly("actions", &Pddl::actions)
       .def_property_readonly("predicates", &Pddl::predicates)
-      .def_property_readonly("axioms", &Pddl::axioms)
+      .def_property_readonly("axioms",
+                             [](const py::object& pddl) {
+                               return CopyValue(
+                                   pddl.cast<const Pddl&>().axioms(), pddl);
+                             })
       .def_property_readonly("derived_predicates", &Pddl::derived_predicates)
       .def_property_readonly("state_index", &Pddl::state_index)
       .def_property_readonly("goal", &Pddl::goal)
-- 
2.43.0


From cde65f52c73c3a44e2ce14c64445ed33b0c49ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 43/45] fix: find no combination in empty generators

find() returned 0 for the empty combination when there were no combinations
at all because one of the types has no objects, so StateIndex took p() for the
first proposition of the following predicate, or wrote past its end.
---
 include/symbolic/utils/combination_generator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index f5a9c0e..5a94802 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -151,6 +151,10 @@ class CombinationGenerator {
    * Get index of given combination.
    */
   size_t find(const typename iterator::value_type& combination) const {
+    if (empty()) {
+      throw std::out_of_range(
+          "CombinationGenerator::find(): There are no combinations.");
+    }
     if (combination.size() != options_.size()) {
       std::stringstream ss;
       ss << "CombinationGenerator::find(): Expected " << options_.size()
-- 
2.43.0


From d0625181988a2641becf9e1783d7bd86e7024cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 44/45] fix: evaluate the conditions of effects in the state
 prior to the action

---
 src/action.cc | 80 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 19 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index dc65dc3..2884c74 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -31,8 +31,11 @@ using ::symbolic::PropositionRef;
 using ::symbolic::SignedProposition;
 using ::symbolic::State;
 
+// Applies effects with the given arguments. Conditions are evaluated in the state
+// prior to the action, which may be the state being changed if there are none.
 template <typename T>
-using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
+using EffectsFunction =
+    std::function<int(const std::vector<Object>&, const T&, T*)>;
 
 using ApplicationFunction =
     std::function<std::vector<Object>(const std::vector<Object>&)>;
@@ -60,7 +63,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
 
   return [gen = ParameterGenerator(pddl, types),
           ForallEffects = std::move(ForallEffects)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     // Loop over forall arguments
     int is_state_changed = 0;
     for (const std::vector<Object>& forall_objs : gen) {
@@ -70,7 +74,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
                          forall_objs.end());
 
       is_state_changed =
-          std::max(is_state_changed, ForallEffects(forall_args, state));
+          std::max(is_state_changed,
+                   ForallEffects(forall_args, prev_state, state));
     }
     return is_state_changed;
   };
@@ -90,7 +95,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] != prop_args[1]) {
@@ -106,7 +111,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               // NOLINTNEXTLINE(misc-unused-parameters)
+               T* state) -> int {
       const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (!prop_args[0].type().IsSubtype(name_predicate)) {
@@ -141,7 +148,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             // NOLINTNEXTLINE(misc-unused-parameters)
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     const std::vector<Object> prop_args = Apply(arguments);
     int status = state->insert(
         PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
@@ -182,7 +191,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] == prop_args[1]) {
@@ -198,7 +207,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               // NOLINTNEXTLINE(misc-unused-parameters)
+               T* state) -> int {
       const std::vector<Object> prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (prop_args[0].type().IsSubtype(name_predicate)) {
@@ -233,7 +244,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             // NOLINTNEXTLINE(misc-unused-parameters)
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     const std::vector<Object> prop_args = Apply(arguments);
     int status = state->erase(
         PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
@@ -274,11 +287,11 @@ EffectsFunction<T> CreateCond(const Pddl& pddl, const VAL::cond_effect* effect,
       CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters);
   return
       [Condition = std::move(Condition), CondEffects = std::move(CondEffects)](
-          const std::vector<Object>& arguments, T* state) -> int {
-        // TODO(tmigimatsu): Condition might return different results depending
-        // on ordering of other effects since state is modified in place.
-        if (EvaluateCondition(Condition(*state, arguments))) {
-          return CondEffects(arguments, state);
+          const std::vector<Object>& arguments, const T& prev_state,
+          T* state) -> int {
+        // Other effects may have changed the state already.
+        if (EvaluateCondition(Condition(prev_state, arguments))) {
+          return CondEffects(arguments, prev_state, state);
         }
         return false;
       };
@@ -310,15 +323,44 @@ EffectsFunction<T> CreateEffectsFunction(
   }
 
   return [effect_functions = std::move(effect_functions)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int is_state_changed = 0;
     for (const EffectsFunction<T>& Effect : effect_functions) {
-      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
+      is_state_changed =
+          std::max(is_state_changed, Effect(arguments, prev_state, state));
     }
     return is_state_changed;
   };
 }
 
+bool HasConditions(const VAL::effect_lists* effects) {
+  if (!effects->cond_effects.empty()) return true;
+  for (const VAL::forall_effect* effect : effects->forall_effects) {
+    if (HasConditions(effect->getEffects())) return true;
+  }
+  return false;
+}
+
+template <typename T>
+std::function<int(const std::vector<Object>&, T*)> CreateApplyFunction(
+    const Pddl& pddl, const VAL::effect_lists* effects,
+    const std::vector<Object>& parameters) {
+  EffectsFunction<T> Effects =
+      CreateEffectsFunction<T>(pddl, effects, parameters);
+  if (!HasConditions(effects)) {
+    return [Effects = std::move(Effects)](
+               const std::vector<Object>& arguments, T* state) -> int {
+      return Effects(arguments, *state, state);
+    };
+  }
+  return [Effects = std::move(Effects)](const std::vector<Object>& arguments,
+                                        T* state) -> int {
+    const T prev_state = *state;
+    return Effects(arguments, prev_state, state);
+  };
+}
+
 const VAL::operator_* GetSymbol(const Pddl& pddl,
                                 const std::string& name_action) {
   assert(pddl.symbol()->the_domain->ops != nullptr);
@@ -342,9 +384,9 @@ Action::Action(const Pddl& pddl, const VAL::operator_* symbol)
       parameters_(Object::CreateList(pddl, symbol_->parameters)),
       param_gen_(pddl, parameters_),
       Preconditions_(pddl, symbol_->precondition, parameters_),
-      Apply_(CreateEffectsFunction<State>(pddl, symbol_->effects, parameters_)),
-      ApplyPartial_(CreateEffectsFunction<PartialState>(pddl, symbol_->effects,
-                                                        parameters_)) {}
+      Apply_(CreateApplyFunction<State>(pddl, symbol_->effects, parameters_)),
+      ApplyPartial_(CreateApplyFunction<PartialState>(pddl, symbol_->effects,
+                                                      parameters_)) {}
 
 Action::Action(const Pddl& pddl, const std::string& action_call)
     : Action(pddl, GetSymbol(pddl, Proposition::ParseHead(action_call))) {}
-- 
2.43.0


From f05f7aca58604cd015d476a65dcb047d8cdcad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 45/45] fix: do not overflow when comparing with a large time
 limit

---
 include/symbolic/planning/breadth_first_search.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/planning/breadth_first_search.h b/include/symbolic/planning/breadth_first_search.h
index 7b8b024..d50ed2d 100644
--- a/include/symbolic/planning/breadth_first_search.h
+++ b/include/symbolic/planning/breadth_first_search.h
@@ -86,9 +86,11 @@ BreadthFirstSearch<NodeT>::iterator::operator++() {
   const auto t_start = std::chrono::steady_clock::now();
   size_t depth = 0;
   while (!queue_.empty()) {
-    // Abort on timeout.
+    // Abort on timeout. The elapsed time is rounded up, because large timeouts
+    // overflow in the units of the clock.
     if (bfs_->timeout_.count() > 0 &&
-        std::chrono::steady_clock::now() - t_start > bfs_->timeout_) {
+        std::chrono::ceil<std::chrono::microseconds>(
+            std::chrono::steady_clock::now() - t_start) > bfs_->timeout_) {
       std::queue<std::pair<NodeT, std::shared_ptr<std::vector<NodeT>>>> empty;
       std::swap(queue_, empty);
       break;
-- 
2.43.0

